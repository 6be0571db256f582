// The parallel extractors give the same result for every schedule of their threads: every order of running them (ORDER) and every placement of up to
// PREEMPT preemptions at an access that conflicts with another thread; the schedule is part of the symbolic input.
#include "mser_all.h"
extern "C" void vp_main() {
	Img im; sym_image(im); Par p; sym_par(p, im, vp_param("FLAGS", 0)); int cfg = vp_param("A", 4), conn = vp_param("CONN", 4);
	mt_mat m = make_mat(im); static RepList A[2], B[2];
	vp_opt("omp_order", 0); vp_opt("race_collect", 1); run_cfg(cfg, m, im, p, conn, A); vp_opt("race_collect", -1);
	if (vp_param("ORDER", 0)) vp_opt("omp_order", vp_choose("schedule", 3)); vp_opt("preempt", vp_param("PREEMPT", 1)); run_cfg(cfg, m, im, p, conn, B); vp_opt("preempt", -1); vp_opt("omp_order", 0);
	for (int c = 0; c < 2; ++c) { observe(A[c]); same_set(A[c], B[c], "the result does not depend on the order in which threads run"); if (A[c].n) vp_reach("regions compared"); }
}
