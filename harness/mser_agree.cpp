// Two extractor configurations on the same symbolic image and parameters report the same regions.
#include "mser_all.h"
extern "C" void vp_main() {
	Img im; sym_image(im); int conn = vp_param("CONN", 4); Par p; sym_par(p, im, vp_param("FLAGS", 0));
	mt_mat m = make_mat(im); static RepList A[2], B[2];
	run_cfg(vp_param("A", 200), m, im, p, conn, A); run_cfg(vp_param("B", 1), m, im, p, conn, B);
	for (int c = 0; c < 2; ++c) { observe(A[c]); observe(B[c]); same_set(A[c], B[c], "both configurations report the same regions"); if (A[c].n) vp_reach("regions compared"); }
}
