// Bright regions of an image are the dark regions of its negative; each channel is reported only when enabled and does not depend on the other.
#include "mser_all.h"
extern "C" void vp_main() {
	Img im; sym_image(im); Par p; sym_par(p, im, vp_param("FLAGS", 0)); int cfg = vp_param("A", 4), conn = vp_param("CONN", 4);
	Img ng = im; for (int i = 0; i < im.n; ++i) ng.px[i] = 255 - im.px[i];
	static RepList A[2], B[2], C[2], D[2];
	mt_mat m = make_mat(im), n = make_mat(ng);
	run_cfg(cfg, m, im, p, conn, A); run_cfg(cfg, n, ng, p, conn, B);
	for (int c = 0; c < 2; ++c) for (int i = 0; i < B[c].n; ++i) B[c].r[i].gray = 255 - B[c].r[i].gray;
	same_set(A[0], B[1], "dark regions equal the bright regions of the negative image");
	same_set(A[1], B[0], "bright regions equal the dark regions of the negative image");
	run_cfg(cfg, m, im, p, conn, C, sys_true, sys_false); run_cfg(cfg, m, im, p, conn, D, sys_false, sys_true);
	same_set(A[0], C[0], "dark regions do not depend on whether bright ones are extracted"); vp_assert(C[1].n == 0, "a disabled channel reports nothing");
	same_set(A[1], D[1], "bright regions do not depend on whether dark ones are extracted"); vp_assert(D[0].n == 0, "a disabled channel reports nothing");
	observe(A[0]); observe(A[1]); if (A[0].n) vp_reach("dark regions"); if (A[1].n) vp_reach("bright regions");
}
