// ER extraction by any extractor configuration against the brute-force reference (same as mser_er.cpp, extractor chosen by the bound A).
#include "mser_all.h"
extern "C" void vp_main() {
	Img im; sym_image(im); int conn = vp_param("CONN", 4), cfg = vp_param("A", 1); Par p; sym_par(p, im, vp_param("FLAGS", 0));
	mt_mat m = make_mat(im); static RepList R[2]; run_cfg(cfg, m, im, p, conn, R);
	for (int ch = 0; ch < 2; ++ch) { observe(R[ch]); static Tree t; ref_tree(im, ch ? 255 : 0, conn, all_px(im), t); ref_select(t, p, cfg == 101); compare_reports(im, t, R[ch], ch ? 255 : 0); if (R[ch].n > 0) vp_reach("some region reported"); }
}
