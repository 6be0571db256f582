// ER / SER / MSER selection of one extractor against the brute-force reference.
#include "mser_common.h"
#if ALG == 1
#include "img_fast_mser_v1.h"
typedef img_fast_mser_v1 Alg;
#elif ALG == 2
#include "img_fast_mser_v2.h"
typedef img_fast_mser_v2 Alg;
#elif ALG == 3
#include "img_linked_linear_mser.h"
typedef img_linked_linear_mser Alg;
#elif ALG == 4
#include "img_origin_mser.h"
typedef img_original_mser Alg;
#elif ALG == 5
#include "img_ms_mser.h"
typedef img_ms_mser Alg;
#elif ALG == 6
#include "img_idiap_mser.h"
typedef img_idiap_mser Alg;
#elif ALG == 7
#include "img_opencv_mser.h"
typedef img_opencv_mser Alg;
#elif ALG == 8
#include "img_opencv3_mser.h"
typedef img_opencv3_mser Alg;
#else
#include "img_vlfeat_mser.h"
typedef img_vlfeat_mser Alg;
#endif
extern "C" void vp_main() {
	Img im; sym_image(im); int conn = vp_param("CONN", 4), thr = vp_param("THR", 1);
	Par p; sym_par(p, im, vp_param("FLAGS", 0));
	KEEP_ROOT = ALG == 4;
	Alg a; configure(a, p, conn, thr);
	mt_mat m = make_mat(im, vp_param("PAD", 0) != 0);
	img_multi_msers res; a.extract(res, m);
	for (int ch = 0; ch < 2; ++ch) {
		static RepList rl; read_back(res, ch, im, rl); observe(rl);
		bool parallel8 = conn == 8 && thr > 1; if (parallel8) { SPLITX = im.w / 2; SPLITY = thr >= 4 ? im.h / 2 : 1 << 20; }
		static Tree t; ref_tree(im, ch ? 255 : 0, conn, all_px(im), t); ref_select(t, p, ALG == 2 && thr == 1);
		compare_reports(im, t, rl, ch ? 255 : 0);
		if (parallel8) { SPLITX = SPLITY = 1 << 20; static Tree u; ref_tree(im, ch ? 255 : 0, conn, all_px(im), u); ref_select(u, p, ALG == 2 && thr == 1); int w = 0, hit = 0; for (int i = 0; i < u.n; ++i) { w += u.r[i].flag; if (u.r[i].flag) for (int k = 0; k < rl.n; ++k) if (rl.r[k].m == u.r[i].m) ++hit; }
			vp_assert(w == rl.n && hit == w, "8-connected neighbours on both sides of a patch border are connected"); }
		if (rl.n > 0) vp_reach("some region reported"); if (rl.n == 0) vp_reach("no region reported");
	}
}
