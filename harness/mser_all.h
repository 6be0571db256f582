#pragma once
#include "mser_common.h"
#include "img_fast_mser_v1.h"
#include "img_fast_mser_v2.h"
#include "img_linked_linear_mser.h"
#ifdef MS
#include "img_ms_mser.h"
#include "img_origin_mser.h"
#endif
// config: 1..32 -> fast_mser_v1 with that many threads, 100+k -> fast_mser_v2 with k threads, 200 -> linked_linear_mser, 300 -> ms_mser, 301 -> original_mser (built with MS)
static img_mser_base* make_alg(int cfg, int& thr) {
#ifdef MS
	if (cfg >= 301) { thr = 1; return new img_original_mser(); }
	if (cfg >= 300) { thr = 1; return new img_ms_mser(); }
#endif
	if (cfg >= 200) { thr = 1; return new img_linked_linear_mser(); }
	if (cfg >= 100) { thr = cfg - 100; return new img_fast_mser_v2(); }
	thr = cfg; return new img_fast_mser_v1();
}
static void run_cfg(int cfg, const mt_mat& m, const Img& im, const Par& p, int conn, RepList out[2], b8 fmin = sys_true, b8 fmax = sys_true) {
	int thr; img_mser_base* a = make_alg(cfg, thr); configure(*a, p, conn, thr, fmin, fmax);
	img_multi_msers res; a->extract(res, m);
	for (int c = 0; c < 2; ++c) read_back(res, c, im, out[c]);
	delete a;
}
