// One extractor used repeatedly behaves like a fresh one each time, leaves its input alone and releases everything it allocated.
// SEQ selects the history; the image in the middle of it is symbolic.
#include "mser_all.h"
static void once(img_mser_base* a, const Img& im, RepList out[2]) {
	mt_mat m = make_mat(im); img_multi_msers res; a->extract(res, m);
	for (int i = 0; i < im.n; ++i) vp_assert(m.ptr<u8>(i / im.w, i % im.w)[0] == im.px[i], "extraction leaves the input image unchanged");
	for (int c = 0; c < 2; ++c) read_back(res, c, im, out[c]);
}
static void fresh(int cfg, const Img& im, const Par& p, int conn, RepList out[2], b8 dark = sys_true, b8 bright = sys_true) { int t; img_mser_base* f = make_alg(cfg, t); configure(*f, p, conn, t, dark, bright); once(f, im, out); delete f; }
static void other(Img& o, int w, int h, int pat, int mul) { o.w = w; o.h = h; o.n = w * h; for (int i = 0; i < o.n; ++i) o.px[i] = (unsigned char)(base_level(pat, i % w, i / w, w, h, 3) * mul + (i % 3)); }
// every step of the history is run on the one extractor first; what fresh extractors report is computed afterwards
static RepList F[2], R[2]; struct Step { int cfg, conn; Img im; Par p; b8 dark, bright; RepList r[2]; }; static Step S[20]; static int NS;
static void step(img_mser_base* a, int cfg, const Img& im, const Par& p, int conn, b8 dark = sys_true, b8 bright = sys_true) { Step& s = S[NS++]; s.cfg = cfg; s.conn = conn; s.im = im; s.p = p; s.dark = dark; s.bright = bright; once(a, im, s.r); }
static void compare() { for (int k = 0; k < NS; ++k) { Step& s = S[k]; fresh(s.cfg, s.im, s.p, s.conn, F, s.dark, s.bright); for (int c = 0; c < 2; ++c) { same_set(F[c], s.r[c], "a reused extractor reports what a fresh one does"); observe(s.r[c]); if (F[c].n) vp_reach("regions compared"); } } }
extern "C" void vp_main() {
	Img im; sym_image(im); Par p; sym_par(p, im, vp_param("FLAGS", 0)); int cfg = vp_param("A", 4), conn = vp_param("CONN", 4), seq = vp_param("SEQ", 0);
	Img o, t; other(o, vp_param("OW", 4), vp_param("OH", 2), vp_param("OT", 1), 40); t.w = im.h; t.h = im.w; t.n = im.n; for (int i = 0; i < t.n; ++i) t.px[i] = (unsigned char)(90 - base_level(2, i % t.w, i / t.w, t.w, t.h, 3) * 20);
	Par po = p; po.maxp = o.n; int thr;
	{ img_mser_base* w = make_alg(cfg, thr); configure(*w, po, conn, thr); once(w, o, R); once(w, im, R); delete w; }      // one-time allocations of the library (and of the native thread pool)
	long long heap0 = vp_heap_bytes();
	{
		img_mser_base* a = make_alg(cfg, thr); configure(*a, p, conn, thr);
		if (seq == 0) { step(a, cfg, o, po, conn); step(a, cfg, im, p, conn); step(a, cfg, im, p, conn); step(a, cfg, o, po, conn); }
		else if (seq == 1) { step(a, cfg, t, p, conn); step(a, cfg, im, p, conn); step(a, cfg, t, p, conn); }                               // same buffer sizes, other layout
		else if (seq == 2) {                                                                                                              // the number of threads changes between images
			static const int v1[] = { 4, 1, 32, 2, 16, 8, 1 }, v2[] = { 104, 101, 132, 104, 101, 132, 101 }; const int* l = cfg < 100 ? v1 : v2; bool big = im.w >= 8;
			for (int k = 0; k < 7; ++k) { int c = cfg >= 200 ? cfg : l[k]; a->set_parallel_thread_number(cfg < 200 && c % 100 ? c % 100 : 1); step(a, c, k & 1 ? im : t, p, conn); } }
		else if (seq == 3) { Img b; other(b, 8, 6, 6, 30); Par pb = p; pb.maxp = b.n; step(a, cfg, b, pb, conn); for (int k = 0; k < 13; ++k) { if (k < 11) once(a, o, R); else step(a, cfg, im, p, conn); } step(a, cfg, b, pb, conn); }   // a long history: buffers shrink and grow
		else if (seq == 4) { Par q = p; step(a, cfg, im, p, conn); q.minp = 2; a->set_min_max_point(q.minp, q.ratio); step(a, cfg, im, q, conn); if (thr == 1) { a->set_connected_type(img_Connected_Type_8_Neibour); step(a, cfg, im, q, 8); a->set_connected_type(img_Connected_Type_4_Neibour); } a->enable_extraction(sys_false, sys_true); step(a, cfg, im, q, conn, sys_false, sys_true); a->enable_extraction(sys_true, sys_false); step(a, cfg, im, q, conn, sys_true, sys_false);
			a->enable_extraction(sys_true, sys_true); q.delta = 1; q.stable = 0.5f; q.nms = 0.1f; a->set_stable_delta(1); a->set_stable_max_variation(q.stable); a->set_nms_similarity(q.nms); step(a, cfg, im, q, conn); a->set_stable_delta(0); a->set_stable_max_variation(FLT_MAX); a->set_nms_similarity(-1); q.delta = 0; q.stable = FLT_MAX; q.nms = -1; step(a, cfg, im, q, conn); }
		delete a; compare();
	}
	long long leaked = vp_heap_bytes() - heap0;
	if (seq != 2) vp_assert(leaked == 0, "no memory is retained after the extractor and its results are destroyed");
	vp_observe("kept", seq == 2 ? leaked > 100000 : leaked);
}
