// Copies of a result own their data: they describe the same regions after the original is changed or destroyed, and everything is released once.
#include "mser_all.h"
static void rd(const img_multi_msers& r, const Img& im, RepList o[2]) { for (int c = 0; c < 2; ++c) read_back(r, c, im, o[c]); }
static void cmp(const img_multi_msers& r, const Img& im, RepList want[2], const char* label) { static RepList o[2]; rd(r, im, o); for (int c = 0; c < 2; ++c) { bool ok = o[c].n == want[c].n; for (int i = 0; ok && i < o[c].n; ++i) if (!same_region(o[c].r[i], want[c].r[i])) ok = false; vp_assert(ok, label); } }
extern "C" void vp_main() {
	Img im; sym_image(im); Par p; sym_par(p, im, vp_param("FLAGS", 16)); int cfg = vp_param("A", 4), conn = vp_param("CONN", 4);
	Img o; o.w = 3; o.h = 2; o.n = 6; for (int i = 0; i < 6; ++i) o.px[i] = (unsigned char)(20 + 30 * (i % 3) + (i / 3));
	static RepList W[2], X[2];
	{ int t; img_mser_base* w = make_alg(cfg, t); configure(*w, p, conn, t); img_multi_msers a; w->extract(a, make_mat(o)); w->extract(a, make_mat(im)); img_multi_msers b = a; img_multi_msers c; c = b; rd(c, im, X); delete w; }   // warm-up: caches of the library
	long long heap0 = vp_heap_bytes();
	{
		int thr; img_mser_base* a = make_alg(cfg, thr); configure(*a, p, conn, thr); mt_mat m = make_mat(im), n = make_mat(o);
		img_multi_msers* orig = new img_multi_msers(); a->extract(*orig, m); rd(*orig, im, W);
		img_multi_msers* other = new img_multi_msers(); a->extract(*other, n); rd(*other, o, X);
		cmp(*orig, im, W, "a result is not disturbed by a later extraction");
		img_multi_msers* copy = new img_multi_msers(*orig); img_multi_msers assigned; assigned = *other; assigned = *orig; img_multi_msers self = *orig; self = self;
		delete a; cmp(*orig, im, W, "a result outlives its extractor");
		if (vp_choose("destroy", 2)) delete orig; else { *orig = *other; cmp(*orig, o, X, "an assigned result describes the regions of its source"); delete orig; }
		cmp(*copy, im, W, "a copied result describes the same regions"); cmp(assigned, im, W, "an assigned result describes the same regions"); cmp(self, im, W, "self-assignment leaves a result unchanged");
		cmp(*other, o, X, "copying leaves the other result unchanged");
		int b2; img_mser_base* e = make_alg(cfg, b2); configure(*e, p, conn, b2); e->extract(assigned, n); cmp(assigned, o, X, "extracting into a used result replaces its regions"); delete e;
		cmp(*copy, im, W, "a copied result describes the same regions"); delete copy; delete other;
		// single regions that own their points
		for (int k = 0; k < 2; ++k) { img_mser r; r.m_gray_level = 7; r.m_size = 2; r.m_points = new mt_point[2]; r.m_points[0] = mt_point(1, 2); r.m_points[1] = mt_point(3, 4); r.m_rect = mt_rect(1, 2, 3, 3);
			img_mser q = r, s; s.m_size = 3; s.m_points = new mt_point[3]; s = r; q = q; r.m_points[0] = mt_point(9, 9); if (k) { img_mser z; r = z; vp_assert(r.m_size == 0, "assigning an empty region clears the target"); }
			vector<img_mser> v; v.push_back(q); v.push_back(s); v.push_back(q); v.erase(v.begin());
			for (int i = 0; i < 2; ++i) vp_assert(v[i].m_size == 2 && v[i].m_gray_level == 7 && v[i].m_points[0].m_x == 1 && v[i].m_points[0].m_y == 2 && v[i].m_points[1].m_x == 3 && v[i].m_points[1].m_y == 4 && v[i].m_rect.m_width == 3, "copies of a region own their points"); }
	}
	vp_assert(vp_heap_bytes() == heap0, "every copy releases its memory exactly once");
	for (int c = 0; c < 2; ++c) { observe(W[c]); if (W[c].n) vp_reach("regions compared"); }
}
