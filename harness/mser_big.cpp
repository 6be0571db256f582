// Larger images (more than 64 pixels, up to 256 gray levels, coordinates beyond one byte, many merges): extractor A against the union-find reference.
#include "mser_all.h"
#include "mser_bigref.h"
static unsigned lcg(unsigned& s) { s = s * 1664525u + 1013904223u; return s >> 16; }
static int big_level(int pat, int x, int y, int w, int h, unsigned& seed) {
	switch (pat) {
	case 0: return (int)(lcg(seed) & 3) * 60 + 20;                                     // noise, 4 levels
	case 1: return (x + y * w) & 255;                                                  // ramp: 256 nested levels
	case 2: return (x & 1) ? 200 : 40 + ((y * 7) & 63);                                // columns
	case 3: return (y & 1) ? 10 + (x > w / 2 ? 1 : 0) : 240;                           // rows crossing every vertical border: one merge per row
	case 4: { int dx = x - w / 2, dy = y - h / 2, d = (dx < 0 ? -dx : dx) + (dy < 0 ? -dy : dy); return 255 - (d * 3 & 255); }   // nested diamonds
	case 5: return ((x / 4 + y / 4) & 1) ? 30 : 150 + ((x * 3 + y) & 31);              // checkerboard of blocks
	case 6: return (x % 3 == 1 && y % 3 == 1) ? 5 + (x + y) % 40 : 250;                // many isolated minima
	case 8: return (x + y) & 1 ? 200 : 10 + (x * 7 + y * 3) % 5;                       // as many regions as possible
	case 9: { static const int V[8] = { 5, 6, 8, 9, 12, 13, 15, 18 }; return V[lcg(seed) & 7]; }   // noise over levels that differ by one, two and three
	default: return y * 256 / h;                                                       // vertical gradient
	}
}
extern "C" void vp_main() {
	vp_opt("instr_limit_k", 3000000);
	int cfg = vp_param("A", 200), conn = vp_param("CONN", 4), pat = vp_param("PAT", 0), W = vp_param("W", 24), H = vp_param("H", 20), K = vp_param("K", 2);
	BigImg im; im.w = W; im.h = H; im.px = (unsigned char*)malloc(W * H); unsigned seed = 12345 + vp_param("SEEDOFF", 0); for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) im.px[y * W + x] = (unsigned char)big_level(pat, x, y, W, H, seed);
	// K symbolic pixels next to the centre (where every partition has a border), each one of three levels
	for (int k = 0; k < K; ++k) { int x = W / 2 - (k & 1), y = H / 2 - (k >> 1 & 1); im.px[y * W + x] = (unsigned char)(vp_choose("pixel", 3) == 0 ? 0 : vp_choose("level", 2) ? 128 : 255); }
	Par p; p.delta = vp_param("DELTA", 0); p.stable = FLT_MAX; p.nms = -1; p.dup = 0; p.ratio = 1.0f; p.maxp = W * H; p.minp = vp_param("SYMMIN", 0) ? vp_int("min_point", 1, W * H) : vp_param("MINP", 1);
	if (p.delta) { p.stable = vp_f32("stable"); vp_assume(p.stable >= 0.0f && p.stable <= 1000.0f); }
	if (vp_param("NMS", 0)) { p.stable = FLT_MAX; p.nms = vp_param("NMS", 0) > 1 ? vp_param("NMS", 0) / 1000.0f : vp_f32("nms"); vp_assume(p.nms >= 0.0f && p.nms <= 1000.0f); }
	mt_mat m(H, W, mt_U8C1); for (int y = 0; y < H; ++y) memcpy(m.ptr<u8>(y, 0), im.px + y * W, W);
	int thr; img_mser_base* a = make_alg(cfg, thr); configure(*a, p, conn, thr); img_multi_msers res; a->extract(res, m); delete a;
	for (int c = 0; c < 2; ++c) {
		Sig* s; int n = big_read(res, c, im, s); BTree t; big_tree(im, c ? 255 : 0, conn, t); big_select(t, p);
		int e = 0; for (int i = 0; i < t.n; ++i) if (t.r[i].flag) ++e;
		Sig* w = (Sig*)malloc(sizeof(Sig) * (e + 1)); e = 0; for (int i = 0; i < t.n; ++i) if (t.r[i].flag) { Sig& g = w[e++]; g.gray = t.r[i].gray ^ (c ? 255 : 0); g.size = t.r[i].size; g.l = t.r[i].l; g.t = t.r[i].t; g.w = t.r[i].r - t.r[i].l + 1; g.h = t.r[i].b - t.r[i].t + 1; g.hash = t.r[i].hash; }
		sig_sort(w, e); vp_assert(n == e, "every region that passes the selection rules is reported, once");
		bool same = true; for (int i = 0; i < n; ++i) if (!sig_eq(s[i], w[i])) same = false; vp_assert(same, "every reported region is a selected extremal region with its pixels, gray level and rectangle");
		vp_observe("count", n); vp_observe("nodes", t.n); u64v hs = 0; for (int i = 0; i < n; ++i) hs = hs * 31 + s[i].hash; vp_observe("hash", (long long)(hs >> 1)); if (n > 1) vp_reach("several regions"); free(s); free(w); free(t.r);
	}
	free(im.px);
}
