// Shared by the MSER harnesses: symbolic images, running the real extractors, and an independent brute-force component-tree reference.
#pragma once
#include "vp.h"
#include "stdafx.h"
#include "img_mser_base.h"
#include "img_mser_helper.h"
#include <stdlib.h>
#include <float.h>
using namespace basicsys;
using namespace basicmath;
using namespace basicimg;
typedef unsigned long long msk;
struct Img { int w, h, n; unsigned char px[64]; };
// Palettes of strictly increasing levels; index 0 is consecutive, the others exercise gaps and both ends of the 8-bit range.
static const unsigned char PAL[6][4] = { { 10, 11, 12, 13 }, { 0, 1, 2, 3 }, { 252, 253, 254, 255 }, { 0, 100, 101, 255 }, { 7, 8, 10, 13 }, { 0, 2, 3, 255 } };
// base pattern of the pixels that are not symbolic
static int base_level(int t, int x, int y, int w, int h, int levels) {
	if (t == 1) return (x + y) & 1 ? levels - 1 : 0;
	if (t == 2) return (x + y) % levels;
	if (t == 3) return y & 1 ? (x == ((y / 2) & 1 ? 0 : w - 1) ? 0 : levels - 1) : 0;   // one-pixel-wide serpentine valley
	if (t == 4) return levels - 1;
	if (t == 5) return (x & 1) && (y & 1) ? 0 : levels - 1;     // isolated minima
	if (t == 6) { int d = x < y ? x : y; if (w - 1 - x < d) d = w - 1 - x; if (h - 1 - y < d) d = h - 1 - y; return d % levels; }   // concentric rings
	return 0;
}
// W x H image over L gray levels of one of PAL palettes; pixels in the window (SX,SY,SW,SH) are symbolic, the others follow pattern TPL
static void sym_image(Img& im) {
	int w = vp_param("W", 3), h = vp_param("H", 2), levels = vp_param("L", 3), npal = vp_param("PAL", 1), t = vp_param("TPL", 0), sx = vp_param("SX", 0), sy = vp_param("SY", 0), sw = vp_param("SW", 99), sh = vp_param("SH", 99), lazy = vp_param("SYM", 0);
	im.w = w; im.h = h; im.n = w * h;
	int p = npal > 1 ? vp_choose("palette", npal) : npal < 0 ? -npal : 0;
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		int i = y * w + x;
		if (t && (x < sx || x >= sx + sw || y < sy || y >= sy + sh)) { im.px[i] = PAL[p][base_level(t, x, y, w, h, levels)]; continue; }
		im.px[i] = lazy ? PAL[p][vp_int("pixel", 0, levels - 1)] : PAL[p][vp_choose("pixel", levels)];
	}
}
static mt_mat make_mat(const Img& im, bool padded = false) {
	if (!padded) { mt_mat m(im.h, im.w, mt_U8C1); for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) m.ptr<u8>(y, x)[0] = im.px[y * im.w + x]; return m; }
	mt_mat big(im.h + 2, im.w + 3, mt_U8C1); for (int y = 0; y < im.h + 2; ++y) for (int x = 0; x < im.w + 3; ++x) big.ptr<u8>(y, x)[0] = (u8)(77 + 3 * x + 5 * y);
	mt_mat m = big.sub(1, 1 + im.h, 0).sub(2, 2 + im.w, 1);
	for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) m.ptr<u8>(y, x)[0] = im.px[y * im.w + x];
	return m;
}
struct Reg { msk m; int gray, size, parent; float var; int flag; };   // parent: index or -1
struct Tree { int n; Reg r[64]; };
// diagonal steps that cross one of these borders are not followed (only used to state the known finding about 8-connectivity between patches)
static int SPLITX = 1 << 20, SPLITY = 1 << 20;
static msk grow(const Img& im, msk seed, msk allowed, int conn) {
	msk cur = seed & allowed;
	for (;;) { msk nx = cur; for (int i = 0; i < im.n; ++i) if (cur >> i & 1) { int x = i % im.w, y = i / im.w; for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { if (!dx && !dy) continue; if (conn == 4 && dx && dy) continue; int X = x + dx, Y = y + dy; if (dx && dy && ((x < SPLITX) != (X < SPLITX) || (y < SPLITY) != (Y < SPLITY))) continue; if (X < 0 || Y < 0 || X >= im.w || Y >= im.h) continue; nx |= (msk)1 << (Y * im.w + X); } } nx &= allowed; if (nx == cur) return cur; cur = nx; }
}
static msk all_px(const Img& im) { return im.n == 64 ? ~(msk)0 : ((msk)1 << im.n) - 1; }
static int popc(msk m) { int c = 0; for (; m; m &= m - 1) ++c; return c; }
// component tree of the image with levels XORed by gmask (0: dark-on-bright, 255: bright-on-dark); valid = pixels that take part
static void ref_tree(const Img& im, int gmask, int conn, msk valid, Tree& t) {
	t.n = 0;
	for (int lv = 0; lv < 256; ++lv) {
		msk at = 0, le = 0; for (int i = 0; i < im.n; ++i) if (valid >> i & 1) { int v = im.px[i] ^ gmask; if (v == lv) at |= (msk)1 << i; if (v <= lv) le |= (msk)1 << i; }
		if (!at) continue;
		while (at) { msk c = grow(im, at & (~at + 1), le, conn); Reg r; r.m = c; r.gray = lv; r.size = popc(c); r.parent = -1; r.var = -1; r.flag = 0; t.r[t.n++] = r; at &= ~c; }
	}
	for (int i = 0; i < t.n; ++i) for (int j = i + 1; j < t.n; ++j) if ((t.r[j].m & t.r[i].m) == t.r[i].m && t.r[j].m != t.r[i].m && (t.r[i].parent < 0 || t.r[j].size < t.r[t.r[i].parent].size)) t.r[i].parent = j;
}
// documented selection rules: size window, stability, suppression against the adjacent level, duplicate removal
enum { F_SIZE = 1, F_VAR = 2, F_NMS = 4, F_DUP = 8, F_MIN = 16 };
struct Par { float ratio; int delta, minp, maxp; float stable, nms, dup; };
static bool KEEP_ROOT = false;    // original_mser also reports the component that is the whole image
static void ref_select(Tree& t, const Par& p, bool always_dup = false) {
	for (int i = 0; i < t.n; ++i) { Reg& r = t.r[i]; r.flag = 1;
		if (p.delta > 0) {
			int th = r.gray + p.delta; int k = i; while (t.r[k].parent >= 0 && t.r[t.r[k].parent].gray <= th) k = t.r[k].parent;
			if (t.r[k].parent >= 0 || t.r[k].gray == th) r.var = (t.r[k].size - r.size) / (float)r.size; else r.var = -1;
			if (r.var > p.stable) r.flag = 0;
		}
		if (r.size < p.minp || r.size > p.maxp || (r.parent < 0 && !KEEP_ROOT)) r.flag = 0;
	}
	if (p.delta > 0 && p.nms >= 0) {
		bool sup[64]; for (int i = 0; i < t.n; ++i) sup[i] = false;
		for (int i = 0; i < t.n; ++i) { int q = t.r[i].parent; if (q < 0 || t.r[q].gray != t.r[i].gray + 1 || !(t.r[i].var >= 0) || !(t.r[q].var >= 0)) continue; float d = t.r[q].var - t.r[i].var; if (d > p.nms) sup[q] = true; else if (-d > p.nms) sup[i] = true; }
		for (int i = 0; i < t.n; ++i) if (sup[i]) t.r[i].flag = 0;
	}
	if (p.dup > 0 || always_dup) {
		int st[64]; for (int i = 0; i < t.n; ++i) st[i] = t.r[i].flag ? 1 : 0;     // 1 candidate, 0 out, 2 kept
		for (int i = 0; i < t.n; ++i) { if (st[i] != 1) continue;
			int ch[64], n = 0; ch[n++] = i;
			for (int pass = 0; pass < 2; ++pass) { int s = pass == 0 ? i : ch[n / 2], b = pass == 0 ? i : ch[n - 1]; if (pass == 1 && n / 2 == 0) break; int mid = s;
				for (int q = t.r[b].parent; q >= 0; q = t.r[q].parent) { if (t.r[q].size > p.maxp) break; double v = (t.r[q].size - t.r[mid].size) / (double)t.r[mid].size; if (v > p.dup) break; if (st[q] == 1) ch[n++] = q; }
				if (pass == 0) { int keep = ch[n / 2]; int m0 = n / 2; if (m0 == 0) { st[i] = 2; break; } // remember the middle before extending
					int kk = m0; int bb = ch[n - 1]; for (int q = t.r[bb].parent; q >= 0; q = t.r[q].parent) { if (t.r[q].size > p.maxp) break; double v = (t.r[q].size - t.r[keep].size) / (double)t.r[keep].size; if (v > p.dup) break; if (st[q] == 1) ch[n++] = q; }
					for (int j = 0; j < n; ++j) st[ch[j]] = j == kk ? 2 : 0; break; } } }
		for (int i = 0; i < t.n; ++i) t.r[i].flag = st[i] == 2;
	}
}
// symbolic extraction parameters; FLAGS says which selection rules are active
static void sym_par(Par& p, const Img& im, int flags) {
	p.delta = 0; p.stable = FLT_MAX; p.nms = -1; p.dup = 0; p.minp = 1; p.maxp = im.n; p.ratio = 1.0f;
	if (flags & F_MIN) p.minp = vp_int("min_point", 1, im.n);
	if (flags & F_SIZE) { p.minp = vp_int("min_point", 1, im.n); p.ratio = vp_f32("max_ratio"); vp_assume(p.ratio >= 0.0f && p.ratio <= 1.0f); p.maxp = (int)(p.ratio * im.h * im.w); }
	if (flags & (F_VAR | F_NMS)) { int lo = vp_param("DMIN", 1), hi = vp_param("DMAX", 2); p.delta = lo + vp_choose("delta", hi - lo + 1); p.stable = vp_f32("stable"); vp_assume(p.stable >= 0.0f && p.stable <= 1000.0f); }
	if (flags & F_NMS) { p.nms = vp_f32("nms"); vp_assume(p.nms >= 0.0f && p.nms <= 1000.0f); }
	if (flags & F_DUP) { p.dup = vp_f32("dup"); vp_assume(p.dup > 0.0f && p.dup < 1.0f); }
}
template <class T> static void configure(T& a, const Par& p, int conn, int thr, b8 from_min = sys_true, b8 from_max = sys_true) {
	a.set_stable_delta(p.delta); a.set_stable_max_variation(p.stable); a.set_nms_similarity(p.nms); a.set_duplicated_variation(p.dup); a.set_min_max_point(p.minp, p.ratio);
	a.set_connected_type(conn == 8 ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour); a.enable_extraction(from_min, from_max); a.set_parallel_thread_number(thr);
}
// what the extractor reported, read back through the library's own consumer
struct Rep { msk m; int gray, size, l, t, w, h; };
struct RepList { int n; Rep r[128]; };
static void render(const img_mser& s, const Img& im, vector<i32>* helper, msk& m) {
	mt_mat b; img_mser_helper::image_from_mser(b, s, mt_size(0, 0), mt_scalar(0), mt_scalar(255), sys_true, helper);
	int W = s.m_rect.m_width, H = s.m_rect.m_height, eh = W > H ? (W - H) / 2 : 0, ew = H > W ? (H - W) / 2 : 0; m = 0;
	vp_assert(b.size()[0] == H + 2 * eh && b.size()[1] == W + 2 * ew, "the rendered region has the size of its bounding box");
	for (int r = 0; r < b.size()[0]; ++r) for (int c = 0; c < b.size()[1]; ++c) if (b.ptr<u8>(r, c)[0] == 0) { int x = c - ew + s.m_rect.m_left, y = r - eh + s.m_rect.m_top; vp_assert(x >= 0 && y >= 0 && x < im.w && y < im.h, "every pixel of a region lies inside the image"); m |= (msk)1 << (y * im.w + x); }
}
static void read_back(const img_multi_msers& res, int ch, const Img& im, RepList& o) {
	o.n = 0; vector<i32> helper;
	for (size_t k = 0; k < res.m_msers[ch].size(); ++k) {
		const img_mser& s = res.m_msers[ch][k]; vp_assert(o.n < 127, "no more regions are reported than can exist"); Rep& r = o.r[o.n++];
		r.gray = s.m_gray_level; r.size = s.m_size; r.l = s.m_rect.m_left; r.t = s.m_rect.m_top; r.w = s.m_rect.m_width; r.h = s.m_rect.m_height;
		vp_assert(r.l >= 0 && r.t >= 0 && r.w > 0 && r.h > 0 && r.l + r.w <= im.w && r.t + r.h <= im.h, "the reported rectangle lies inside the image");
		render(s, im, &helper, r.m);
	}
}
static void bbox(const Img& im, msk m, int& l, int& t, int& w, int& h) { int x0 = 99, y0 = 99, x1 = -1, y1 = -1; for (int i = 0; i < im.n; ++i) if (m >> i & 1) { int x = i % im.w, y = i / im.w; if (x < x0) x0 = x; if (x > x1) x1 = x; if (y < y0) y0 = y; if (y > y1) y1 = y; } l = x0; t = y0; w = x1 - x0 + 1; h = y1 - y0 + 1; }
// every reported region is a selected region of the reference and vice versa, each exactly once
static void compare_reports(const Img& im, const Tree& t, const RepList& rl, int gmask, bool check_rect = true) {
	int want = 0; for (int i = 0; i < t.n; ++i) want += t.r[i].flag;
	for (int k = 0; k < rl.n; ++k) {
		int f = -1; for (int i = 0; i < t.n; ++i) if (t.r[i].m == rl.r[k].m && (t.r[i].gray ^ gmask) == rl.r[k].gray) f = i;
		vp_assert(f >= 0, "every reported region is a connected extremal region with its own gray level");
		vp_assert(rl.r[k].size == t.r[f].size, "the reported size is the number of distinct pixels");
		vp_assert(t.r[f].flag, "every reported region passes the configured selection rules");
		for (int j = 0; j < k; ++j) vp_assert(rl.r[j].m != rl.r[k].m, "no region is reported twice");
		if (check_rect) { int l, tp, w, h; bbox(im, rl.r[k].m, l, tp, w, h); vp_assert(l == rl.r[k].l && tp == rl.r[k].t && w == rl.r[k].w && h == rl.r[k].h, "the reported rectangle is the bounding box of the pixels"); }
	}
	vp_assert(rl.n == want, "every region that passes the selection rules is reported");
}
static bool same_region(const Rep& a, const Rep& b) { return a.m == b.m && a.gray == b.gray && a.size == b.size && a.l == b.l && a.t == b.t && a.w == b.w && a.h == b.h; }
static void same_set(const RepList& a, const RepList& b, const char* label) {
	bool ok = a.n == b.n;
	for (int i = 0; ok && i < a.n; ++i) { int c = 0, d = 0; for (int j = 0; j < b.n; ++j) if (same_region(a.r[i], b.r[j])) ++c; for (int j = 0; j < a.n; ++j) if (same_region(a.r[i], a.r[j])) ++d; if (c != d) ok = false; }
	vp_assert(ok, label);
}
static void observe(const RepList& r) { vp_observe("count", r.n); for (int i = 0; i < r.n; ++i) { vp_observe("mask", r.r[i].m); vp_observe("gray", r.r[i].gray); vp_observe("rect", r.r[i].l + 16 * r.r[i].t + 256 * r.r[i].w + 4096 * r.r[i].h); } }
