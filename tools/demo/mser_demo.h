// Union-find component tree used as the expected result of the demonstrations.
#pragma once
#include "stdafx.h"
#include "img_mser_base.h"
#include "img_mser_helper.h"
#include "img_fast_mser_v1.h"
#include "img_fast_mser_v2.h"
#include "img_linked_linear_mser.h"
#include <set>
#include <tuple>
#include <float.h>
#include <assert.h>
using namespace basicsys; using namespace basicmath; using namespace basicimg;
typedef unsigned long long u64v;
typedef std::tuple<int,int,int,int,int,int,u64v> Sig;   // gray size left top width height pixel-hash
struct DImage { int w, h; std::vector<unsigned char> px; DImage(int W, int H) : w(W), h(H), px(W * H) {} unsigned char& at(int x, int y) { return px[y * w + x]; } };
static u64v pxhash(int x, int y) { u64v z = (u64v)(y * 65537 + x) + 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct DParams { int delta, minp; float ratio, stable, nms, dup; int conn; DParams() : delta(0), minp(1), ratio(1.0f), stable(FLT_MAX), nms(-1), dup(0), conn(4) {} };
struct DNode { int gray, size, l, t, r, b, parent; u64v hash; float var; bool flag; };
static std::vector<DNode> tree(const DImage& im, int gmask, int conn) {
	std::vector<DNode> res; std::vector<int> prev;   // one node per connected component of each level set that touches its level
	int N = im.w * im.h; std::vector<int> label(N, -1); std::vector<int> owner(N, -1);
	for (int lv = 0; lv < 256; ++lv) {
		bool any = false; for (int i = 0; i < N; ++i) if ((im.px[i] ^ gmask) == lv) any = true; if (!any) continue;
		std::vector<char> seen(N, 0);
		for (int s = 0; s < N; ++s) { if ((im.px[s] ^ gmask) != lv || seen[s]) continue; DNode n; n.gray = lv; n.size = 0; n.l = n.t = 1 << 30; n.r = n.b = -1; n.parent = -1; n.hash = 0; n.var = -1; n.flag = false; int id = (int)res.size(); std::vector<int> st(1, s); seen[s] = 1; std::vector<int> px;
			while (!st.empty()) { int i = st.back(); st.pop_back(); px.push_back(i); int x = i % im.w, y = i / im.w; n.size++; n.hash += pxhash(x, y); n.l = std::min(n.l, x); n.r = std::max(n.r, x); n.t = std::min(n.t, y); n.b = std::max(n.b, y);
				for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { if ((!dx && !dy) || (conn == 4 && dx && dy)) continue; int X = x + dx, Y = y + dy; if (X < 0 || Y < 0 || X >= im.w || Y >= im.h) continue; int j = Y * im.w + X; if (!seen[j] && (im.px[j] ^ gmask) <= lv) { seen[j] = 1; st.push_back(j); } } }
			for (size_t k = 0; k < px.size(); ++k) { int o = owner[px[k]]; if (o >= 0 && res[o].parent < 0 && o != id) res[o].parent = id; owner[px[k]] = id; }
			res.push_back(n); }
	}
	return res;
}
static std::multiset<Sig> expected(const DImage& im, int c, const DParams& p) {
	std::vector<DNode> t = tree(im, c ? 255 : 0, p.conn); std::multiset<Sig> out; int maxp = (int)(p.ratio * im.h * im.w); std::vector<char> sup(t.size(), 0);
	for (size_t i = 0; i < t.size(); ++i) { DNode& r = t[i]; r.flag = true;
		if (p.delta > 0) { int th = r.gray + p.delta; int k = (int)i; while (t[k].parent >= 0 && t[t[k].parent].gray <= th) k = t[k].parent; r.var = (t[k].parent >= 0 || t[k].gray == th) ? (t[k].size - r.size) / (float)r.size : -1; if (r.var > p.stable) r.flag = false; }
		if (r.size < p.minp || r.size > maxp || r.parent < 0) r.flag = false; }
	if (p.delta > 0 && p.nms >= 0) for (size_t i = 0; i < t.size(); ++i) { int q = t[i].parent; if (q < 0 || t[q].gray != t[i].gray + 1 || t[i].var < 0 || t[q].var < 0) continue; float d = t[q].var - t[i].var; if (d > p.nms) sup[q] = 1; else if (-d > p.nms) sup[i] = 1; }
	for (size_t i = 0; i < t.size(); ++i) if (t[i].flag && !sup[i]) out.insert(Sig(t[i].gray ^ (c ? 255 : 0), t[i].size, t[i].l, t[i].t, t[i].r - t[i].l + 1, t[i].b - t[i].t + 1, t[i].hash));
	return out;
}
static std::multiset<Sig> reported(const img_multi_msers& res, int c) {
	std::multiset<Sig> out; std::vector<i32> helper;
	for (size_t k = 0; k < res.m_msers[c].size(); ++k) { const img_mser& s = res.m_msers[c][k]; mt_mat b; img_mser_helper::image_from_mser(b, s, mt_size(0, 0), mt_scalar(0), mt_scalar(255), sys_true, &helper);
		int W = s.m_rect.m_width, H = s.m_rect.m_height, eh = W > H ? (W - H) / 2 : 0, ew = H > W ? (H - W) / 2 : 0; u64v hs = 0;
		for (int r = 0; r < H; ++r) for (int q = 0; q < W; ++q) if (b.ptr<u8>(r + eh, ew + q, 0)[0] == 0) hs += pxhash(q + s.m_rect.m_left, r + s.m_rect.m_top);
		out.insert(Sig(s.m_gray_level, s.m_size, s.m_rect.m_left, s.m_rect.m_top, W, H, hs)); }
	return out;
}
static mt_mat mat_of(const DImage& im) { mt_mat m(im.h, im.w, mt_U8C1); for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) m.ptr<u8>(y, x)[0] = im.px[y * im.w + x]; return m; }
// 1..32: fast_mser_v1 with that many threads, 100 + k: fast_mser_v2 with k threads, 200: linked_linear_mser
static img_mser_base* make(int cfg, const DParams& p) {
	img_mser_base* a; int thr = 1; if (cfg >= 200) a = new img_linked_linear_mser(); else if (cfg >= 100) { a = new img_fast_mser_v2(); thr = cfg - 100; } else { a = new img_fast_mser_v1(); thr = cfg; }
	a->set_stable_delta(p.delta); a->set_stable_max_variation(p.stable); a->set_nms_similarity(p.nms); a->set_duplicated_variation(p.dup); a->set_min_max_point(p.minp, p.ratio); a->set_connected_type(p.conn == 8 ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour); a->enable_extraction(sys_true, sys_true); a->set_parallel_thread_number(thr); return a;
}
static int fails = 0;
static void check(bool ok, const char* what) { if (!ok) { printf("FAILED: %s\n", what); ++fails; } }
static void check_image(int cfg, const DImage& im, const DParams& p, const char* what) { img_mser_base* a = make(cfg, p); img_multi_msers res; a->extract(res, mat_of(im)); for (int c = 0; c < 2; ++c) check(reported(res, c) == expected(im, c, p), what); delete a; }
static unsigned rnd(unsigned& s) { s = s * 1664525u + 1013904223u; return s >> 16; }
