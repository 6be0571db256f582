// Reference component tree for images of any size: pixels sorted by level, union-find, one node per connected set of each level set.
#pragma once
#include "mser_common.h"
typedef unsigned long long u64v;
struct BigImg { int w, h; unsigned char* px; };
struct BNode { int gray, size, l, t, r, b, parent; u64v hash; float var; int flag; };
struct BTree { int n; BNode* r; };
static u64v pxhash(int x, int y) { u64v z = (u64v)(y * 65537 + x) + 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static int uf_find(int* p, int a) { while (p[a] != a) { p[a] = p[p[a]]; a = p[a]; } return a; }
static void big_tree(const BigImg& im, int gmask, int conn, BTree& t) {
	int N = im.w * im.h; int* uf = (int*)malloc(sizeof(int) * N); int* node = (int*)malloc(sizeof(int) * N); int* ord = (int*)malloc(sizeof(int) * N); unsigned char* seen = (unsigned char*)calloc(N, 1);
	t.r = (BNode*)malloc(sizeof(BNode) * N); t.n = 0; int st[257]; memset(st, 0, sizeof st); for (int i = 0; i < N; ++i) st[(im.px[i] ^ gmask) + 1]++; for (int i = 0; i < 256; ++i) st[i + 1] += st[i]; for (int i = 0; i < N; ++i) ord[st[im.px[i] ^ gmask]++] = i;
	for (int k = 0; k < N; ++k) {
		int i = ord[k], g = im.px[i] ^ gmask, x = i % im.w, y = i / im.w; uf[i] = i; seen[i] = 1;
		BNode& nd = t.r[t.n]; nd.gray = g; nd.size = 1; nd.l = nd.r = x; nd.t = nd.b = y; nd.parent = -1; nd.hash = pxhash(x, y); nd.var = -1; nd.flag = 0; node[i] = t.n++;
		for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { if ((!dx && !dy) || (conn == 4 && dx && dy)) continue; int X = x + dx, Y = y + dy; if (X < 0 || Y < 0 || X >= im.w || Y >= im.h) continue; int j = Y * im.w + X; if (!seen[j]) continue;
			int a = uf_find(uf, i), b = uf_find(uf, j); if (a == b) continue; int na = node[a], nb = node[b]; BNode& A = t.r[na]; BNode& B = t.r[nb];
			// A has level g; B has level <= g
			if (B.gray == g) { B.parent = -2; } // absorbed: same level
			else B.parent = na;
			A.size += B.size; A.hash += B.hash; if (B.l < A.l) A.l = B.l; if (B.r > A.r) A.r = B.r; if (B.t < A.t) A.t = B.t; if (B.b > A.b) A.b = B.b;
			if (B.gray == g) { // children of B now belong to A: remember the redirection in size field of the absorbed node
				B.flag = na; }
			uf[b] = a; }
	}
	// resolve redirections of absorbed nodes and compact
	int* map = (int*)malloc(sizeof(int) * t.n); int m = 0;
	for (int i = 0; i < t.n; ++i) map[i] = t.r[i].parent == -2 ? -1 : m++;
	for (int i = 0; i < t.n; ++i) { if (map[i] < 0) continue; BNode nd = t.r[i]; int p = nd.parent; while (p >= 0 && t.r[p].parent == -2) p = t.r[p].flag; nd.parent = p; nd.flag = 0; ord[map[i]] = i; if (p >= 0) nd.parent = p; t.r[i].parent = nd.parent; }
	BNode* q = (BNode*)malloc(sizeof(BNode) * (m > 0 ? m : 1)); for (int i = 0; i < t.n; ++i) if (map[i] >= 0) { q[map[i]] = t.r[i]; q[map[i]].flag = 0; if (t.r[i].parent >= 0) q[map[i]].parent = map[t.r[i].parent]; }
	free(t.r); t.r = q; t.n = m; free(uf); free(node); free(ord); free(seen); free(map);
}
static void big_select(BTree& t, const Par& p) {
	for (int i = 0; i < t.n; ++i) { BNode& r = t.r[i]; r.flag = 1;
		if (p.delta > 0) { int th = r.gray + p.delta; int k = i; while (t.r[k].parent >= 0 && t.r[t.r[k].parent].gray <= th) k = t.r[k].parent; r.var = (t.r[k].parent >= 0 || t.r[k].gray == th) ? (t.r[k].size - r.size) / (float)r.size : -1; if (r.var > p.stable) r.flag = 0; }
		if (r.size < p.minp || r.size > p.maxp || r.parent < 0) r.flag = 0;
	}
	if (p.delta > 0 && p.nms >= 0) {
		unsigned char* sup = (unsigned char*)calloc(t.n, 1);
		for (int i = 0; i < t.n; ++i) { int q = t.r[i].parent; if (q < 0 || t.r[q].gray != t.r[i].gray + 1 || !(t.r[i].var >= 0) || !(t.r[q].var >= 0)) continue; float d = t.r[q].var - t.r[i].var; if (d > p.nms) sup[q] = 1; else if (-d > p.nms) sup[i] = 1; }
		for (int i = 0; i < t.n; ++i) if (sup[i]) t.r[i].flag = 0; free(sup);
	}
}
struct Sig { int gray, size, l, t, w, h; u64v hash; };
static bool sig_eq(const Sig& a, const Sig& b) { return a.gray == b.gray && a.size == b.size && a.l == b.l && a.t == b.t && a.w == b.w && a.h == b.h && a.hash == b.hash; }
static bool sig_less(const Sig& a, const Sig& b) { if (a.hash != b.hash) return a.hash < b.hash; if (a.gray != b.gray) return a.gray < b.gray; if (a.size != b.size) return a.size < b.size; if (a.l != b.l) return a.l < b.l; if (a.t != b.t) return a.t < b.t; if (a.w != b.w) return a.w < b.w; return a.h < b.h; }
static void sig_sort(Sig* s, int n) { for (int gap = n / 2; gap > 0; gap = gap == 2 ? 1 : gap * 5 / 11) for (int i = gap; i < n; ++i) { Sig v = s[i]; int j = i; while (j >= gap && sig_less(v, s[j - gap])) { s[j] = s[j - gap]; j -= gap; } s[j] = v; } }
static u64v region_hash(const img_mser& s, vector<i32>* helper) {
	mt_mat b; img_mser_helper::image_from_mser(b, s, mt_size(0, 0), mt_scalar(0), mt_scalar(255), sys_true, helper);
	int W = s.m_rect.m_width, H = s.m_rect.m_height, eh = W > H ? (W - H) / 2 : 0, ew = H > W ? (H - W) / 2 : 0; u64v hs = 0;
	for (int r = 0; r < H; ++r) { const u8* q = b.ptr<u8>(r + eh, ew); for (int c = 0; c < W; ++c) if (q[c] == 0) hs += pxhash(c + s.m_rect.m_left, r + s.m_rect.m_top); }
	return hs;
}
static int big_read(const img_multi_msers& res, int ch, const BigImg& im, Sig*& out) {
	int n = (int)res.m_msers[ch].size(); out = (Sig*)malloc(sizeof(Sig) * (n + 1)); vector<i32> helper;
	for (int k = 0; k < n; ++k) { const img_mser& s = res.m_msers[ch][k]; Sig& g = out[k]; g.gray = s.m_gray_level; g.size = s.m_size; g.l = s.m_rect.m_left; g.t = s.m_rect.m_top; g.w = s.m_rect.m_width; g.h = s.m_rect.m_height;
		vp_assert(g.l >= 0 && g.t >= 0 && g.w > 0 && g.h > 0 && g.l + g.w <= im.w && g.t + g.h <= im.h, "the reported rectangle lies inside the image"); g.hash = region_hash(s, &helper); }
	sig_sort(out, n); return n;
}
