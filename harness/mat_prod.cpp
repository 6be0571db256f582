// Matrix product and convolution around Intel MKL: MKL itself is replaced by stand-ins that follow its documentation (and check its preconditions);
// what is decided is whether the layouts, leading dimensions, transpositions, offsets, strides and channels handed to it give the sums of products asked for.
#include "mat_layout.h"
#include "mat_util.h"
#include "mkl_stand.h"
static Lay filled(const char* nm, const char* par, int nd, const int* s, mt_Depth d, int ch, int mul, int add) { Lay l = make_layout(WARM ? 0 : pick_layout(nm, par), nd, s, d, ch); int es = DSIZE[d]; for (int i = 0; i < l.bytes / es; ++i) wr(l.data + i * es, d, (i * mul + add) % 31 - 9); return l; }
static double el(const Lay& l, mt_Depth d, int ch, int k, int c) { return rd(l.data + l.v.map[k * ch + c] * DSIZE[d], d); }
static u8 wa[8 * MAXN], wb[8 * MAXN], want[8 * MAXN];
static void product(mt_Depth d) {
	int mx = vp_param("MAX", 3), ch = vp_param("CH", 1), m = WARM ? 1 : 1 + vp_choose("rows", mx), k = WARM ? 1 : 1 + vp_choose("inner", mx), n = WARM ? 1 : 1 + vp_choose("columns", mx), es = DSIZE[d], sa[2] = { m, k }, sb[2] = { k, n }, sr[2] = { m, n };
	Lay a = filled("left", "LAYS", 2, sa, d, ch, 7, 3), b = filled("right", "LAYB", 2, sb, d, ch, 11, 5); memcpy(wa, a.data, a.bytes); memcpy(wb, b.data, b.bytes);
	for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int c = 0; c < ch; ++c) { double s = 0; for (int q = 0; q < k; ++q) s += el(a, d, ch, i * k + q, c) * el(b, d, ch, q * n + j, c); wr(want + ((i * n + j) * ch + c) * es, d, s); }
	mt_mat r = a.m.mul(b.m); result_is(r, 2, sr, d, ch, want, "each element is the sum of products of its row and column"); vp_assert(!r.is_memory_shared(a.m) && !r.is_memory_shared(b.m), "a product has memory of its own");
	vp_assert(diff(a.data, wa, a.bytes) == 0 && diff(b.data, wb, b.bytes) == 0, "a product leaves its operands unchanged"); vp_reach("product");
}
static void convolution(mt_Depth d) {
	int nd = vp_param("ND", 2), mx = vp_param("MAX", 3), kx = vp_param("KMAX", 2), ch = vp_param("CH", 1), kc = vp_param("KCH", 1), es = DSIZE[d], al = WARM ? 0 : vp_choose("alignment", vp_param("ALIGN", 4)), bt = WARM ? 0 : vp_choose("boundary", 3), s[MAXD], ks[MAXD], rs[MAXD], st[MAXD], start[MAXD];
	bool given = !WARM && vp_choose("strides", 2); static const mt_Conv_Boundary_Type BT[3] = { mt_Conv_Boundary_Type_Valid, mt_Conv_Boundary_Type_Full, mt_Conv_Boundary_Type_Same }; static const mt_Conv_Kernel_Align_Type AL[4] = { mt_Conv_Kernel_Align_Type_Row, mt_Conv_Kernel_Align_Type_Col, mt_Conv_Kernel_Align_Type_Cross_Row, mt_Conv_Kernel_Align_Type_Cross_Col };
	for (int i = 0; i < nd; ++i) { s[i] = WARM ? 1 : 1 + vp_choose("size", mx); ks[i] = WARM ? 1 : 1 + vp_choose("kernel", bt == 0 && s[i] < kx ? s[i] : kx); st[i] = given ? 1 + vp_choose("stride", 2) : 1; int f = bt == 0 ? s[i] - ks[i] + 1 : bt == 1 ? s[i] + ks[i] - 1 : s[i]; rs[i] = (f + st[i] - 1) / st[i]; start[i] = bt == 0 ? ks[i] - 1 : bt == 1 ? 0 : ks[i] / 2; }
	int kch = al < 2 ? ch * kc : kc, rc = al < 2 ? kc : ch * kc, rn = 1, kn = 1; for (int i = 0; i < nd; ++i) { rn *= rs[i]; kn *= ks[i]; }
	Lay a = filled("source", "LAYS", nd, s, d, ch, 7, 3), b = filled("kernel", "LAYB", nd, ks, d, kch, 11, 5); memcpy(wa, a.data, a.bytes); memcpy(wb, b.data, b.bytes);
	for (int p = 0; p < rn; ++p) { int x[MAXD], q = p; for (int i = nd - 1; i >= 0; --i) { x[i] = q % rs[i] * st[i] + start[i]; q /= rs[i]; }
		for (int o = 0; o < rc; ++o) { double sum = 0; for (int c = 0; c < ch; ++c) { int kk; if (al == 0) kk = c * kc + o; else if (al == 1) kk = o * ch + c; else if (al == 2) { if (c != o / kc) continue; kk = o % kc; } else { if (c != o % ch) continue; kk = o / ch; }
				for (int w = 0; w < kn; ++w) { int so = 0; bool in = true; int y[MAXD]; q = w; for (int i = nd - 1; i >= 0; --i) { y[i] = q % ks[i]; q /= ks[i]; } for (int i = 0; i < nd; ++i) { int xi = x[i] - y[i]; if (xi < 0 || xi >= s[i]) in = false; so = so * s[i] + xi; } if (in) sum += el(a, d, ch, so, c) * el(b, d, kch, w, kk); } }
			wr(want + (p * rc + o) * es, d, sum); } }
	int t = WARM ? 0 : vp_choose("target", vp_param("TARGETS", 4)); mt_mat r; const int* sp = given ? st : NULL;
	if (t == 0) r = a.m.conv(b.m, BT[bt], AL[al], sp); else if (t == 1) { r = mt_mat(nd, rs, mt_Depth_Channel(d, rc)); r.set(99); a.m.conv(r, b.m, BT[bt], AL[al], sp); } else if (t == 2) { mt_mat x = a.m; x.conv(x, b.m, BT[bt], AL[al], sp); r = x; } else { mt_mat x = b.m; a.m.conv(x, x, BT[bt], AL[al], sp); r = x; }
	result_is(r, nd, rs, d, rc, want, "each element is the sum of products of the turned kernel and its window"); int g[MAXD]; mt_mat_helper::get_conv_result_size(nd, g, s, ks, sp, BT[bt]); bool ok = true; for (int i = 0; i < nd; ++i) ok = ok && g[i] == rs[i]; vp_assert(ok, "the size of a convolution is predicted");
	vp_assert(diff(a.data, wa, a.bytes) == 0 && diff(b.data, wb, b.bytes) == 0, "a convolution leaves its operands unchanged"); vp_assert(TASKS == 0, "convolution tasks are released"); vp_reach("product");
}
extern "C" void vp_main() {
	mt_Depth d = vp_param("F64", 0) ? mt_F64 : mt_F32; int mode = vp_param("MODE", 0);
	WARM = true; if (mode == 0) product(d); else convolution(d); WARM = false; long long h = vp_heap_bytes(); if (mode == 0) product(d); else convolution(d);
	vp_assert(vp_heap_bytes() == h, "all memory is released");
}
