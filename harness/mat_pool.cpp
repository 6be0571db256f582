// Pooling and unpooling: every window, mask and accumulated value against an independent model.
#include "mat_layout.h"
#include "mat_util.h"
// number of windows along a dimension of n elements: one starts at 0, s, 2s, ... inside the mat until a window reaches the end
static int windows(int n, int k, int s) { int c = 0; for (int p = 0; p < n; p += s) { ++c; if (p + k >= n) break; } return c; }
template <class T> static void max_(u8* r, const u8* x, bool first, int type, int idx, i32* mask) { T a = *(const T*)x, b = *(T*)r; bool take = first || (type == mt_Pooling_Type_Max ? a > b : a < b); *(T*)r = take ? a : b; *mask = take ? idx : *mask; }
template <class T> static void acc(u8* r, const u8* x) { T s = (T)(*(T*)r + *(const T*)x); *(T*)r = s; }
template <class T> static void fits(const u8* r, const u8* x) { T a = *(const T*)r, b = *(const T*)x, s = (T)(a + b); if ((T)-1 > (T)0) vp_assume(s >= a); else vp_assume((b >= 0) == (s >= a)); }
template <> void fits<f32>(const u8*, const u8*) {}
template <> void fits<f64>(const u8*, const u8*) {}
template <class T> static void div_(u8* r, int n) { T x = *(T*)r; x /= n; *(T*)r = x; }
template <class T> static void share(u8* r, const u8* x, int n) { T y = *(const T*)x / n; *(T*)r = y; }
static u8 want[8 * MAXN], wa[8 * MAXN], wm[4 * MAXN]; static i32 wk[MAXN];
static void body(int mode, int shape, int ch, mt_Depth d) {
	const int* s = SHAPES[shape] + 1; int nd = SHAPES[shape][0], es = DSIZE[d], k[MAXD], st[MAXD], rs[MAXD], kmax = vp_param("KMAX", 3), rn = 1;
	for (int i = 0; i < nd; ++i) { bool one = s[i] == 1; k[i] = WARM ? 1 : 1 + vp_choose("kernel", one ? 1 : s[i] < kmax ? s[i] + 1 : kmax); st[i] = WARM ? 1 : 1 + vp_choose("stride", one ? 1 : s[i] < 3 ? s[i] : 3); rs[i] = windows(s[i], k[i], st[i]); rn *= rs[i]; }
	int type = mt_Pooling_Type_Max; if (!WARM) { int types = vp_param("TYPES", 63), set[6], tc = 0; for (int i = 0; i < 6; ++i) if (types >> i & 1) set[tc++] = i; type = set[vp_choose("type", tc)]; } if (mode == 1 && type == mt_Pooling_Type_Sum) vp_end(); bool hasmask = type == mt_Pooling_Type_Max || type == mt_Pooling_Type_Min || type == mt_Pooling_Type_Index; bool uses = mode == 1 ? hasmask : type == mt_Pooling_Type_Index;
	vector<i32> kv(k, k + nd), sv(st, st + nd); int form = WARM ? 0 : vp_choose("form", 2);
	const int* as = mode == 0 ? s : rs; Lay a = lay("a", "LAYS", nd, as, d, ch); int n = a.v.n; memcpy(wa, a.data, a.bytes); if (!is_int(d)) for (int i = 0; i < a.bytes; i += es) { double x = rd(wa + i, d); vp_assume(x == x); }
	int sn = 1; for (int i = 0; i < nd; ++i) sn *= s[i];
	Lay mk; if (uses) { int l = WARM ? 0 : pick_layout("mask_layout", "LAYM"); mk = make_layout(l, nd, rs, mt_I32, ch); int off = WARM ? 0 : vp_choose("mask_offset", sn < 4 ? sn : 4); for (int i = 0; i < mk.bytes / 4; ++i) ((i32*)mk.data)[i] = -1; for (int i = 0; i < rn; ++i) for (int c = 0; c < ch; ++c) ((i32*)mk.data)[mk.v.map[i * ch + c]] = wk[i * ch + c] = (i * 5 + c * 3 + off) % sn; memcpy(wm, mk.data, mk.bytes); }
	memset(want, 0, sizeof want); int wn = mode == 0 ? rn : sn;
	for (int r = 0; r < rn; ++r) { int x[MAXD], lo[MAXD], hi[MAXD], q = r, cnt = 1; for (int i = nd - 1; i >= 0; --i) { x[i] = q % rs[i]; q /= rs[i]; lo[i] = x[i] * st[i]; hi[i] = lo[i] + k[i] < s[i] ? lo[i] + k[i] : s[i]; cnt *= hi[i] - lo[i]; }
		for (int c = 0; c < ch; ++c) for (int w = 0; w < cnt; ++w) { int y[MAXD], t = w, o = 0, mul = 1; for (int i = nd - 1; i >= 0; --i) { y[i] = lo[i] + t % (hi[i] - lo[i]); t /= hi[i] - lo[i]; o += y[i] * mul; mul *= s[i]; }
			if (type == mt_Pooling_Type_First_Value && w) continue; if (uses) { if (w) continue; o = wk[r * ch + c]; }
			if (mode == 0) { u8* to = want + (r * ch + c) * es; const u8* from = wa + a.v.map[o * ch + c] * es;
				if (type == mt_Pooling_Type_Max || type == mt_Pooling_Type_Min) { FOR_DEPTH(d, max_, to, from, w == 0, type, o, &wk[r * ch + c]) } else if (type == mt_Pooling_Type_Sum || type == mt_Pooling_Type_Mean) { if (!WARM) { FOR_DEPTH(d, fits, to, from) } FOR_DEPTH(d, acc, to, from) if (w == cnt - 1 && type == mt_Pooling_Type_Mean) { FOR_DEPTH(d, div_, to, cnt) } } else memcpy(to, from, es);
			} else { u8* to = want + (o * ch + c) * es; u8 part[8]; const u8* from = wa + a.v.map[r * ch + c] * es; if (type == mt_Pooling_Type_Mean) { FOR_DEPTH(d, share, part, from, cnt) from = part; } FOR_DEPTH(d, acc, to, from) } } }
	if (mode == 0) { mt_mat mask = mk.m, r; bool give = type == mt_Pooling_Type_Index || WARM || vp_choose("mask_wanted", 2);
		if (give) r = form ? a.m.pooling(mask, (mt_Pooling_Type)type, kv, sv) : a.m.pooling(mask, (mt_Pooling_Type)type, nd, k, st); else r = form ? a.m.pooling((mt_Pooling_Type)type, kv, sv) : a.m.pooling((mt_Pooling_Type)type, nd, k, st);
		result_is(r, nd, rs, d, ch, want, "each pooled element is the documented function of its window"); vp_assert(!r.is_memory_shared(a.m), "a pooling result has memory of its own");
		if (give && (type == mt_Pooling_Type_Max || type == mt_Pooling_Type_Min)) result_is(mask, nd, rs, mt_I32, ch, (u8*)wk, "the mask holds the index of the first extreme element of each window and channel");
		if (give && type == mt_Pooling_Type_Index) vp_assert(mask.data() == mk.m.data(), "index pooling keeps the mask it is given");
		int z[MAXD]; mt_mat_helper::get_pooling_result_size(nd, z, s, k, st); bool ok = true; for (int i = 0; i < nd; ++i) ok = ok && z[i] == rs[i] && mt_mat_helper::get_pooling_result_size(s[i], k[i], st[i]) == rs[i]; vp_assert(ok, "the pooling result size counts the windows up to the first that reaches the end");
	} else { mt_mat mask; if (hasmask) mask = mk.m; mt_mat r = form ? a.m.unpooling(s, mask, (mt_Pooling_Type)type, kv, sv) : a.m.unpooling(s, mask, (mt_Pooling_Type)type, nd, k, st);
		result_is(r, nd, s, d, ch, want, "unpooling adds each element to the source elements its window stands for"); vp_assert(!r.is_memory_shared(a.m), "a pooling result has memory of its own"); }
	vp_assert(diff(a.data, wa, a.bytes) == 0 && (!uses || diff(mk.data, wm, mk.bytes) == 0), "pooling leaves its operands unchanged"); (void)n; (void)wn;
}
extern "C" void vp_main() {
	int mode = vp_param("MODE", 0), ch = vp_param("CH", 1), D = vp_param("D", 0), shape = pick_shape();
	mt_Depth d = pick_depth(D < 0 ? vp_choose("depth", 10) : D);
	WARM = true; body(mode, shape, ch, d); WARM = false;
	size_t h = vp_heap_bytes(); body(mode, shape, ch, d); vp_assert(vp_heap_bytes() == h, "pooling releases the memory it used");
	vp_reach("pooling checked");
}
