// Shared by the mt_mat harnesses: an independent model of a view (which scalar of the base every (index, channel) denotes) and a generator of view chains.
#pragma once
#include "vp.h"
#include "stdafx.h"
#include <stdlib.h>
#include <string.h>
using namespace basicsys;
using namespace basicmath;
enum { MAXD = 8, MAXN = 480 };
struct View { int nd, sz[MAXD], ch, n; int map[MAXN]; };   // map[k * ch + c]: scalar index in the base of channel c of the k-th element in row-major order
static int vcount(const View& v) { int n = 1; for (int i = 0; i < v.nd; ++i) n *= v.sz[i]; return n; }
static void vunlin(const View& v, int k, int* idx) { for (int i = v.nd - 1; i >= 0; --i) { idx[i] = k % v.sz[i]; k /= v.sz[i]; } }
static int vlin(const View& v, const int* idx) { int k = 0; for (int i = 0; i < v.nd; ++i) k = k * v.sz[i] + idx[i]; return k; }
static View vbase(int nd, const int* sz, int ch) { View v; v.nd = nd; v.ch = ch; for (int i = 0; i < nd; ++i) v.sz[i] = sz[i]; v.n = vcount(v); vp_assert(v.n * ch <= MAXN, "harness bound"); for (int i = 0; i < v.n * ch; ++i) v.map[i] = i; return v; }
// new view whose element k has the coordinates given by f in the old view
static View vsub(const View& v, const int* start, const int* size) { View r; r.nd = v.nd; r.ch = v.ch; for (int i = 0; i < v.nd; ++i) r.sz[i] = size[i]; r.n = vcount(r); for (int k = 0; k < r.n; ++k) { int a[MAXD]; vunlin(r, k, a); for (int i = 0; i < v.nd; ++i) a[i] += start[i]; int o = vlin(v, a); for (int c = 0; c < v.ch; ++c) r.map[k * r.ch + c] = v.map[o * v.ch + c]; } return r; }
static View vsub1(const View& v, int dim, int s, int e) { int st[MAXD], sz[MAXD]; for (int i = 0; i < v.nd; ++i) { st[i] = 0; sz[i] = v.sz[i]; } st[dim] = s; sz[dim] = e - s; return vsub(v, st, sz); }
static View vflip(const View& v, const bool* fl) { View r = v; for (int k = 0; k < r.n; ++k) { int a[MAXD]; vunlin(r, k, a); for (int i = 0; i < v.nd; ++i) if (fl[i]) a[i] = v.sz[i] - 1 - a[i]; int o = vlin(v, a); for (int c = 0; c < v.ch; ++c) r.map[k * r.ch + c] = v.map[o * v.ch + c]; } return r; }
static View vswap(const View& v, int p, int q) { View r = v; r.sz[p] = v.sz[q]; r.sz[q] = v.sz[p]; for (int k = 0; k < r.n; ++k) { int a[MAXD]; vunlin(r, k, a); int t = a[p]; a[p] = a[q]; a[q] = t; int o = vlin(v, a); for (int c = 0; c < v.ch; ++c) r.map[k * r.ch + c] = v.map[o * v.ch + c]; } return r; }
static View vchan(const View& v, int s, int e) { View r = v; r.ch = e - s; for (int k = 0; k < v.n; ++k) for (int c = s; c < e; ++c) r.map[k * r.ch + c - s] = v.map[k * v.ch + c]; return r; }
static View vshape(const View& v, int nd, const int* sz, int ch) { View r = v; r.nd = nd; r.ch = ch; for (int i = 0; i < nd; ++i) r.sz[i] = sz[i]; r.n = vcount(r); return r; }   // row-major order of all scalars is kept
static View vstride(const View& v, const int* s) { View r = v; for (int i = 0; i < v.nd; ++i) r.sz[i] = (v.sz[i] + s[i] - 1) / s[i]; r.n = vcount(r); for (int k = 0; k < r.n; ++k) { int a[MAXD]; vunlin(r, k, a); for (int i = 0; i < v.nd; ++i) a[i] *= s[i]; int o = vlin(v, a); for (int c = 0; c < v.ch; ++c) r.map[k * r.ch + c] = v.map[o * v.ch + c]; } return r; }
static int esize(const mt_mat& m) { return m.element_channel_size(); }
static bool same_bytes(const u8* a, const u8* b, int n) { int x = 0; for (int i = 0; i < n; ++i) x |= a[i] ^ b[i]; return x == 0; }
// the content of every scalar of m equals the model's scalar in base data
static bool content_ok(const mt_mat& m, const View& v, const u8* base) {
	if (m.dim() != v.nd || m.channel() != v.ch) return false;
	for (int i = 0; i < v.nd; ++i) if (m.size()[i] != v.sz[i]) return false;
	int es = esize(m), x = 0;
	for (int k = 0; k < v.n; ++k) { int a[MAXD]; vunlin(v, k, a); const u8* p = m.data(); for (int i = 0; i < v.nd; ++i) p += a[i] * m.step()[i]; for (int c = 0; c < v.ch; ++c) for (int b = 0; b < es; ++b) x |= p[c * es + b] ^ base[v.map[k * v.ch + c] * es + b]; }
	return x == 0;
}
static bool address_ok(const mt_mat& m, const View& v, const u8* base) {
	int es = esize(m);
	for (int k = 0; k < v.n; ++k) { int a[MAXD]; vunlin(v, k, a); const u8* p = m.data(); for (int i = 0; i < v.nd; ++i) p += a[i] * m.step()[i]; for (int c = 0; c < v.ch; ++c) if (p + c * es != base + v.map[k * v.ch + c] * es) return false; }
	return true;
}
static mt_Depth pick_depth(int k) { static const mt_Depth D[10] = { mt_U8, mt_I8, mt_U16, mt_I16, mt_U32, mt_I32, mt_U64, mt_I64, mt_F32, mt_F64 }; return D[k]; }
static const int BASES[][MAXD + 1] = { { 1, 3 }, { 2, 2, 3 }, { 2, 3, 2 }, { 3, 2, 2, 3 }, { 4, 2, 1, 2, 2 }, { 5, 2, 1, 2, 1, 2 }, { 5, 1, 2, 2, 2, 2 }, { 2, 4, 3 }, { 3, 2, 3, 2 }, { 6, 2, 1, 2, 1, 1, 2 }, { 2, 3, 4 }, { 1, 5 }, { 3, 3, 2, 2 }, { 4, 2, 2, 2, 2 }, { 2, 2, 2 } };
static mt_mat make_base(int b, mt_Depth d, int ch, View& v) { int nd = BASES[b][0]; v = vbase(nd, BASES[b] + 1, ch); mt_mat m(nd, BASES[b] + 1, mt_Depth_Channel(d, ch)); return m; }
// one view operation on (m, v); returns false when the operation does not apply.  own: the result may live in new memory (then the caller re-bases the model)
enum { OP_SUB, OP_INDEX, OP_FRONT, OP_BACK, OP_RANGES, OP_RECT, OP_FLIP, OP_FLIPS, OP_SWAP, OP_CHANNEL, OP_INCDIM, OP_DECDIM, OP_SPLIT, OP_COMBINE, OP_RESHAPE, OP_RESHAPE_CH, OP_CHDIM, OP_DIMCH, OP_STRIDE, OP_COPY, OP_COUNT };
static int choose_range(int n, int& s, int& e, const char* nm) { int k = vp_choose(nm, n * (n + 1) / 2); for (s = 0; s < n; ++s) for (e = s + 1; e <= n; ++e) if (k-- == 0) return 1; return 0; }
static bool apply_op(int op, mt_mat& m, View& v, bool full) {
	int dim = 0, s, e; mt_mat r; View w;
	switch (op) {
	case OP_SUB: dim = vp_choose("dim", v.nd); choose_range(v.sz[dim], s, e, "range"); w = vsub1(v, dim, s, e);
		switch (full ? vp_choose("form", 4) : 0) { case 0: r = m.sub(s, e, dim); break; case 1: r = m.sub(mt_range(s, e), dim); break; case 2: r = mt_mat(m, mt_range(s, e), dim); break; default: if (e != v.sz[dim]) return false; r = m.sub(mt_range(s, -1), dim); break; } break;
	case OP_INDEX: dim = vp_choose("dim", v.nd); s = vp_choose("index", v.sz[dim]); w = vsub1(v, dim, s, s + 1);
		if (v.nd == 2 && full && vp_choose("rowcol", 2)) r = dim == 0 ? m.row(s) : m.col(s); else if (v.nd == 3 && dim == 0 && full && vp_choose("plane", 2)) r = m.plane(s); else r = m.index(s, dim); break;
	case OP_FRONT: dim = vp_choose("dim", v.nd); e = 1 + vp_choose("number", v.sz[dim]); w = vsub1(v, dim, 0, e); r = m.front(e, dim); break;
	case OP_BACK: dim = vp_choose("dim", v.nd); e = 1 + vp_choose("number", v.sz[dim]); w = vsub1(v, dim, v.sz[dim] - e, v.sz[dim]); r = m.back(e, dim); break;
	case OP_RANGES: { mt_range g[MAXD]; int st[MAXD], sz[MAXD]; int lim = full ? v.nd : 2; for (int i = 0; i < v.nd; ++i) { if (i < lim) choose_range(v.sz[i], s, e, "range"); else s = 0, e = v.sz[i]; g[i] = mt_range(s, full && e == v.sz[i] && (i & 1) ? -1 : e); st[i] = s; sz[i] = e - s; } w = vsub(v, st, sz);
		vector<mt_range> gv(g, g + v.nd); switch (full ? vp_choose("form", 3) : 0) { case 0: r = m.sub(v.nd, g); break; case 1: r = m.sub(gv); break; default: r = mt_mat(m, gv); break; } break; }
	case OP_RECT: { if (v.nd != 2) return false; int st[2], sz[2]; choose_range(v.sz[0], s, e, "rows"); st[0] = s; sz[0] = e - s; choose_range(v.sz[1], s, e, "cols"); st[1] = s; sz[1] = e - s; w = vsub(v, st, sz); mt_rect q(st[1], st[0], sz[1], sz[0]); r = full && vp_choose("form", 2) ? mt_mat(m, q) : m.sub(q); break; }
	case OP_FLIP: { dim = vp_choose("dim", v.nd); bool f[MAXD] = { 0 }; f[dim] = true; w = vflip(v, f); r = m.flip(dim); break; }
	case OP_FLIPS: { int mask = vp_choose("mask", 1 << (v.nd > 3 ? 3 : v.nd)); if (v.nd > 3 && (mask & 1)) mask |= 1 << (v.nd - 1); bool f[MAXD]; b8 fb[MAXD]; vector<b8> fv; vector<int> dv; for (int i = 0; i < v.nd; ++i) { f[i] = mask >> i & 1; fb[i] = f[i]; fv.push_back(fb[i]); if (f[i]) dv.push_back(i); } w = vflip(v, f);
		int form = full ? vp_choose("form", 5) : 0; if (form == 1) r = m.flip(fv); else if (form == 2 || form == 3) { if (dv.empty()) return false; for (size_t i = 0; i + 1 < dv.size(); ++i) swap(dv[i], dv[dv.size() - 1 - i]); if (form == 2) r = m.flip((int)dv.size(), &dv[0]); else r = m.flip(dv); } else if (form == 4) { if (mask != (1 << v.nd) - 1) return false; r = m.flip_all_dim(); } else r = m.flip(v.nd, fb); break; }
	case OP_SWAP: { int p = vp_choose("dim", v.nd), q = vp_choose("dim2", v.nd); w = vswap(v, p, q); if (v.nd == 2 && p == 0 && q == 1) r = m.t(); else r = m.swap_dim(p, q); break; }
	case OP_CHANNEL: { choose_range(v.ch, s, e, "channels"); w = vchan(v, s, e); if (e == s + 1 && full && vp_choose("form", 2)) { vector<mt_mat> all; if (vp_choose("all", 2)) { m.all_channel(all); vp_assert((int)all.size() == v.ch, "all_channel returns every channel"); r = all[s]; } else r = m.channel_at(s); } else r = m.sub_channel(s, e); break; }
	case OP_INCDIM: { if (v.nd + 1 > MAXD) return false; dim = vp_choose("dim", v.nd + 1); int sz[MAXD]; for (int i = 0; i < v.nd + 1; ++i) sz[i] = i < dim ? v.sz[i] : i == dim ? 1 : v.sz[i - 1]; w = vshape(v, v.nd + 1, sz, v.ch); r = m.increase_dim(dim); break; }
	case OP_DECDIM: { if (v.nd < 2) return false; dim = vp_choose("dim", v.nd); if (v.sz[dim] != 1) return false; int sz[MAXD], k = 0; for (int i = 0; i < v.nd; ++i) if (i != dim) sz[k++] = v.sz[i]; w = vshape(v, v.nd - 1, sz, v.ch); r = m.decrease_dim(dim); break; }
	case OP_SPLIT: { if (v.nd + 2 > MAXD) return false; dim = vp_choose("dim", v.nd); int f = 1 + vp_choose("factor", v.sz[dim]); if (v.sz[dim] % f) return false; int sp[3] = { f, v.sz[dim] / f, 1 }, k = 2; if (full && vp_choose("three", 2)) { sp[2] = sp[1]; sp[1] = 1; k = 3; } int sz[MAXD]; for (int i = 0; i < dim; ++i) sz[i] = v.sz[i]; for (int i = 0; i < k; ++i) sz[dim + i] = sp[i]; for (int i = dim + 1; i < v.nd; ++i) sz[i + k - 1] = v.sz[i]; w = vshape(v, v.nd + k - 1, sz, v.ch); r = m.split_dim(dim, k, sp); break; }
	case OP_COMBINE: { if (v.nd < 2) return false; dim = vp_choose("dim", v.nd); int cnt = 1 + vp_choose("count", v.nd); if (dim + cnt > v.nd) return false; int sz[MAXD], p = 1; for (int i = 0; i < cnt; ++i) p *= v.sz[dim + i]; for (int i = 0; i < dim; ++i) sz[i] = v.sz[i]; sz[dim] = p; for (int i = dim + cnt; i < v.nd; ++i) sz[i - cnt + 1] = v.sz[i]; w = vshape(v, v.nd - cnt + 1, sz, v.ch); r = m.combine_dim(dim, cnt); break; }
	case OP_RESHAPE: { if (!m.is_continuous()) return false; int total = v.n * v.ch; int ch = v.ch; bool given = full && vp_choose("channel_given", 2); if (given) { ch = 1 + vp_choose("new_channel", total > 6 ? 6 : total); if (total % ch) return false; } int n = total / ch; int a = 1 + vp_choose("rows", n); if (n % a) return false; int sz[MAXD] = { a, n / a, 1, 1, 1 }; int form = vp_choose("form", full ? 4 : 2);
		if (form == 0) { w = vshape(v, 2, sz, ch); r = given ? m.reshape_2d(a, n / a, ch) : m.reshape_2d(a, n / a); } else if (form == 1) { int z[5] = { a, 1, n / a, 1, 1 }; w = vshape(v, 5, z, ch); r = m.reshape(5, z, given ? ch : -1); } else if (form == 2) { int z[3] = { 1, a, n / a }; w = vshape(v, 3, z, ch); r = m.reshape_3d(1, a, n / a, given ? ch : -1); } else { int z[1] = { n }; if (a != 1) return false; w = vshape(v, 1, z, ch); vector<int> zv(z, z + 1); r = m.reshape(zv, given ? ch : -1); } break; }
	case OP_RESHAPE_CH: { if (!m.is_continuous()) return false; int last = v.sz[v.nd - 1]; int ch = 1 + vp_choose("new_channel", last * v.ch); if ((last * v.ch) % ch || (v.ch % ch && ch % v.ch)) return false; int sz[MAXD]; for (int i = 0; i < v.nd; ++i) sz[i] = v.sz[i]; sz[v.nd - 1] = last * v.ch / ch; w = vshape(v, v.nd, sz, ch); r = m.reshape_channel(ch); break; }
	case OP_CHDIM: { if (v.nd + 1 > MAXD) return false; int sz[MAXD]; for (int i = 0; i < v.nd; ++i) sz[i] = v.sz[i]; sz[v.nd] = v.ch; w = vshape(v, v.nd + 1, sz, 1); r = m.channel_as_last_dim(); break; }
	case OP_DIMCH: { if (v.nd < 2 || v.ch != 1 || m.step()[v.nd - 1] != esize(m)) return false; w = vshape(v, v.nd - 1, v.sz, v.sz[v.nd - 1]); r = m.last_dim_as_channel(); break; }
	case OP_STRIDE: { int st[MAXD]; for (int i = 0; i < v.nd; ++i) st[i] = i < 3 ? 1 + vp_choose("stride", v.sz[i] < 3 ? v.sz[i] : 3) : v.sz[i]; w = vstride(v, st); r = m.sub_stride(v.nd, st); break; }
	case OP_COPY: { w = v; switch (vp_choose("form", 3)) { case 0: r = m; break; case 1: { mt_mat c(m); r = c; break; } default: { int z[5] = { 1, 1, 1, 1, 1 }; mt_mat c(5, z, mt_Depth_Channel(mt_U8, 1)); c = m; c = c; r = c; break; } } break; }
	default: return false;
	}
	m = r; v = w; return true;
}
