// Reductions, activation functions, losses, and lists of mats (merge, add, dot, clone).
#include <math.h>
#include <float.h>
#include "mat_layout.h"
#include "mat_util.h"
using namespace std;
static u8 want[8 * MAXN], wa[8 * MAXN], wb[8 * MAXN];
static int LX[3] = { 0, 1, 2 };
// fold the count values idx[0..count) (offsets into wa) the way Reduce_Type t is documented
template <class T> static void fold(u8* out, const int* idx, int count, int t) {
	T r = 0, m = 0; const T* a = (const T*)wa;
	if (t >= 4) { for (int i = 0; i < count; ++i) m += a[idx[i]]; m = m / (T)count; }
	if (t == 2 || t == 3) r = a[idx[0]];
	for (int i = 0; i < count; ++i) { T x = a[idx[i]]; switch (t) { case 0: case 1: { T z = (T)(r + x); if ((T)0.5 == 0 && !WARM) { if ((T)-1 > (T)0) vp_assume(z >= r); else vp_assume((x >= 0) == (z >= r)); } r = z; break; } case 2: if (x > r) r = x; break; case 3: if (x < r) r = x; break; default: r += (x - m) * (x - m); break; } }
	if (t == 1 || t == 4 || t == 6) r = (T)(r / (T)count); if (t == 5 || t == 7) r = (T)(r / (T)(count - 1));
	*(T*)out = r;
	if (t >= 6) { if (sizeof(T) == 4) *(f32*)out = powf(*(f32*)out, 0.5f); else *(f64*)out = ::pow(*(f64*)out, 0.5); }
}
static void reduce_(int shape, int ch, mt_Depth d) {
	const int* s = SHAPES[shape] + 1; int nd = SHAPES[shape][0], es = DSIZE[d], rs[MAXD], out_ch = ch;
	Lay a = lay("a", "LAYS", nd, s, d, ch); int n = a.v.n; memcpy(wa, a.data, a.bytes);
	int t = 0; if (!WARM) { int types = vp_param("TYPES", is_int(d) ? 15 : 255), set[8], tc = 0; for (int i = 0; i < 8; ++i) if (types >> i & 1) set[tc++] = i; t = set[vp_choose("type", tc)]; }
	int dim = (WARM ? 0 : vp_choose("dim", nd + 2)) - 2; if (!is_int(d)) for (int i = 0; i < a.bytes; i += es) { double x = rd(wa + i, d); vp_assume(x == x); }
	if (dim == -2) out_ch = 1; int rn = 1; for (int i = 0; i < nd; ++i) { rs[i] = dim == -1 || dim == i ? 1 : s[i]; rn *= rs[i]; } if (WARM) t = is_int(d) ? 1 : 6;
	int cnt = dim == -2 ? ch : n / rn; if ((t == 5 || t == 7) && cnt < 2 && !WARM) vp_end();
	for (int r = 0; r < rn; ++r) for (int c = 0; c < out_ch; ++c) { int idx[MAXN], k = 0; for (int e = 0; e < n; ++e) { int q = e, p = 0, mul = 1; for (int i = nd - 1; i >= 0; --i) { int x = q % s[i]; q /= s[i]; if (rs[i] != 1) { p += x * mul; } mul *= rs[i]; } if (p != r) continue; for (int z = 0; z < ch; ++z) if (dim == -2 || z == c) idx[k++] = a.v.map[e * ch + z]; } FOR_DEPTH(d, fold, want + (r * out_ch + c) * es, idx, k, t) }
	mt_mat r = dim == -1 && t == 0 && !WARM ? a.m.reduce(mt_mat::Reduce_Type_Sum) : a.m.reduce((mt_mat::Reduce_Type)t, dim);
	result_is(r, nd, rs, d, out_ch, want, "a reduction folds exactly the elements that share the remaining indexes"); vp_assert(!r.is_memory_shared(a.m), "a result has memory of its own"); vp_assert(diff(a.data, wa, a.bytes) == 0, "the operands stay unchanged");
}
template <class T> static void act(u8* o, const u8* i, int t, double p, double q) { T x = *(const T*)i; T* r = (T*)o; switch (t) { case mt_Activate_Type_Sigmoid: *r = (T)(1.0 / (1.0 + exp(-x))); break; case mt_Activate_Type_Linear: *r = x; break; case mt_Activate_Type_Tanh: *r = (T)p * tanh((T)q * x); break; default: *r = x > 0 ? x : (T)(x * p); break; } }
template <class T> static void soft(const int* idx, int n, int at0) { const T* a = (const T*)wa; T* w = (T*)want + at0, m = a[idx[0]], sum = (T)0.0; for (int i = 1; i < n; ++i) if (a[idx[i]] > m) m = a[idx[i]]; for (int i = 0; i < n; ++i) { w[i] = exp(a[idx[i]] - m); sum += w[i]; } for (int i = 0; i < n; ++i) w[i] /= sum; }
static void activate_(int shape, int ch, mt_Depth d) {
	const int* s = SHAPES[shape] + 1; int nd = SHAPES[shape][0], es = DSIZE[d]; Lay a = lay("a", "LAYS", nd, s, d, ch); int n = a.v.n; memcpy(wa, a.data, a.bytes); for (int i = 0; i < a.bytes; i += es) { double x = rd(wa + i, d); vp_assume(x == x); }
	int t = WARM ? 0 : vp_choose("type", 5), self = WARM ? 0 : vp_choose("self", 2), form = WARM ? 0 : vp_choose("form", 2), given = 0; f64 pr[2] = { 0, 0 };
	if (t == mt_Activate_Type_Softmax && (nd != 2 || ch != 1)) vp_end();
	if (t == mt_Activate_Type_Relu) { given = vp_choose("parameters", 2); if (given) pr[0] = vp_f64("slope"); vp_assume(pr[0] == pr[0]); } else if (t == mt_Activate_Type_Tanh) { given = 2 * vp_choose("parameters", 2); pr[0] = given ? vp_f64("alpha") : mt_Tanh_Default_Alpha; pr[1] = given ? vp_f64("beta") : mt_Tanh_Default_Beta; vp_assume((pr[0] == pr[0]) & (pr[1] == pr[1])); }
	if (t == mt_Activate_Type_Softmax) for (int r = 0; r < s[0]; ++r) { int idx[MAXN]; for (int c = 0; c < s[1]; ++c) idx[c] = a.v.map[r * s[1] + c]; if (d == mt_F32) soft<f32>(idx, s[1], r * s[1]); else soft<f64>(idx, s[1], r * s[1]); }
	else for (int k = 0; k < n * ch; ++k) if (d == mt_F32) act<f32>(want + k * es, wa + a.v.map[k] * es, t, pr[0], pr[1]); else act<f64>(want + k * es, wa + a.v.map[k] * es, t, pr[0], pr[1]);
	mt_Activate_Type ty = (mt_Activate_Type)t; vector<f64> pv(pr, pr + given);
	if (!self) { mt_mat r = form == 0 ? (given ? a.m.activate(ty, pv) : a.m.activate(ty)) : a.m.activate(ty, given, given ? pr : NULL); result_is(r, nd, s, d, ch, want, "an activation function is applied to each element"); vp_assert(!r.is_memory_shared(a.m), "a result has memory of its own"); }
	else { for (int k = 0; k < n * ch; ++k) memcpy(wa + a.v.map[k] * es, want + k * es, es); mt_mat& r = form == 0 ? a.m.self_activate(ty, pv) : a.m.self_activate(ty, given, given ? pr : NULL); vp_assert(&r == &a.m, "self_activate returns its mat"); }
	vp_assert(diff(a.data, wa, a.bytes) == 0, self ? "self_activate updates each element of its mat and nothing else" : "the operands stay unchanged");
}
template <class T> static void quad(int n, int ch, const int* ma, const int* mb) { T* w = (T*)want; for (int c = 0; c < ch; ++c) { w[c] = 0; for (int k = 0; k < n; ++k) { T x = ((T*)wa)[ma[k * ch + c]], y = ((T*)wb)[mb[k * ch + c]]; if (fabs((double)y) <= DBL_MAX) w[c] += (x - y) * (x - y) / 2; } } }
template <class T> static void logl(int rows, int cols, const int* ma, const int* mb) { T w = 0; for (int r = 0; r < rows; ++r) { T y = ((T*)wb)[mb[r * cols]]; if (!(fabs((double)y) <= DBL_MAX)) continue; int hot = 0; if (cols > 1) while (((T*)wb)[mb[r * cols + hot]] != 1) ++hot; T x = ((T*)wa)[ma[r * cols + hot]]; if (cols == 1 && y == 0) w -= (T)log(1 - x + DBL_EPSILON); else w -= (T)log(x + DBL_EPSILON); } *(T*)want = w; }
static void loss_(int shape, int ch, mt_Depth d) {
	const int* s = SHAPES[shape] + 1; int nd = SHAPES[shape][0], es = DSIZE[d], one[2] = { 1, 1 }; Lay a = lay("a", "LAYS", nd, s, d, ch), b = lay("b", "LAYB", nd, s, d, ch); int n = a.v.n; memcpy(wa, a.data, a.bytes); for (int i = 0; i < a.bytes; i += es) { double x = rd(wa + i, d); vp_assume(x == x); }
	int lg = nd == 2 && ch == 1 && !WARM ? vp_choose("type", 2) : 0; double nan = NAN;
	if (WARM) ; else if (lg) { for (int r = 0; r < s[0]; ++r) { int hot = vp_choose("label", s[1] > 1 ? s[1] + 1 : 3); for (int c = 0; c < s[1]; ++c) wr(b.data + b.v.map[r * s[1] + c] * es, d, s[1] == 1 ? (hot == 2 ? nan : hot) : hot == s[1] ? nan : hot == c); } }
	else for (int k = 0; k < n; ++k) for (int c = 0; c < ch; ++c) { u8* y = b.data + b.v.map[k * ch + c] * es; double v = rd(y, d); int miss = k < 2 ? vp_choose("missing", 3) : 0; if (miss) wr(y, d, miss == 1 ? nan : INFINITY); else vp_assume(fabs(v) <= DBL_MAX); }
	memcpy(wb, b.data, b.bytes); if (d == mt_F32) { if (lg) logl<f32>(s[0], s[1], a.v.map, b.v.map); else quad<f32>(n, ch, a.v.map, b.v.map); } else { if (lg) logl<f64>(s[0], s[1], a.v.map, b.v.map); else quad<f64>(n, ch, a.v.map, b.v.map); }
	mt_mat r = a.m.loss(b.m, lg ? mt_Loss_Type_Logarithmic : mt_Loss_Type_Quadratic);
	result_is(r, 2, one, d, ch, want, "a loss sums the documented term of every element"); vp_assert(diff(a.data, wa, a.bytes) == 0 && diff(b.data, wb, b.bytes) == 0, "the operands stay unchanged");
}
template <class T> static void two(u8* r, const u8* x, int op) { T a = *(T*)r, b = *(const T*)x; *(T*)r = op == 0 ? a + b : a * b; }
static void list_(int shape, int ch, mt_Depth d) {
	int nd = SHAPES[shape][0], es = DSIZE[d], op = WARM ? 0 : vp_choose("operation", 5), cnt = WARM ? 2 : vp_choose("mats", vp_param("MATS", 4)), share = WARM ? 0 : vp_choose("share", 2), dim = op == 2 ? vp_choose("dim", nd) : 0, ns[MAXD]; if (op == 4 && share) vp_end();
	for (int i = 0; i < nd; ++i) ns[i] = SHAPES[shape][i + 1]; vector<mt_mat> list; Lay l[3]; static u8 copy[3][8 * MAXN]; int chs[3], total = 0, along = 0; static const int GROW[3] = { 0, 1, 0 };
	for (int i = 0; i < cnt; ++i) { int z[MAXD]; for (int j = 0; j < nd; ++j) z[j] = ns[j]; if (op == 2) z[dim] += WARM ? 0 : (GROW[i] + vp_choose("extra", 2)) % 2; chs[i] = op == 3 && !WARM ? 1 + (ch - 1 + vp_choose("channel", 2)) % 3 : ch; l[i] = lay("a", i ? "LAYB" : "LAYS", nd, z, d, chs[i]); memcpy(copy[i], l[i].data, l[i].bytes); list.push_back(l[i].m); total += chs[i]; along += z[dim]; }
	if (op == 4) { vector<mt_mat> r(WARM ? 0 : vp_choose("before", 2)); mt_mat_helper::clone(r, list); vp_assert((int)r.size() == cnt, "clone copies every mat of the list"); for (int i = 0; i < cnt; ++i) { for (int k = 0; k < l[i].v.n * ch; ++k) memcpy(want + k * es, copy[i] + l[i].v.map[k] * es, es); result_is(r[i], nd, l[i].v.sz, d, ch, want, "clone copies every mat of the list"); vp_assert(!r[i].is_memory_shared(l[i].m), "a result has memory of its own"); } }
	else { mt_mat r = op == 0 ? mt_mat_helper::add(list, share) : op == 1 ? mt_mat_helper::dot(list, share) : op == 2 ? mt_mat_helper::merge_align_dim(list, dim, share) : mt_mat_helper::merge_align_channel(list, share);
		if (cnt == 0) vp_assert(r.is_empty(), "an empty list gives an empty mat");
		else { int rs[MAXD], rn = 1, rc = op == 3 ? total : ch; for (int j = 0; j < nd; ++j) { rs[j] = op == 2 && j == dim ? along : ns[j]; rn *= rs[j]; }
			vp_assert(r.is_memory_shared(l[0].m) == (cnt == 1 && share), "only a single mat may be returned without a copy"); for (int i = 1; i < cnt; ++i) vp_assert(!r.is_memory_shared(l[i].m), "a result has memory of its own");
			if (op < 2) { for (int k = 0; k < rn * ch; ++k) { memcpy(want + k * es, copy[0] + l[0].v.map[k] * es, es); for (int i = 1; i < cnt; ++i) { FOR_DEPTH(d, two, want + k * es, copy[i] + l[i].v.map[k] * es, op) } } result_is(r, nd, rs, d, rc, want, "add and dot combine the mats of a list element by element"); }
			else if (op == 2) { for (int k = 0; k < rn; ++k) { int x[MAXD], q = k, i = 0; for (int j = nd - 1; j >= 0; --j) { x[j] = q % rs[j]; q /= rs[j]; } while (x[dim] >= l[i].v.sz[dim]) x[dim] -= l[i++].v.sz[dim]; int o = vlin(l[i].v, x); for (int c = 0; c < ch; ++c) memcpy(want + (k * ch + c) * es, copy[i] + l[i].v.map[o * ch + c] * es, es); } result_is(r, nd, rs, d, rc, want, "merging along a dimension puts the mats one after the other"); }
			else { for (int k = 0; k < rn; ++k) { int o = 0; for (int i = 0; i < cnt; ++i) for (int c = 0; c < chs[i]; ++c) memcpy(want + (k * total + o++) * es, copy[i] + l[i].v.map[k * chs[i] + c] * es, es); } result_is(r, nd, rs, d, rc, want, "merging channels puts the channels of the mats one after the other"); } } }
	for (int i = 0; i < cnt; ++i) vp_assert(diff(l[i].data, copy[i], l[i].bytes) == 0, "the operands stay unchanged"); (void)LX;
}
static void body(int mode, int shape, int ch, mt_Depth d) { switch (mode) { case 0: reduce_(shape, ch, d); break; case 1: activate_(shape, ch, d); break; case 2: loss_(shape, ch, d); break; default: list_(shape, ch, d); break; } }
extern "C" void vp_main() {
	int mode = vp_param("MODE", 0), ch = vp_param("CH", 1), D = vp_param("D", 0), shape = pick_shape();
	mt_Depth d = pick_depth(D < 0 ? vp_choose("depth", 10) : D);
	WARM = true; body(mode, shape, ch, d); WARM = false;
	size_t h = vp_heap_bytes(); body(mode, shape, ch, d); vp_assert(vp_heap_bytes() == h, "the operation releases the memory it used");
	vp_reach("operation checked");
}
