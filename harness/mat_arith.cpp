// Element-wise arithmetic: mat with mat, value, mt_scalar or vector; functions of one mat; bias; comparison masks; expand.
#include <math.h>
#include "mat_layout.h"
#include "mat_util.h"
template <class T> static void bin(u8* r, const u8* a, const u8* b, int op) { T x = *(const T*)a, y = *(const T*)b; switch (op) { case 0: *(T*)r = x + y; break; case 1: *(T*)r = x - y; break; case 2: *(T*)r = x * y; break; default: *(T*)r = x / y; break; } }
template <class T> static void divisor(const u8* a, const u8* b) { T x = *(const T*)a, y = *(const T*)b; vp_assume((y != 0) & ((y != (T)-1) | (sizeof(T) < 4) | (x > (T)-1000))); }
template <class T> static void fun(u8* r, const u8* a, int f, double p) { T x = *(const T*)a, q = (T)p; using namespace std; switch (f) { case 0: *(T*)r = (T)(0) - x; break; case 1: *(T*)r = x < 0 ? (T)(0 - x) : x; break; case 2: *(T*)r = (T)exp(x); break; case 3: *(T*)r = (T)log(x); break; case 4: *(T*)r = (T)(log10(x) / log10(q)); break; default: *(T*)r = (T)pow(x, q); break; } }
template <> void fun<f32>(u8* r, const u8* a, int f, double p) { f32 x = *(const f32*)a, q = (f32)p; f32& o = *(f32*)r; switch (f) { case 0: o = 0.0f - x; break; case 1: o = fabsf(x); break; case 2: o = expf(x); break; case 3: o = logf(x); break; case 4: o = log10f(x) / log10f(q); break; default: o = powf(x, q); break; } }
template <> void fun<f64>(u8* r, const u8* a, int f, double p) { f64 x = *(const f64*)a; f64& o = *(f64*)r; switch (f) { case 0: o = 0.0 - x; break; case 1: o = fabs(x); break; case 2: o = ::exp(x); break; case 3: o = ::log(x); break; case 4: o = ::log10(x) / ::log10(p); break; default: o = ::pow(x, p); break; } }
template <class T> static void cmp(u8* r, const u8* a, const u8* b, int t, double tm, double fm) { T x = *(const T*)a, y = *(const T*)b; bool v = t == 0 ? x > y : t == 1 ? x < y : t == 2 ? x == y : t == 3 ? x <= y : x >= y; *(T*)r = v ? (T)tm : (T)fm; }
static u8 want[8 * MAXN], wa[8 * MAXN], wb[8 * MAXN];
static mt_mat& compound(mt_mat& a, const mt_mat& b, int op) { return op == 0 ? a += b : op == 1 ? a -= b : op == 2 ? a *= b : a /= b; }
template <class V> static mt_mat binary(const mt_mat& a, const V& b, int op) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
template <class V> static mt_mat& compoundv(mt_mat& a, const V& b, int op) { return op == 0 ? a += b : op == 1 ? a -= b : op == 2 ? a *= b : a /= b; }
static void body(int mode, int shape, int ch, mt_Depth d, mt_Depth d2) {
	const int* s = SHAPES[shape] + 1; int nd = SHAPES[shape][0], es = DSIZE[d];
	Lay a = lay("a", "LAYS", nd, s, d, ch); int n = a.v.n; memcpy(wa, a.data, a.bytes);
	if (mode == 0) { // mat with mat
		int op = WARM ? 0 : vp_choose("op", 4), form = WARM ? 0 : vp_choose("form", 3);
		Lay b = form == 2 ? a : lay("b", "LAYB", nd, s, d, ch); memcpy(wb, b.data, b.bytes);
		for (int k = 0; k < n * ch; ++k) { u8* x = wa + a.v.map[k] * es, *y = wb + b.v.map[k] * es; if (op == 3 && is_int(d)) { FOR_DEPTH(d, divisor, x, y) } FOR_DEPTH(d, bin, want + k * es, x, y, op) }
		if (form == 0) { mt_mat r = binary(a.m, b.m, op); result_is(r, nd, s, d, ch, want, "an arithmetic result holds the operation applied to each pair of elements"); vp_assert(diff(a.data, wa, a.bytes) == 0, "arithmetic leaves its operands unchanged"); vp_assert(!r.is_memory_shared(a.m) && !r.is_memory_shared(b.m), "an arithmetic result has memory of its own"); }
		else { for (int k = 0; k < n * ch; ++k) memcpy(wa + a.v.map[k] * es, want + k * es, es); mt_mat& r = compound(a.m, b.m, op); vp_assert(&r == &a.m, "a compound operator returns its mat"); vp_assert(diff(a.data, wa, a.bytes) == 0, "a compound operator updates each element of its mat and nothing else"); }
		if (form != 2) vp_assert(diff(b.data, wb, b.bytes) == 0, "arithmetic leaves its operands unchanged");
	} else if (mode == 1) { // mat with value
		int op = WARM ? 0 : vp_choose("op", 4), kind = WARM ? 0 : vp_choose("kind", 4), comp = WARM ? 0 : vp_choose("compound", 2); f64 v[8] = { 0 }; if ((kind == 1 && ch > 4) || (kind == 3 && comp)) vp_end();
		int nv = kind == 0 || kind == 3 ? 1 : kind == 1 ? 4 : ch; u8 tv[64]; for (int i = 0; i < nv; ++i) { v[i] = WARM ? 1 : vp_f64("value"); if (!WARM) assume_fits(v[i], d); } for (int c = 0; c < ch; ++c) wr(tv + c * es, d, v[nv == 1 ? 0 : c]);
		for (int k = 0; k < n; ++k) for (int c = 0; c < ch; ++c) { u8* x = wa + a.v.map[k * ch + c] * es; const u8* p = x, *q = tv + c * es; if (kind == 3) { p = q; q = x; } if (op == 3 && is_int(d)) { FOR_DEPTH(d, divisor, p, q) } FOR_DEPTH(d, bin, want + (k * ch + c) * es, p, q, op) }
		mt_scalar sc(v[0], v[1], v[2], v[3]); vector<f64> vec(v, v + ch);
		if (!comp) { mt_mat r = kind == 0 ? binary(a.m, v[0], op) : kind == 1 ? binary(a.m, sc, op) : kind == 2 ? binary(a.m, vec, op) : op == 0 ? v[0] + a.m : op == 1 ? v[0] - a.m : op == 2 ? v[0] * a.m : v[0] / a.m; result_is(r, nd, s, d, ch, want, "arithmetic with a value applies it to each element"); vp_assert(!r.is_memory_shared(a.m), "an arithmetic result has memory of its own"); }
		else { for (int k = 0; k < n * ch; ++k) memcpy(wa + a.v.map[k] * es, want + k * es, es); mt_mat& r = kind == 0 ? compoundv(a.m, v[0], op) : kind == 1 ? compoundv(a.m, sc, op) : compoundv(a.m, vec, op); vp_assert(&r == &a.m, "a compound operator returns its mat"); }
		vp_assert(diff(a.data, wa, a.bytes) == 0, comp ? "a compound operator updates each element of its mat and nothing else" : "arithmetic leaves its operands unchanged");
	} else if (mode == 2) { // function of one mat
		int f = WARM ? 0 : vp_choose("function", 6), self = WARM ? 0 : vp_choose("self", 2); f64 p = 2.718281828459045; if (f == 0 && self) vp_end(); if (f >= 4) { static const f64 P[3] = { 2, 10, 3 }; p = P[vp_choose("parameter", 3)]; }
		if (is_int(d) && f >= 2) { for (int k = 0; k < n * ch; ++k) { wr(wa + a.v.map[k] * es, d, k > 2 ? 3 : 1 + (WARM ? 0 : vp_choose("small", 2))); } memcpy(a.data, wa, a.bytes); }
		for (int k = 0; k < n * ch; ++k) { const u8* x = wa + a.v.map[k] * es; FOR_DEPTH(d, fun, want + k * es, x, f, p) }
		if (!self) { mt_mat r; switch (f) { case 0: r = -a.m; break; case 1: r = a.m.abs(); break; case 2: r = a.m.exp(); break; case 3: r = a.m.log(); break; case 4: r = a.m.log(p); break; default: r = a.m.pow(p); break; } result_is(r, nd, s, d, ch, want, "a function is applied to each element"); vp_assert(!r.is_memory_shared(a.m), "an arithmetic result has memory of its own"); }
		else { for (int k = 0; k < n * ch; ++k) memcpy(wa + a.v.map[k] * es, want + k * es, es); mt_mat* r; switch (f) { case 1: r = &a.m.self_abs(); break; case 2: r = &a.m.self_exp(); break; case 3: r = &a.m.self_log(); break; case 4: r = &a.m.self_log(p); break; default: r = &a.m.self_pow(p); break; } vp_assert(r == &a.m, "a compound operator returns its mat"); }
		vp_assert(diff(a.data, wa, a.bytes) == 0, self ? "a self function updates each element of its mat and nothing else" : "arithmetic leaves its operands unchanged");
	} else if (mode == 3) { // bias: a mat whose size along each dimension divides the source's
		int op = WARM ? 0 : vp_choose("op", 4), bs[MAXD]; bool unit = true; for (int i = 0; i < nd; ++i) { int dv[8], c = 0; for (int q = 1; q <= s[i]; ++q) if (s[i] % q == 0) dv[c++] = q; bs[i] = WARM ? 1 : dv[vp_choose("bias_size", c)]; unit = unit && bs[i] == 1; }
		Lay b = lay("b", "LAYB", nd, bs, d, ch); memcpy(wb, b.data, b.bytes);
		for (int k = 0; k < n; ++k) { int x[MAXD]; vunlin(a.v, k, x); for (int i = 0; i < nd; ++i) x[i] %= bs[i]; int o = vlin(b.v, x); for (int c = 0; c < ch; ++c) { u8* p = wa + a.v.map[k * ch + c] * es, *q = wb + b.v.map[o * ch + c] * es; if (op == 3 && is_int(d)) { FOR_DEPTH(d, divisor, p, q) } FOR_DEPTH(d, bin, want + (k * ch + c) * es, p, q, op) } }
		mt_mat r = op == 0 ? a.m.add_bias(b.m) : op == 1 ? a.m.substract_bias(b.m) : op == 2 ? a.m.mul_bias(b.m) : a.m.div_bias(b.m);
		result_is(r, nd, s, d, ch, want, "a bias is applied periodically to each element"); vp_assert(diff(a.data, wa, a.bytes) == 0 && diff(b.data, wb, b.bytes) == 0, "arithmetic leaves its operands unchanged");
	} else if (mode == 4) { // comparison masks
		int t = WARM ? 0 : vp_choose("task", 5), zero = WARM ? 0 : vp_choose("zero", 2); static const f64 MK[3][2] = { { 1, 0 }, { 0, 1 }, { 7, 100 } }; int mk = WARM ? 0 : vp_choose("masks", 3); f64 tm = MK[mk][0], fm = MK[mk][1];
		Lay b; u8 z[8] = { 0 }; if (!zero) { b = lay("b", "LAYB", nd, s, d2, ch); memcpy(wb, b.data, b.bytes); }
		for (int k = 0; k < n * ch; ++k) { const u8* y = z; u8 cv[8]; if (!zero) { y = wb + b.v.map[k] * DSIZE[d2]; if (d2 != d) { if (!WARM) assume_fits(y, d2, d); conv_scalar(cv, d, y, d2); y = cv; } } const u8* x = wa + a.v.map[k] * es; FOR_DEPTH(d, cmp, want + k * es, x, y, t, tm, fm) }
		mt_mat r = a.m.element_compared_mask(zero ? mt_mat() : b.m, (mt_mat::Compare_Task)t, tm, fm);
		result_is(r, nd, s, d, ch, want, "a comparison mask marks each element by its own comparison"); vp_assert(diff(a.data, wa, a.bytes) == 0 && (zero || diff(b.data, wb, b.bytes) == 0), "arithmetic leaves its operands unchanged");
	} else { // expand with a border
		int form = WARM ? 2 : vp_choose("form", 3), sides = WARM ? 3 : 1 + vp_choose("sides", 3), p1[MAXD], p2[MAXD], ns[MAXD]; if (form == 0 && ch > 4) vp_end();
		for (int i = 0; i < nd; ++i) { p1[i] = (sides & 1) && !WARM && i < 3 ? vp_choose("before", 3) : 0; p2[i] = (sides & 2) && !WARM && i < 3 ? vp_choose("after", 2) : 0; ns[i] = s[i] + p1[i] + p2[i]; }
		f64 v[8] = { 0 }; for (int c = 0; c < (form == 2 ? ch : 4); ++c) { v[c] = WARM ? 0 : vp_f64("value"); if (!WARM) assume_fits(v[c], d); } if (form == 1 && ch > 4) vp_end();
		int nn = 1; for (int i = 0; i < nd; ++i) nn *= ns[i]; vp_assert(nn * ch <= MAXN, "harness bound");
		for (int k = 0; k < nn; ++k) { int q = k, o = 0, mul = 1; bool in = true; for (int i = nd - 1; i >= 0; --i) { int x = q % ns[i] - p1[i]; q /= ns[i]; if (x < 0 || x >= s[i]) in = false; o += x * mul; mul *= s[i]; } for (int c = 0; c < ch; ++c) if (in) memcpy(want + (k * ch + c) * es, wa + a.v.map[o * ch + c] * es, es); else wr(want + (k * ch + c) * es, d, v[c]); }
		const int* q1 = sides & 1 ? p1 : NULL, *q2 = sides & 2 ? p2 : NULL; mt_scalar sc(v[0], v[1], v[2], v[3]); vector<int> v1(p1, p1 + nd), v2(p2, p2 + nd), none;
		mt_mat r = form == 0 ? a.m.expand(sides & 1 ? v1 : none, sides & 2 ? v2 : none, sc) : form == 1 ? a.m.expand(nd, q1, q2, sc) : a.m.expand(nd, q1, q2, vector<f64>(v, v + ch));
		result_is(r, nd, ns, d, ch, want, "expand keeps the mat inside a border of the given value"); vp_assert(diff(a.data, wa, a.bytes) == 0, "arithmetic leaves its operands unchanged");
	}
}
extern "C" void vp_main() {
	int mode = vp_param("MODE", 0), shape = vp_param("SHAPE", -1), ch = vp_param("CH", 1), D = vp_param("D", 0), D2 = vp_param("D2", 0);
	if (shape < 0) { int m = -shape, set[16], c = 0; for (int i = 0; i < 13; ++i) if (m >> i & 1) set[c++] = i; shape = set[vp_choose("shape", c)]; }
	mt_Depth d = pick_depth(D < 0 ? vp_choose("depth", vp_param("ND", 10)) : D), d2 = pick_depth(D2 == -2 ? (int)d : D2 < 0 ? vp_choose("depth2", 10) : D2);
	WARM = true; body(mode, shape, ch, d, d2); WARM = false;
	size_t h = vp_heap_bytes(); body(mode, shape, ch, d, d2); vp_assert(vp_heap_bytes() == h, "arithmetic releases the memory it used");
	vp_reach("arithmetic checked");
}
