// Dynamic programming (0-1 bag, longest common substring, maximum sum of a range) and numeric helpers.
#include "vp.h"
#include "stdafx.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include "dynamic_programming/mt_01_bag.h"
#include "dynamic_programming/mt_longest_common_substring.h"
#include "dynamic_programming/mt_max_sum_for_continuous_element.h"
using namespace basicsys;
using namespace basicmath;
static int symi(const char* nm, int i, int lo, int hi) { char b[16]; strcpy(b, nm); int l = (int)strlen(b); b[l] = (char)('0' + i); b[l + 1] = 0; return vp_int(b, lo, hi); }
static int symb(const char* nm, int i, int sh) { char b[16]; strcpy(b, nm); int l = (int)strlen(b); b[l] = (char)('0' + i); b[l + 1] = 0; i8 v; vp_bytes(b, &v, 1); return (int)(i8)(v >> sh); }
template <class W, class V> static void bag(int n, int wm, int cap, int vlo, int vhi) {
	vector<W> w; vector<V> v; w.reserve(n + 1); v.reserve(n + 1); for (int i = 0; i < n; ++i) { w.push_back((W)symi("w", i, 0, wm)); v.push_back((V)symi("v", i, vlo, vhi)); } W c = (W)vp_int("capacity", 0, cap);
	mt_01_bag<W, V> b(w, v, c); V best = 0; for (int m = 0; m < 1 << n; ++m) { W tw = 0; V tv = 0; for (int i = 0; i < n; ++i) if (m >> i & 1) { tw += w[i]; tv += v[i]; } best = (tw <= c) & (tv > best) ? tv : best; }
	vp_assert(b.max_value() == best, "the bag's value is the best over all subsets that fit"); vp_assert((int)b.flag_01().size() == n, "one flag per element"); W tw = 0; V tv = 0; for (int i = 0; i < n && i < (int)b.flag_01().size(); ++i) if (b.flag_01()[i]) { tw += w[i]; tv += v[i]; } vp_assert(tw <= c, "the flagged elements fit"); vp_assert(tv == best, "the flagged elements reach the best value"); vp_reach("bag");
}
template <class T> static void lcs(int n, int m) {
	vector<T> a(n), b(m); vp_bytes("a", &a[0], n * sizeof(T)); vp_bytes("b", &b[0], m * sizeof(T)); mt_longest_common_substring<T> l(a, b);
	int best = 0; static int len[8][8]; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { int run = 1, k = 0; for (int z = 0; i + z < n && j + z < m; ++z) { run &= a[i + z] == b[j + z] ? 1 : 0; k += run; } len[i][j] = k; best = k > best ? k : best; }
	vp_assert(l.length() == best, "the length is the longest run common to both"); int L = (int)vp_concretize(l.length()); if (L > 0) { int i = l.a_begin_index(), j = l.b_begin_index(); vp_assert((i >= 0) & (j >= 0) & (i + L <= n) & (j + L <= m), "the reported run lies inside both"); int bad = 0; for (int z = 0; z < L; ++z) bad |= a[i + z] != b[j + z]; vp_assert(bad == 0, "the reported run is common"); }
	vector<i32> p, q; if (vp_choose("dirty", 2)) { p.push_back(5); q.push_back(6); } l.all_a_begin_index(p); l.all_b_begin_index(q); int c = 0, bad = 0; vp_assert(p.size() == q.size(), "one begin index in each per run"); for (int x = 0; x < (int)p.size() && x < (int)q.size(); ++x) { if (p[x] < 0 || p[x] >= n || q[x] < 0 || q[x] >= m) { bad = 1; continue; } bad |= len[p[x]][q[x]] != L; for (int y = 0; y < x; ++y) bad |= (p[y] == p[x]) & (q[y] == q[x]); }
	for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c += len[i][j] == L ? 1 : 0; vp_assert(bad == 0 && (L == 0 ? p.empty() : c == (int)p.size()), "every longest run is listed once by its begin indexes"); vp_reach("substring");
}
template <class T> static void maxsum(int n, int lim) {
	vector<T> v; for (int i = 0; i < n; ++i) v.push_back((T)symb("v", i, lim)); mt_max_sum_for_continuous_element<T> s(v); T best = s.max_sum(); for (int i = 0; i < n; ++i) { T t = 0; for (int j = i; j < n; ++j) { t += v[j]; vp_assert(t <= best, "no range has a larger sum"); } }
	 int b = (int)vp_concretize(s.begin_index()), l = (int)vp_concretize(s.length()); vp_assert(b >= 0 && l >= 1 && b + l <= n, "the reported range lies inside"); T t = 0; for (int i = b; i < b + l && i < n; ++i) t += v[i]; vp_assert(t == best, "the reported range has the largest sum"); vp_reach("range");
}
static void multi_index() {
	static const int S[][6] = { { 1, 4 }, { 2, 2, 3 }, { 3, 2, 1, 3 }, { 3, 3, 2, 2 }, { 4, 2, 1, 3, 2 }, { 5, 1, 2, 2, 1, 2 } }; const int* s = S[vp_choose("shape", 6)]; int nd = *s++, n = 1; for (int i = 0; i < nd; ++i) n *= s[i]; u16 k0 = (u16)vp_int("index", 0, n - 1); i32 k = k0; vector<i32> ix; if (vp_choose("dirty", 2)) ix.resize(7, 3); mt_helper::multi_index_from_index(ix, k, nd, s);
	vp_assert((int)ix.size() == nd, "one index per dimension"); int bad = 0, lin = 0; for (int i = 0; i < nd; ++i) { bad |= (ix[i] < 0) | (ix[i] >= s[i]); lin = lin * s[i] + ix[i]; } vp_assert(bad == 0 && lin == k, "multi_index_from_index splits a row-major index"); vp_assert(mt_helper::index_from_multi_index(ix, nd, s) == k, "index_from_multi_index joins it again"); vp_reach("number");
}
static void numbers() {
	int ops = vp_param("OPS", 1023), set[10], oc = 0; for (int i = 0; i < 10; ++i) if (ops >> i & 1) set[oc++] = i; switch (set[vp_choose("operation", oc)]) {
	case 0: { i32 x; vp_bytes("x", &x, 4); int c = 0; for (int i = 0; i < 32; ++i) c += (int)((u32)x >> i & 1); vp_assert(mt_helper::number_of_1(x) == c, "number_of_1 counts the set bits"); break; }
	case 1: { i64 x; vp_bytes("x", &x, 8); int c = 0; for (int i = 0; i < 64; ++i) c += (int)((u64)x >> i & 1); vp_assert(mt_helper::number_of_1(x) == c, "number_of_1 counts the set bits"); break; }
	case 2: { i32 x; vp_bytes("x", &x, 4); u32 r = (u32)mt_helper::reverse_i32(x), y = (u32)x; int bad = 0; for (int i = 0; i < 4; ++i) bad |= (r >> (8 * i) & 255) != (y >> (24 - 8 * i) & 255); vp_assert(bad == 0, "reverse_i32 reverses the bytes"); break; }
	case 3: { f64 x; vp_bytes("x", &x, 8); u64 b; memcpy(&b, &x, 8); bool top = (b >> 52 & 2047) == 2047, man = (b & 0xfffffffffffffull) != 0; vp_assert((mt_helper::is_nan(x) != 0) == (top && man), "is_nan recognises every nan"); vp_assert((mt_helper::is_infinity(x) != 0) == (top && !man), "is_infinity recognises both infinities"); vp_assert((mt_helper::is_number(x) != 0) == !top, "is_number recognises every finite number"); break; }
	case 4: { f64 x = vp_f64("x"); vp_assume((x > -2000000000.0) & (x < 2000000000.0)); f64 r = (f64)mt_helper::neibour_float(x); vp_assert((r - x <= 0.5) & (x - r <= 0.5), "neibour_float rounds to a nearest integer"); vp_assert((r - x != 0.5 || x > 0) & (x - r != 0.5 || x < 0), "neibour_float rounds halves away from zero"); break; }
	case 5: { int n = vp_int("n", 0, 16), k = vp_int("k", 0, 16); vp_assume(k <= n); n = (int)vp_concretize(n); k = (int)vp_concretize(k); static int C[17][17]; for (int i = 0; i <= n; ++i) { C[i][0] = 1; for (int j = 1; j <= i; ++j) C[i][j] = C[i - 1][j - 1] + (j < i ? C[i - 1][j] : 0); } vp_assert(mt_helper::combination(n, k) == C[n][k], "combination counts the subsets"); int f = 1; for (int i = 2; i <= n && i <= 12; ++i) f *= i; if (n <= 12) vp_assert(mt_helper::factorial(n) == f, "factorial multiplies 1 to n"); break; }
	case 6: { u8 x; vp_bytes("x", &x, 1); f64 y = (f64)x - 60; i16 z; vp_bytes("z", &z, 2); f64 w = (f64)z; vp_assert((mt_helper::valid_range<u8>(w) != 0) == (z >= 0 && z <= 255), "valid_range of a byte"); vp_assert((mt_helper::valid_range<i8>(w) != 0) == (z >= -128 && z <= 127), "valid_range of a signed byte"); vp_assert(mt_helper::valid_range<f32>(y) && mt_helper::valid_range<f64>(w), "valid_range of a floating-point type"); break; }
	case 7: { u32 x = (u32)vp_int("x", 0, vp_param("ONES", 32)); x = (u32)vp_concretize(x); u32 c = 0; for (u32 i = 1; i <= x; ++i) c += (i % 10 == 1) + (i / 10 % 10 == 1) + (i / 100 % 10 == 1); vp_assert(mt_helper::one_number(x) == c, "one_number counts the ones written from 1 to the value"); break; }
	case 8: { vector<i32> a, b, d; int n = 1 + vp_choose("count", 3), da = vp_choose("dirty", 2); if (da) { a.push_back(4); b.push_back(5); } for (int i = 0; i < n; ++i) d.push_back(symb("d", i, 3)); mt_helper::split_array_to_max_mean_sub_arrays(a, b, d); vp_assert((int)(a.size() + b.size()) == n, "splitting keeps every element"); if ((int)(a.size() + b.size()) != n) vp_end();
		vector<i32> all = b; all.insert(all.end(), a.begin(), a.end()); int bad = 0; for (int i = 1; i < n; ++i) bad |= all[i - 1] > all[i]; for (int i = 0; i < n; ++i) { int p = 0, q = 0; for (int j = 0; j < n; ++j) { p += all[j] == d[i] ? 1 : 0; q += d[j] == d[i] ? 1 : 0; } bad |= p != q; } vp_assert(bad == 0, "the second part holds the smaller elements in order, the first part the larger ones");
		if (n > 1) { vp_assert(!a.empty() && !b.empty(), "no part is empty"); int m = (int)b.size(), lo = 0, hi = 0; for (int i = 0; i < n; ++i) (i < m ? lo : hi) += all[i]; for (int z = 1; z < n; ++z) { int l2 = 0, h2 = 0; for (int i = 0; i < n; ++i) (i < z ? l2 : h2) += all[i]; vp_assert((hi * m - lo * (n - m)) * z * (n - z) >= (h2 * z - l2 * (n - z)) * m * (n - m), "the difference of the means is the largest possible"); } } break; }
	default: { f64 a, b; vp_bytes("a", &a, 8); b = a; vp_assume(a == a); vp_assert(mt_helper::compare_double(a, b) == 0, "equal numbers compare as equal"); f32 c, e; vp_bytes("c", &c, 4); e = c; vp_assume(c == c); vp_assert(mt_helper::compare_float(c, e) == 0, "equal numbers compare as equal"); break; }
	}
	vp_reach("number");
}
// the comparison is antisymmetric, never contradicts the order, and is exact beyond the tolerance
template <class T> static void tolerance() {
	i8 p, q; vp_bytes("p", &p, 1); vp_bytes("q", &q, 1); p >>= 3; q >>= 3; T a = (T)p, b = (T)q; int r, s; if (sizeof(T) == 4) { r = mt_helper::compare_float((f32)a, (f32)b); s = mt_helper::compare_float((f32)b, (f32)a); } else { r = mt_helper::compare_double(a, b); s = mt_helper::compare_double(b, a); }
	vp_assert(r == (p < q ? -1 : p > q ? 1 : 0), "whole numbers of up to 5 bits are told apart"); vp_assert(s == -r, "comparison is antisymmetric"); vp_reach("number");
}
extern "C" void vp_main() {
	int n = vp_param("N", 3), m = vp_param("M", 3);
	switch (vp_param("MODE", 0)) {
	case 0: if (vp_param("T", 0)) bag<u16, i64>(n, 3, 5, 0, 20); else bag<i32, i32>(n, vp_param("WM", 3), vp_param("CAP", 6), vp_param("VLO", 0), 15); break;
	case 1: if (vp_param("T", 0)) lcs<u8>(n, m); else lcs<i32>(n, m); break;
	case 2: if (vp_param("T", 0)) maxsum<i64>(n, 3); else maxsum<i32>(n, 1); break;
	case 3: multi_index(); break;
	case 4: if (vp_choose("float", 2)) tolerance<f32>(); else tolerance<f64>(); break;
	default: numbers(); break;
	}
	vp_end();
}
