// Sorting, selection and the vector helpers of mt_helper, mt_sort and mt_top_k.
#include "vp.h"
#include "stdafx.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
using namespace basicsys;
using namespace basicmath;
enum { MAXL = 8 };
template <class T> static T sym(const char* nm, int i) { char b[16]; strcpy(b, nm); int l = (int)strlen(b); b[l] = (char)('0' + i); b[l + 1] = 0; T v; vp_bytes(b, &v, sizeof(T)); if ((T)0.5 != 0) { f64 d = (f64)v; vp_assume(d == d); } return v; }
template <class T> static vector<T> symv(const char* nm, int n) { vector<T> v; v.reserve(n + 1); for (int i = 0; i < n; ++i) v.push_back(sym<T>(nm, i)); return v; }
template <class T> static bool bits(const T& a, const T& b) { return a == b; }
template <class T> static int occurs(const vector<T>& v, T x) { int c = 0; for (size_t i = 0; i < v.size(); ++i) c += v[i] == x ? 1 : 0; return c; }
template <class T> static bool permuted(const vector<T>& a, const vector<T>& b) { if (a.size() != b.size()) return false; int bad = 0; for (size_t i = 0; i < a.size(); ++i) bad |= occurs(a, a[i]) ^ occurs(b, a[i]); return bad == 0; }
template <class T> static bool ordered(const vector<T>& v, bool inc) { int bad = 0; for (size_t i = 1; i < v.size(); ++i) bad |= inc ? v[i - 1] > v[i] : v[i - 1] < v[i]; return bad == 0; }
// x is the value of v at position r in ascending order
template <class T> static bool is_rank(const vector<T>& v, T x, int r) { int lt = 0, le = 0; for (size_t i = 0; i < v.size(); ++i) { lt += v[i] < x ? 1 : 0; le += v[i] <= x ? 1 : 0; } return (lt <= r) & (r < le); }
template <class T> static void sorts(int n) {
	vector<T> a = symv<T>("a", n), o = a; bool inc = vp_choose("increase", 2) == 1; int k = vp_choose("algorithm", 4);
	if (k == 0) { mt_sort::bubble_sort<T>(a, inc); } else if (k == 1) { mt_sort::heap_sort<T>(a, inc); }
	else if (k == 2) { vector<i32> ix; if (vp_choose("dirty", 2)) ix.resize(n + 2, 7); mt_sort::sort<T>(ix, a, inc); vp_assert((int)ix.size() == n, "sort returns one index per element"); int used = 0; bool ok = true; for (int i = 0; i < n; ++i) { ok &= ix[i] >= 0 && ix[i] < n; if (!ok) break; used |= 1 << ix[i]; vp_assert(a[i] == o[ix[i]], "sort returns where each element came from"); } vp_assert(ok && used == (1 << n) - 1, "sort returns a permutation of the indexes"); }
	else { mt_sort::init_heap<T>(a, inc); int bad = 0; for (int i = 1; i < n; ++i) bad |= inc ? a[(i - 1) / 2] < a[i] : a[(i - 1) / 2] > a[i]; vp_assert(bad == 0, "a heap keeps every parent before its children"); }
	if (k != 3) vp_assert(ordered(a, inc), "sorting orders the elements"); vp_assert(permuted(a, o), "sorting keeps the elements"); vp_reach("sorted");
}
template <class T> static void top(int n) {
	vector<T> a = symv<T>("a", n); int k = vp_choose("k", n + 2); bool big = vp_choose("big", 2) == 1; mt_top_k<T> t(k, big); for (int i = 0; i < n; ++i) t.traverse(a[i]);
	int m = k < n ? k : n; vector<T> got; if (vp_choose("dirty", 2)) got.resize(3, 1); t.get_sorted_top_k(got); vp_assert((int)got.size() == m && (int)t.get_top_k().size() == m, "top k keeps the smaller of k and the number of values");
	if ((int)got.size() != m) vp_end(); int bad = 0; for (int i = 0; i < m; ++i) bad |= occurs(got, got[i]) > occurs(a, got[i]) ? 1 : 0; if (m) for (int i = 0; i < n; ++i) { int better = big ? a[i] > got[m - 1] : a[i] < got[m - 1]; bad |= better & (occurs(got, a[i]) != occurs(a, a[i]) ? 1 : 0); } vp_assert(bad == 0, "top k keeps the best values of those traversed"); vp_assert(ordered(got, !big), "the sorted top k starts with the best value"); vp_assert(permuted(got, t.get_top_k()), "both forms of top k hold the same values"); vp_reach("selected");
}
template <class T> static void select_(int n) {
	vector<T> a = symv<T>("a", n), o = a; int k = vp_choose("operation", 9);
	switch (k) {
	case 0: { T m = mt_helper::median_with_unchanged_order(a); vp_assert(is_rank(o, m, (n - 1) / 2), "the median is the middle value in order"); int bad = 0; for (int i = 0; i < n; ++i) bad |= a[i] != o[i]; vp_assert(bad == 0, "median_with_unchanged_order keeps the data"); break; }
	case 1: { T m = mt_helper::median_with_changed_order(a); vp_assert(is_rank(o, m, (n - 1) / 2), "the median is the middle value in order"); vp_assert(permuted(a, o), "median_with_changed_order keeps the values"); break; }
	case 2: { vp_assert(is_rank(o, mt_helper::compute_min(n, &a[0]), 0) && is_rank(o, mt_helper::compute_max(n, &a[0]), n - 1), "compute_min and compute_max find the extreme values"); break; }
	case 3: { i32 i = mt_helper::index_of_max_value(n, &a[0]); vp_assert(i >= 0 && i < n && is_rank(o, a[i], n - 1), "index_of_max_value finds the maximum"); for (int j = 0; j < i && j < n; ++j) vp_assert(a[j] < a[i], "index_of_max_value finds the first maximum"); break; }
	case 4: { i32 i = mt_helper::index_of_min_value(n, &a[0]); vp_assert(i >= 0 && i < n && is_rank(o, a[i], 0), "index_of_min_value finds the minimum"); for (int j = 0; j < i && j < n; ++j) vp_assert(a[j] > a[i], "index_of_min_value finds the first minimum"); break; }
	case 5: { mt_helper::flip_vector(a); int bad = 0; for (int i = 0; i < n; ++i) bad |= a[i] != o[n - 1 - i]; vp_assert(bad == 0, "flip_vector reverses"); break; }
	case 6: { int s = vp_choose("start", n + 1), e = s + vp_choose("length", n - s + 1); vector<T> q(2, o[0]); mt_helper::sub_vector(q, o, mt_range(s, e)); vp_assert((int)q.size() == e - s, "sub_vector has the size of the range"); int bad = 0; for (int i = s; i < e && i - s < (int)q.size(); ++i) bad |= q[i - s] != o[i]; vp_assert(bad == 0, "sub_vector copies the range"); vector<T> w = mt_helper::vec_from_array(n, &o[0]); vp_assert((int)w.size() == n, "vec_from_array copies every element"); bad = 0; for (int i = 0; i < n; ++i) bad |= w[i] != o[i]; vp_assert(bad == 0, "vec_from_array copies every element"); break; }
	case 7: { vector<T*> p; mt_helper::pointer_from_instance(p, a); vector<T> q; if (vp_choose("dirty", 2)) q.resize(n + 1, o[0]); vector<T*> z(p); mt_helper::instance_from_pointer(q, z); vp_assert((int)p.size() == n && (int)q.size() == n, "one pointer per element and one element per pointer"); int bad = 0; for (int i = 0; i < n; ++i) bad |= (p[i] != &a[i]) | (q[i] != a[i]); vp_assert(bad == 0, "pointers and instances correspond"); break; }
	default: { if ((T)0.5 != 0) { vp_assert(mt_helper::is_vec_value(vector<T>(n, o[0]), o[0]) != 0, "is_vec_value accepts equal elements"); break; } bool same = true; for (int i = 0; i < n; ++i) same &= a[i] == o[0]; vp_assert((mt_helper::is_vec_value(a, o[0]) != 0) == same, "is_vec_value compares every element"); break; }
	}
	vp_reach("selected");
}
template <class T> static void ints(int n) {
	vector<T> a = symv<T>("a", n), o = a; int k = vp_choose("operation", 3);
	if (k == 0) {
		bool odd = vp_choose("odd first", 2) == 1, stable = vp_choose("stable", 2) == 1; mt_helper::odd_even_sort(a, odd, stable); int bad = 0; for (int i = 1; i < n; ++i) { int p = a[i - 1] & 1, q = a[i] & 1; bad |= odd ? (p == 0) & (q == 1) : (p == 1) & (q == 0); } vp_assert(bad == 0, "odd_even_sort separates odd and even numbers"); vp_assert(permuted(a, o), "odd_even_sort keeps the elements");
		if (stable) { T w[MAXL]; int c = 0; for (int pass = 0; pass < 2; ++pass) for (int i = 0; i < n; ++i) { bool isodd = (o[i] & 1) != 0; if ((isodd == odd) == (pass == 0)) w[c++] = o[i]; } bad = 0; for (int i = 0; i < n; ++i) bad |= a[i] != w[i]; vp_assert(bad == 0, "the stable odd_even_sort keeps the order within each half"); }
	} else if (k == 1) {
		T s = 0, p = 1; for (int i = 0; i < n; ++i) { s = (T)(s + o[i]); p = (T)(p * o[i]); } vp_assert(mt_helper::add(a) == s, "add is the sum"); if (n) { vp_assert(mt_helper::mutiply(a) == p, "mutiply is the product"); vp_assert(mt_helper::add<T>(&a[0], &a[0] + n) == s && mt_helper::mutiply<T>(&a[0], &a[0] + n) == p, "add and mutiply over a range of pointers agree"); }
	} else {
		vector<T> r; if (vp_choose("dirty", 2)) r.resize(n + 3, 9); mt_helper::integral_array(r, a); vp_assert((int)r.size() == n + 1, "an integral array has one element more"); T s = 0; int bad = 0; T q[MAXL + 1]; if (n) mt_helper::integral_array<T>(q, &a[0], &a[0] + n); else q[0] = 0;
		for (int i = 0; i <= n && i < (int)r.size(); ++i) { bad |= (r[i] != s) | (q[i] != s); if (i < n) s = (T)(s + o[i]); } vp_assert(bad == 0, "an integral array holds the prefix sums");
	}
	vp_reach("selected");
}
template <class T> static void absolute(int n) {
	vector<T> a = symv<T>("a", n); for (int i = 0; i < n; ++i) { T low = (T)1 << (sizeof(T) * 8 - 1); vp_assume(a[i] != low); }
	T m = mt_helper::compute_min_in_abs(&a[0], n), k = mt_helper::compute_abs_min(&a[0], n); vp_assert(k >= 0, "compute_abs_min is not negative"); int hit = 0, low = 0, hit2 = 0; for (int i = 0; i < n; ++i) { T b = a[i] < 0 ? (T)-a[i] : a[i]; hit |= m == a[i]; hit2 |= k == b; low |= b < k; } vp_assert(hit && hit2 && !low, "compute_abs_min is the smallest magnitude"); vp_assert((m < 0 ? (T)-m : m) == k, "compute_min_in_abs has the smallest magnitude"); vp_reach("selected");
}
template <class T> static void order() { T a = sym<T>("a", 0), b = sym<T>("b", 0); int w = a < b ? -1 : a > b ? 1 : 0; vp_assert(mt_helper::compare_value(a, b) == w, "compare_value orders every pair of integers"); vp_assert((mt_helper::max(a, b) == (a > b ? a : b)) & (mt_helper::min(a, b) == (a < b ? a : b)), "max and min pick one of their arguments"); vp_assert(mt_helper::is_same_symbol(a, b) == ((a >= 0 && b >= 0) || (a <= 0 && b <= 0)), "is_same_symbol compares signs"); vp_reach("compared"); }
template <class T> static void run(int mode, int n) { if (mode == 0) sorts<T>(n); else if (mode == 1) top<T>(n); else select_<T>(n); }
extern "C" void vp_main() {
	int mode = vp_param("MODE", 0), n = vp_param("N", 4), t = vp_param("T", 0);
	if (mode == 3) { if (t == 0) ints<i32>(n); else if (t == 1) ints<i8>(n); else ints<i64>(n); vp_end(); }
	if (mode == 4) { if (t == 0) absolute<i32>(n); else if (t == 1) absolute<i64>(n); else absolute<i8>(n); vp_end(); }
	if (mode == 5) { switch (vp_choose("type", 8)) { case 0: order<i32>(); break; case 1: order<u32>(); break; case 2: order<i64>(); break; case 3: order<u64>(); break; case 4: order<u8>(); break; case 5: order<i8>(); break; case 6: order<u16>(); break; default: order<i16>(); break; } vp_end(); }
	if (t == 0) run<i32>(mode, n); else if (t == 1) run<u8>(mode, n); else if (t == 2) run<f32>(mode, n); else if (t == 3) run<i64>(mode, n); else run<f64>(mode, n);
	vp_end();
}
