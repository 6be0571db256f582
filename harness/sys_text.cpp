// Text helpers: splitting, replacing, trimming, case, edit distance, formatting; names of paths.
#include "vp.h"
#include "stdafx.h"
#include "sys_strhelper.h"
#include "sys_strcombine.h"
#include "sys_path.h"
#include <string.h>
using namespace basicsys;
static string text(const char* nm, int n) { string s(n, 'x'); if (n) vp_bytes(nm, &s[0], n); return s; }
static bool at(const string& s, int i, const string& t) { if (i + (int)t.size() > (int)s.size()) return false; for (int k = 0; k < (int)t.size(); ++k) if (s[i + k] != t[k]) return false; return true; }
static bool same(const string& a, const string& b) { if (a.size() != b.size()) return false; int bad = 0; for (int i = 0; i < (int)a.size(); ++i) bad |= a[i] != b[i]; return bad == 0; }
static void split(int n, int m) {
	string s = text("text", n), t = text("tag", m), cur; vector<string> want, got; if (vp_choose("dirty", 2)) got.push_back("old");
	if (n) { if (!m) want.push_back(s); else { for (int i = 0; i < n;) { if (at(s, i, t)) { want.push_back(cur); cur = ""; i += m; } else cur += s[i++]; } want.push_back(cur); } }
	sys_strhelper::split(got, s, t); vp_assert(got.size() == want.size(), "splitting makes one element more than there are tags"); for (int i = 0; i < (int)got.size() && i < (int)want.size(); ++i) vp_assert(same(got[i], want[i]), "the elements are the texts between the tags"); vector<string> two = sys_strhelper::split(s, t); vp_assert(two.size() == got.size(), "both forms of split agree"); for (int i = 0; i < (int)two.size() && i < (int)got.size(); ++i) vp_assert(same(two[i], got[i]), "both forms of split agree"); vp_reach("text");
}
static void replace(int n, int m, int k) {
	string s = text("text", n), o = text("old", m), w = text("new", k), want, got = s; if (!m) want = s; else for (int i = 0; i < n;) { if (at(s, i, o)) { want += w; i += m; } else want += s[i++]; }
	sys_strhelper::replace(got, w, o); vp_assert(same(got, want), "replace replaces every occurrence from left to right, once"); vp_reach("text");
}
static void trim(int n) {
	string s = text("text", n), c = text("c", 1), got = s; int i = 0; while (i < n && s[i] == c[0]) ++i; sys_strhelper::trim_left(got, c[0]); vp_assert(same(got, s.substr(i)), "trim_left removes exactly the leading run of the character"); vp_reach("text");
}
static void letters(int n) {
	string s = text("text", n), u = s, l = s; sys_strhelper::upper(u); sys_strhelper::lower(l); vp_assert((int)u.size() == n && (int)l.size() == n, "changing case keeps the length"); int bad = 0; for (int i = 0; i < n; ++i) { char c = s[i]; bool lo = (c >= 'a') & (c <= 'z'), up = (c >= 'A') & (c <= 'Z'); bad |= u[i] != (char)(c - (lo ? 32 : 0)); bad |= l[i] != (char)(c + (up ? 32 : 0)); } vp_assert(bad == 0, "upper and lower change exactly the ascii letters of the other case");
	string t = text("other", n); bool eq = true, ic = true; for (int i = 0; i < n; ++i) { char a = s[i], b = t[i]; if ((a >= 'a') & (a <= 'z')) a -= 32; if ((b >= 'a') & (b <= 'z')) b -= 32; eq &= s[i] == t[i]; ic &= a == b; } vp_assert(sys_strhelper::equal(s, t) == eq && sys_strhelper::equal(s, t, false) == eq, "equal compares every character"); vp_assert(sys_strhelper::equal(s, t, true) == ic, "equal may ignore the case"); vp_assert(!sys_strhelper::equal(s, s + "a") && !sys_strhelper::equal(s + "b", s, true), "texts of different lengths differ"); vp_reach("text");
}
static const int COST[][3] = { { 1, 1, 1 }, { 1, 2, 3 }, { 3, 1, 2 }, { 5, 9, 5 }, { 200, 250, 170 }, { 0, 1, 4 }, { 70000, 80000, 90000 } };
static void edit(int n, int m, int pad, int ncost) {
	int k = ncost < 0 ? -ncost - 1 : vp_choose("costs", ncost); int ins = COST[k][0], rep = COST[k][1], del = COST[k][2]; bool ic = pad ? false : vp_choose("ignore_case", 2); string a = text("a", n), b = text("b", m); if (pad) { a += string(pad, 'p'); b += string(pad > 9 ? pad - 5 : pad, pad > 9 ? 'q' : 'p'); }
	int A = (int)a.size(), B = (int)b.size(); vector<int> row(B + 1), nx(B + 1); for (int j = 0; j <= B; ++j) row[j] = j * ins;
	for (int i = 1; i <= A; ++i) { nx[0] = i * del; for (int j = 1; j <= B; ++j) { char x = a[i - 1], y = b[j - 1]; if (ic) { if ((x >= 'a') & (x <= 'z')) x -= 32; if ((y >= 'a') & (y <= 'z')) y -= 32; } int v = row[j] + del, w = nx[j - 1] + ins, z = row[j - 1] + (x == y ? 0 : rep); v = w < v ? w : v; v = z < v ? z : v; nx[j] = v; } row.swap(nx); }
	int got = k == 0 && !ic ? sys_strhelper::levenshtein_distance(a, b) : sys_strhelper::levenshtein_distance(a, b, ins, rep, del, ic); vp_assert(got == row[B], "the distance is the least cost of changing the first word into the second"); vp_reach("text");
}
static string digits(unsigned long long v, bool neg) { string s; do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v); if (neg) s.insert(s.begin(), '-'); return s; }
template <class T> static void num(const T* edge, int n) { int k = vp_choose("edge", n); T v = (T)(edge[k] + (T)vp_choose("off", 2)); string s = sys_strcombine() << v, w = v < 0 ? digits(0ull - (unsigned long long)(long long)v, true) : digits((unsigned long long)v, false); vp_assert(same(s, w), "an integer is written in decimal"); }
static void format() {
	switch (vp_choose("type", 12)) {
	case 0: { u8 v; vp_bytes("v", &v, 1); string s = sys_strcombine() << v; int c = (int)vp_concretize(v); vp_assert(same(s, digits(c, false)), "an integer is written in decimal"); break; }
	case 1: { i8 v; vp_bytes("v", &v, 1); vp_assume(v != 0); string s = sys_strcombine() << v; vp_assert(s.size() == 1 && s[0] == v, "a character is written as itself"); break; }
	case 2: { static const i16 E[] = { 0, -1, 9, 99, -10, 32766, -32768 }; num(E, 7); break; }
	case 3: { static const u16 E[] = { 0, 9, 255, 32767, 65534 }; num(E, 5); break; }
	case 4: { static const i32 E[] = { 0, -1, 9, 99999, -100000, 2147483646, -2147483647 - 1 }; num(E, 7); break; }
	case 5: { static const u32 E[] = { 0, 9, 2147483647u, 4294967294u }; num(E, 4); break; }
	case 6: { static const i64 E[] = { 0, -1, 4294967295ll, -4294967297ll, 9223372036854775806ll, -9223372036854775807ll - 1 }; num(E, 6); break; }
	case 7: { static const u64 E[] = { 0, 9, 4294967295ull, 9223372036854775807ull, 18446744073709551614ull }; num(E, 5); break; }
	case 8: { u8 v; vp_bytes("v", &v, 1); b8 b = (v & 1) != 0; string s = sys_strcombine() << b; vp_assert(same(s, (v & 1) ? "true" : "false"), "a flag is written as true or false"); break; }
	case 9: { int n = vp_choose("n", 3); vector<string> v; string w = "["; for (int i = 0; i < n; ++i) { string t = text(i ? "e1" : "e0", i + 1); v.push_back(t); w += (i ? ", " : "") + t; } string s = sys_strcombine() << v; vp_assert(same(s, w + "]"), "a vector is written element by element"); break; }
	case 10: { map<string, i32> m; string k = text("k", 1); m[k] = 3; m[k + "z"] = -4; string s = sys_strcombine() << m; vp_assert(same(s, "{\n" + k + ":3\n" + k + "z:-4\n}"), "a map is written entry by entry"); break; }
	default: { string a = text("a", 2), b = text("b", 1); sys_strcombine x(a); x << b; sys_strcombine y; y << x << "c" << a; string s = y; vp_assert(same(s, a + b + "c" + a), "texts are written one after another"); const sys_strcombine z(b); string q = z << a; vp_assert(same(q, b + a) && same(string(z), b), "writing to a constant text leaves it as it was"); break; }
	}
	vp_reach("text");
}
static void names(int n) {
	string p = text("path", n), q = p; for (int i = 0; i < n; ++i) if (q[i] == '\\') q[i] = '/'; int ls = -1, ld = -1; for (int i = 0; i < n; ++i) { if (q[i] == '/') ls = i; } for (int i = ls + 1; i < n; ++i) if (q[i] == '.') ld = i;
	string name = q.substr(ls + 1); vp_assert(same(sys_path::get_file_name(p), name), "the file name is what follows the last separator"); vp_assert(same(sys_path::get_file_title(p), ld < 0 ? name : q.substr(ls + 1, ld - ls - 1)), "the title is the name up to its last dot");
	string ext = ld < 0 ? string() : q.substr(ld); for (int i = 0; i < (int)ext.size(); ++i) if ((ext[i] >= 'A') & (ext[i] <= 'Z')) ext[i] += 32; vp_assert(same(sys_path::get_file_extend_name(p), ext), "the extension starts at the last dot of the name, in lower case");
	if (ls >= 0) { vp_assert(same(sys_path::get_dir_path(p), q.substr(0, ls + 1)), "the directory is what precedes the name, with the separator"); if (ls == n - 1) { int b = -1; for (int i = 0; i < ls; ++i) if (q[i] == '/') b = i; vp_assert(same(sys_path::get_dir_name(p), q.substr(b + 1, ls - b - 1)), "the name of a directory is its last part"); } }
	vp_assert(sys_path::is_dir(p) == (n > 0 && ls == n - 1), "a path that ends with a separator is a directory"); vp_reach("text");
}
extern "C" void vp_main() {
	int n = vp_param("N", 3), m = vp_param("M", 1), k = vp_param("K", 1);
	switch (vp_param("MODE", 0)) { case 0: split(n, m); break; case 1: replace(n, m, k); break; case 2: trim(n); break; case 3: letters(n); break; case 4: edit(n, m, vp_param("PAD", 0), vp_param("COSTS", 7)); break; case 5: format(); break; default: names(n); break; }
	vp_end();
}
