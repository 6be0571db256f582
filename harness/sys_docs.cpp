// Documents: what the json writer writes, as text or bytes, in memory or in a file, the reader reads back.
#include "vp.h"
#include "stdafx.h"
#include "sys_strcombine.h"
#include "sys_buffer.h"
#include "sys_json.h"
#include <string.h>
#include <stdio.h>
using namespace basicsys;
using basicmath::mt_mat; using basicmath::mt_Depth; using basicmath::mt_Depth_Channel; using basicmath::mt_mat_helper; using basicmath::mt_F32; using basicmath::mt_F64;
static int TXT, FIL; static vector<u8> mem; static string str, path; static sys_buffer_writer* W; static sys_buffer_reader* R; static int open0;
// texts without the characters the format reserves; keys are not empty and hold no colon
static string text(const char* nm, int n, bool key) { string s(n, 'x'); if (n) vp_bytes(nm, &s[0], n); for (int i = 0; i < n; ++i) { u8 c = (u8)s[i]; vp_assume((c != 0) & (c != '\n') & (c != '\t') & (c != '{') & (c != '}') & (c != '[') & (c != ']')); if (key) vp_assume(c != ':'); } return s; }
static bool same(const string& a, const string& b) { if (a.size() != b.size()) return false; int bad = 0; for (int i = 0; i < (int)a.size(); ++i) bad |= a[i] != b[i]; return bad == 0; }
static void begin() { if (FIL) { path = vp_scratch_file("doc"); fclose(fopen(vp_scratch_file("warm"), "wb")); } open0 = vp_open_files(); if (TXT) W = FIL ? (sys_buffer_writer*)new sys_string_file_buffer_writer(path) : (sys_buffer_writer*)new sys_string_buffer_writer(&str); else W = FIL ? (sys_buffer_writer*)new sys_byte_file_buffer_writer(path) : (sys_buffer_writer*)new sys_byte_buffer_writer(&mem); }
static void turn() { delete W; mem.push_back(0); if (TXT) R = FIL ? (sys_buffer_reader*)new sys_string_file_buffer_reader(path) : (sys_buffer_reader*)new sys_string_buffer_reader(str); else R = FIL ? (sys_buffer_reader*)new sys_byte_file_buffer_reader(path) : (sys_buffer_reader*)new sys_byte_buffer_reader(&mem[0], &mem[0] + mem.size() - 1); if (vp_param("MOVED", 0) && R->size() > 0) R->seek(vp_choose("stands", (int)R->size() + 1), sys_File_Seek_Set); }
static void finish() { delete R; vp_assert(vp_open_files() == open0, "files are closed"); vp_reach("document"); vp_end(); }
template <class T> static T value(const T* edge, int n) { if (TXT) { int k = vp_choose("edge", n); return (T)edge[k]; } T v; vp_bytes("v", &v, sizeof(T)); return v; }
template <class T> static bool bits(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> static void scalar(const T* edge, int n) { string k = text("key", 1 + vp_choose("length", 2), true); T v = value<T>(edge, n); if (v != v) vp_end(); begin(); { sys_json_writer w(W); w << "a1" << "first" << k << v << "z9" << "last"; } vp_assume(!(k == "a1") && !(k == "z9") && !(k == "b1")); turn(); { sys_json_reader r(R); vp_assert(r.size() == 3 && r.is_map(), "a map counts its entries"); vp_assert(r.has_key(k) && r.has_key("a1") && !r.has_key("b1"), "a map has the keys written"); T g = 77; r[k] >> g; vp_assert(bits(g, v), "a value reads back as it was written"); T h = 55; r[k] >> h; vp_assert(bits(h, v), "a value reads back twice"); vp_assert(same(r["a1"].to_string(), "first") && same(r["z9"].to_string(), "last"), "the neighbours read back"); vp_assert(same(r[k].node_name(), k), "a node knows its name"); } finish(); }
static void scalars(int ops) {
	static int set[16]; int oc = 0; for (int i = 0; i < 12; ++i) if (ops >> i & 1) set[oc++] = i;
	switch (set[vp_choose("type", oc)]) {
	case 0: { static const u8 E[] = { 0, 9, 127, 128, 255 }; scalar(E, 5); break; } case 1: { static const i8 E[] = { 0, -1, 127, -128, 'A' }; scalar(E, 5); break; } case 2: { static const u16 E[] = { 0, 32767, 32768, 65535 }; scalar(E, 4); break; } case 3: { static const i16 E[] = { 0, -1, 32767, -32768 }; scalar(E, 4); break; }
	case 4: { static const u32 E[] = { 0, 2147483647u, 2147483648u, 4294967295u }; scalar(E, 4); break; } case 5: { static const i32 E[] = { 0, -1, 2147483647, -2147483647 - 1 }; scalar(E, 4); break; } case 6: { static const u64 E[] = { 0, 9007199254740993ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull }; scalar(E, 5); break; } case 7: { static const i64 E[] = { 0, -1, 9007199254740993ll, 9223372036854775807ll, -9223372036854775807ll - 1 }; scalar(E, 5); break; }
	case 8: { static const f32 E[] = { 0, -0.5f, 1e-10f, 16777217.0f, 3.4e38f, 0.1f, 1.17e-38f }; scalar(E, 7); break; } case 9: { static const f64 E[] = { 0, -0.5, 1e-300, 9007199254740993.0, 1.7e308, 0.1, 1.0 / 3 }; scalar(E, 7); break; }
	case 10: { u8 b; vp_bytes("v", &b, 1); b8 v = (b & 1) != 0; begin(); { sys_json_writer w(W); w << "k" << v << "m" << !v; } turn(); { sys_json_reader r(R); b8 g, h; r["k"] >> g; r["m"] >> h; vp_assert((g != 0) == (b & 1) && (h != 0) == !(b & 1), "a flag reads back"); vp_assert((r["k"].to_b8() != 0) == (b & 1), "a flag reads back"); } finish(); break; }
	default: { string k = text("key", 1 + vp_choose("length", 2), true), v = text("text", vp_choose("size", 4), false); int pos = vp_choose("position", 3); begin(); { sys_json_writer w(W); if (pos > 0) w << "a1" << ""; w << k << v; if (pos < 2) w << "z9" << "last"; } vp_assume(!(k == "a1") && !(k == "z9")); turn(); { sys_json_reader r(R); vp_assert(r.size() == 1 + (pos > 0) + (pos < 2), "a map counts its entries"); string g = "old"; r[k] >> g; vp_assert(same(g, v), "a text reads back as it was written"); vp_assert(same(r[k].to_string(), v), "a text reads back as it was written"); if (pos > 0) vp_assert(same(r["a1"].to_string(), ""), "the neighbours read back"); if (pos < 2) vp_assert(same(r["z9"].to_string(), "last"), "the neighbours read back"); vector<string> one; if (vp_choose("dirty", 2)) one.push_back("old"); r[k] >> one; vp_assert(one.size() == 1 && same(one[0], v), "a text reads as a vector of one"); } finish(); break; }
	}
}
template <class C> static void whole(const C& v, bool (*eq)(const C&, const C&)) { begin(); { sys_json_writer w(W); w << "a" << "x" << "k" << v << "z" << "y"; } turn(); { sys_json_reader r(R); C g = v; if (vp_choose("dirty", 2)) g = C(); r["k"] >> g; vp_assert(eq(g, v), "a container reads back as it was written"); vp_assert(r["k"].size() == (int)v.size(), "a node counts its elements"); vp_assert(r["a"].to_string() == "x" && r["z"].to_string() == "y", "the neighbours read back"); } finish(); }
static bool eqs(const string& a, const string& b) { return same(a, b); }
template <class T> static bool eqv(const vector<T>& a, const vector<T>& b) { if (a.size() != b.size()) return false; for (int i = 0; i < (int)a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }
static bool eqvs(const vector<string>& a, const vector<string>& b) { if (a.size() != b.size()) return false; for (int i = 0; i < (int)a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
static bool eqvv(const vector<vector<string> >& a, const vector<vector<string> >& b) { if (a.size() != b.size()) return false; for (int i = 0; i < (int)a.size(); ++i) if (!eqvs(a[i], b[i])) return false; return true; }
static bool eqv3(const vector<vector<vector<string> > >& a, const vector<vector<vector<string> > >& b) { if (a.size() != b.size()) return false; for (int i = 0; i < (int)a.size(); ++i) if (!eqvv(a[i], b[i])) return false; return true; }
static bool eq1(const string& a, const string& b) { return same(a, b); }
static bool eq1(const vector<string>& a, const vector<string>& b) { return eqvs(a, b); }
template <class T> static bool eqm(const map<string, T>& a, const map<string, T>& b) { if (a.size() != b.size()) return false; typename map<string, T>::const_iterator i = a.begin(), j = b.begin(); for (; i != a.end(); ++i, ++j) if (!same(i->first, j->first) || !eq1(i->second, j->second)) return false; return true; }
template <class T> static bool eqvm(const vector<map<string, T> >& a, const vector<map<string, T> >& b) { if (a.size() != b.size()) return false; for (int i = 0; i < (int)a.size(); ++i) if (!eqm<T>(a[i], b[i])) return false; return true; }
static vector<string> strings(const char* nm, int most, int len) { vector<string> v; int n = vp_choose("number", most + 1); for (int i = 0; i < n; ++i) v.push_back(text(nm, vp_choose("size", len + 1), false)); return v; }
static void containers(int ops) {
	static int set[16]; int oc = 0; for (int i = 0; i < 8; ++i) if (ops >> i & 1) set[oc++] = i;
	switch (set[vp_choose("container", oc)]) {
	case 0: whole<vector<string> >(strings("s", 3, 2), eqvs); break;
	case 1: { vector<vector<string> > v; int n = vp_choose("rows", 4); for (int i = 0; i < n; ++i) v.push_back(strings("s", 2, 1)); whole<vector<vector<string> > >(v, eqvv); break; }
	case 2: { vector<vector<vector<string> > > v; int n = vp_choose("planes", 3); for (int i = 0; i < n; ++i) { v.push_back(vector<vector<string> >()); int m = vp_choose("rows", 3); for (int j = 0; j < m; ++j) { v.back().push_back(vector<string>()); int q = vp_choose("number", 3); for (int z = 0; z < q; ++z) v.back().back().push_back(z ? "" : text("s", 1, false)); } } whole<vector<vector<vector<string> > > >(v, eqv3); break; }
	case 3: { vector<i32> v; int n = vp_choose("number", 4); for (int i = 0; i < n; ++i) { i32 x; if (TXT) x = vp_choose("v", 3) * 70000 - 70000; else vp_bytes("v", &x, 4); v.push_back(x); } whole<vector<i32> >(v, eqv<i32>); break; }
	case 4: { vector<u8> v; int n = vp_choose("number", 4); for (int i = 0; i < n; ++i) { u8 x; if (TXT) x = (u8)(vp_choose("v", 3) * 100); else vp_bytes("v", &x, 1); v.push_back(x); } whole<vector<u8> >(v, eqv<u8>); break; }
	case 5: { map<string, string> m; int n = vp_choose("number", 3); for (int i = 0; i < n; ++i) m[text("k", 1, true) + (i ? "q" : "")] = text("s", vp_choose("size", 2), false); whole<map<string, string> >(m, eqm<string>); break; }
	case 6: { map<string, vector<string> > m; int n = vp_choose("number", 3); for (int i = 0; i < n; ++i) m[text("k", 1, true) + (i ? "q" : "")] = strings("s", 2, 1); whole<map<string, vector<string> > >(m, eqm<vector<string> >); break; }
	default: { vector<map<string, string> > v; int n = vp_choose("number", 3); for (int i = 0; i < n; ++i) { v.push_back(map<string, string>()); int q = vp_choose("entries", 3); for (int z = 0; z < q; ++z) v.back()[z ? "b" : "a"] = text("s", vp_choose("size", 2), false); } whole<vector<map<string, string> > >(v, eqvm<string>); break; }
	}
}
// a document written token by token: people with names, a list of towns and a map of marks
struct person { string name; vector<string> towns; map<string, string> marks; bool hasm; };
static void people() {
	int n = vp_choose("people", 3); vector<person> p; for (int i = 0; i < n; ++i) { person q; q.name = text("name", 1, false); q.towns = strings("town", 2, 1); q.hasm = vp_choose("marks", 2) != 0; if (q.hasm) { q.marks["m"] = text("mark", 1, false); } p.push_back(q); } bool seq = vp_choose("sequence", 2) != 0; string tail = text("tail", 1, false);
	begin(); { sys_json_writer w(W); w << "people" << (seq ? "[" : "{"); for (int i = 0; i < n; ++i) { if (!seq) w << (i ? "p1" : "p0"); w << "{" << "name" << p[i].name << "towns" << p[i].towns; if (p[i].hasm) w << "marks" << "{" << "m" << p[i].marks["m"] << "}"; w << "}"; } w << (seq ? "]" : "}") << "empty" << "{" << "}" << "none" << "[" << "]" << "tail" << tail; } turn();
	{ sys_json_reader r(R); vp_assert(r.size() == 4, "a map counts its entries"); sys_json_reader q = r["people"]; vp_assert((q.is_seq() != 0) == seq && (q.is_map() != 0) == !seq, "a node tells its kind"); vp_assert(q.size() == n, "a node counts its elements"); vp_assert(r["empty"].size() == 0 && r["empty"].is_map() && r["none"].size() == 0 && r["none"].is_seq() && same(r["tail"].to_string(), tail), "empty nodes and what follows them read back");
		for (int i = 0; i < n; ++i) { sys_json_reader e = seq ? q[i] : q[i ? "p1" : "p0"]; vp_assert(same(e["name"].to_string(), p[i].name), "a nested text reads back"); vector<string> t; e["towns"] >> t; vp_assert(eqvs(t, p[i].towns), "a nested list reads back"); for (int j = 0; j < (int)p[i].towns.size() && j < (int)t.size(); ++j) vp_assert(same(e["towns"][j].to_string(), p[i].towns[j]), "an element is reached by its index"); vp_assert((e.has_key("marks") != 0) == p[i].hasm && e.size() == (p[i].hasm ? 3 : 2), "a nested map has the keys written"); if (p[i].hasm) vp_assert(same(e["marks"]["m"].to_string(), p[i].marks["m"]), "a nested map reads back"); }
		int c = 0; sys_json_reader_iteartor it = q.begin(), e = q.end(); while (it != e && c < 5) { sys_json_reader x = *it; if (c < n) vp_assert(same(x["name"].to_string(), p[c].name), "iteration visits every element in order"); ++c; if (c & 1) ++it; else { sys_json_reader_iteartor o = it++; vp_assert(o != it, "an iterator moves on"); } } vp_assert(c == n, "iteration visits every element once"); if (seq && n == 2) { it = q.begin(); it += 1; vp_assert(same((*it)["name"].to_string(), p[1].name), "an iterator jumps"); it -= 1; vp_assert(it == q.begin(), "an iterator jumps back"); } if (n == 2) { it = q.end(); --it; vp_assert(same((*it)["name"].to_string(), p[1].name), "an iterator steps back"); it--; vp_assert(it == q.begin(), "an iterator steps back"); } }
	finish();
}
// a sequence as the document itself
static void sequence() {
	int n = vp_choose("number", 3), kind = TXT ? 1 + vp_choose("kind", 2) : vp_choose("kind", 3); vector<string> s; for (int i = 0; i < n; ++i) s.push_back(text("s", 1, false)); begin(); { sys_json_writer w(W, sys_false); for (int i = 0; i < n; ++i) { if (kind == 0) w << s[i]; else if (kind == 1) w << "{" << "k" << s[i] << "}"; else w << "[" << s[i] << "]"; } } turn();
	{ sys_json_reader r(R, "", 0, -1, sys_Node_Type_Seq); vp_assert(r.size() == n, "a node counts its elements"); for (int i = 0; i < n && i < r.size(); ++i) vp_assert(same(kind == 0 ? r[i].to_string() : kind == 1 ? r[i]["k"].to_string() : r[i][0].to_string(), s[i]), "an element is reached by its index"); } finish();
}
// matrices
static void matrices() {
	static const int S[][6] = { { 1, 3 }, { 2, 2, 2 }, { 3, 2, 1, 2 }, { 2, 1, 1 }, { 4, 1, 2, 1, 2 } }; int d = vp_param("D", 0), ch = vp_param("CH", 1); const int* s = S[vp_choose("shape", vp_param("SHAPES", 5))]; int nd = *s++, n = ch; for (int i = 0; i < nd; ++i) n *= s[i]; mt_mat m(nd, (int*)s, mt_Depth_Channel((mt_Depth)d, ch)); int ds = mt_Depth_Channel((mt_Depth)d, ch).depth_size();
	if (TXT) { for (int i = 0; i < n; ++i) { u8* p = m.data() + i * ds; int e = i == 0 ? vp_choose("edge", 4) : i; long long v = e == 0 ? 0 : e == 1 ? 255 : e == 2 ? -1 : 77 * i; switch (d) { case mt_F32: *(f32*)p = e == 1 ? 1e-9f : 0.1f * v; break; case mt_F64: *(f64*)p = e == 1 ? 1e-19 : 0.1 * v; break; default: for (int k = 0; k < ds; ++k) p[k] = (u8)(v >> (k > 7 ? 56 : 8 * k)); } } } else { vp_bytes("m", m.data(), n * ds); if (d == mt_F32) for (int i = 0; i < n; ++i) vp_assume(((f32*)m.data())[i] == ((f32*)m.data())[i]); if (d == mt_F64) for (int i = 0; i < n; ++i) vp_assume(((f64*)m.data())[i] == ((f64*)m.data())[i]); }
	mt_mat src = m; int lay = vp_choose("layout", 3); if (lay == 1 && nd == 2) src = m.t(); else if (lay == 1) src = m.sub(0, (s[0] + 1) / 2, 0); else if (lay == 2) src = m.flip(vector<b8>(nd, sys_true)); mt_mat g; if (FIL) { string f = vp_scratch_file("mat"); mt_mat_helper::save(f, src, TXT); g = mt_mat_helper::load(f, TXT); } else { begin(); mt_mat_helper::save(W, src); turn(); g = mt_mat_helper::load(R); }
	vp_assert(g.dim() == src.dim() && g.depth() == src.depth() && g.channel() == src.channel(), "a saved mat loads with its dimensions, depth and channels"); if (g.dim() != src.dim() || g.depth() != src.depth() || g.channel() != src.channel()) vp_end(); for (int i = 0; i < nd; ++i) vp_assert(g.size()[i] == src.size()[i], "a saved mat loads with its sizes"); for (int i = 0; i < nd; ++i) if (g.size()[i] != src.size()[i]) vp_end();
	int bad = 0; vector<int> ix(nd); for (int e = 0; e < n / ch; ++e) { int k = e; for (int i = nd - 1; i >= 0; --i) { ix[i] = k % src.size()[i]; k /= src.size()[i]; } const u8 *a = src.data(), *b = g.data(); for (int i = 0; i < nd; ++i) { a += (long)ix[i] * src.step()[i]; b += (long)ix[i] * g.step()[i]; } for (int k2 = 0; k2 < ch * ds; ++k2) bad |= a[k2] != b[k2]; } vp_assert(bad == 0, "a saved mat loads with every element"); vp_reach("document"); vp_end();
}
extern "C" void vp_main() {
	TXT = vp_param("TXT", 0); FIL = vp_param("FIL", 0); int ops = vp_param("OPS", 0xffff); switch (vp_param("MODE", 0)) { case 0: scalars(ops); break; case 1: containers(ops); break; case 2: people(); break; case 3: sequence(); break; default: matrices(); break; }
}
