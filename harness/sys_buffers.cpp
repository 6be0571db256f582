// Byte and string buffers, in memory and in files: what is written is what is read, at every position.
#include "vp.h"
#include "stdafx.h"
#include "sys_strcombine.h"
#include "sys_buffer.h"
#include <string.h>
#include <stdio.h>
using namespace basicsys;
// the reference: a sequence of bytes with a position
struct model { u8 b[256]; int n, p; model() : n(0), p(0) {} void put(const void* d, int k) { for (int i = 0; i < k; ++i) b[p + i] = ((const u8*)d)[i]; p += k; if (p > n) n = p; } };
static string text(const char* nm, int n) { string s(n, 'x'); if (n) vp_bytes(nm, &s[0], n); return s; }
static bool same(const string& a, const string& b) { if (a.size() != b.size()) return false; int bad = 0; for (int i = 0; i < (int)a.size(); ++i) bad |= a[i] != b[i]; return bad == 0; }
template <class T> static void putbin(sys_buffer_writer* w, model& r) { T v; vp_bytes("v", &v, sizeof(T)); vp_assert(w->write(v) == w, "a write gives the writer"); r.put(&v, sizeof(T)); }
static void seekw(sys_buffer_writer* w, model& r) { int k = vp_choose("seek", 3), to = vp_choose("to", r.n + 1); w->seek(k == 0 ? to : k == 1 ? to - r.p : to - r.n, k == 0 ? sys_File_Seek_Set : k == 1 ? sys_File_Seek_Cur : sys_File_Seek_End); r.p = to; }
static void seekr(sys_buffer_reader* w, model& r) { int k = vp_choose("seek", 3), to = vp_choose("to", r.n + 1); vp_assert(w->seek(k == 0 ? to : k == 1 ? to - r.p : to - r.n, k == 0 ? sys_File_Seek_Set : k == 1 ? sys_File_Seek_Cur : sys_File_Seek_End) == w, "a seek gives the reader"); r.p = to; }
static void wstep(sys_buffer_writer* w, sys_byte_buffer_writer* bw, model& r, bool bin, int ops) {
	int op = 0; static int set[20]; int oc = 0; for (int i = 0; i < 15; ++i) if (ops >> i & 1) set[oc++] = i; op = set[vp_choose("write", oc)];
	if (bin) switch (op) {
	case 0: putbin<u8>(w, r); break; case 1: putbin<i8>(w, r); break; case 2: putbin<u16>(w, r); break; case 3: putbin<i16>(w, r); break; case 4: putbin<u32>(w, r); break; case 5: putbin<i32>(w, r); break; case 6: putbin<u64>(w, r); break; case 7: putbin<i64>(w, r); break; case 8: putbin<f32>(w, r); break; case 9: putbin<f64>(w, r); break;
	case 10: { u8 v; vp_bytes("v", &v, 1); v &= 1; b8 b = v != 0; w->write(b); r.put(&v, 1); break; }
	case 11: { string s = text("s", vp_choose("length", 3)); w->write(s); r.put(s.data(), (int)s.size()); break; }
	case 12: { int n = vp_choose("length", 3); vector<u8> v(n); for (int i = 0; i < n; ++i) vp_bytes("e", &v[i], 1); bw->write(v); if (n) r.put(&v[0], n); break; }
	case 13: { w->write("ab"); r.put("ab", 2); break; }
	default: seekw(w, r); break;
	} else switch (op) {
	case 0: { u8 v = (u8)(249 + vp_choose("v", 7)); w->write(v); char c[4] = { '2', (char)('4' + (v >= 250)), (char)('0' + (v >= 250 ? v - 250 : 9)), 0 }; r.put(c, 3); break; }
	case 1: { i8 v = (i8)vp_int("v", -2, 3); vp_assume(v != 0); w->write(v); r.put(&v, 1); break; }
	case 2: { w->write((u16)65535); r.put("65535", 5); break; } case 3: { w->write((i16)-32768); r.put("-32768", 6); break; } case 4: { w->write((u32)4294967295u); r.put("4294967295", 10); break; } case 5: { w->write((i32)(-2147483647 - 1)); r.put("-2147483648", 11); break; }
	case 6: { w->write((u64)18446744073709551615ull); r.put("18446744073709551615", 20); break; } case 7: { w->write((i64)(-9223372036854775807ll - 1)); r.put("-9223372036854775808", 20); break; } case 8: { w->write((f32)0.5f); r.put("0.5000000", 9); break; } case 9: { w->write((f64)-2.25); r.put("-2.2500000000000000", 19); break; }
	case 10: { u8 v; vp_bytes("v", &v, 1); b8 b = (v & 1) != 0; w->write(b); if (v & 1) r.put("true", 4); else r.put("false", 5); break; }
	case 11: case 12: { string s = text("s", vp_choose("length", 3)); w->write(s); r.put(s.data(), (int)s.size()); break; }
	case 13: { w->write("ab"); r.put("ab", 2); break; }
	default: seekw(w, r); break;
	}
	vp_assert(w->position() == r.p, "the writer stands behind what it wrote"); vp_assert(w->get_status() == sys_IO_Status_OK, "the status stays ok");
}
template <class T, class F> static void getbin(sys_byte_buffer_reader* b, model& r, F f) { if (r.n - r.p < (int)sizeof(T)) return; T v = f(b); vp_assert(memcmp(&v, r.b + r.p, sizeof(T)) == 0, "a value reads back as it was written"); r.p += sizeof(T); }
static void rstep(sys_buffer_reader* rd, model& r, bool bin, int ops) {
	static int set[20]; int oc = 0; for (int i = 0; i < 16; ++i) if (ops >> i & 1) set[oc++] = i; int op = set[vp_choose("read", oc)], left = r.n - r.p; sys_byte_buffer_reader* b = bin ? rd->to_byte_buffer_reader() : NULL; sys_string_buffer_reader* s = bin ? NULL : rd->to_string_buffer_reader(); vp_assert((b != NULL) == bin && (s != NULL) == !bin, "a reader is its own kind"); vp_assert((rd->is_string_buffer() != 0) == !bin, "a reader tells its kind");
	if (op == 15) { if (bin && !vp_choose("string", 2)) { int k = left + 1; u8 t[300]; memset(t, 7, sizeof t); b->read(t, k); vp_assert(t[0] == 7, "nothing is read beyond the end"); } else { string t = "keep"; rd->read_str(t, left + 1); vp_assert(t == "keep", "nothing is read beyond the end"); } vp_assert(rd->get_status() == sys_IO_Status_Error_Eof, "reading beyond the end is reported"); vp_assert(rd->position() == r.p, "reading beyond the end moves nothing"); vp_reach("buffer"); vp_end(); }
	if (op == 14) seekr(rd, r);
	else if (!bin && op == 10) { if (!left) return; string t((const char*)r.b + r.p, left); vp_assert(s->read(left) == atof(t.c_str()), "a number reads back as it was written"); r.p += left; }
	else if (op == 11 || (!bin && op < 11)) { string t; int k = vp_choose("size", 4); if (k > left) return; if (vp_choose("by_value", 2)) t = rd->read_str(k); else { t = "old"; rd->read_str(t, k); } vp_assert(same(t, string((const char*)r.b + r.p, k)), "a text reads back as it was written"); r.p += k; }
	else if (bin) switch (op) {
	case 0: getbin<u8>(b, r, [](sys_byte_buffer_reader* q) { return q->read_u8(); }); break; case 1: getbin<i8>(b, r, [](sys_byte_buffer_reader* q) { return q->read_c8(); }); break; case 2: getbin<u16>(b, r, [](sys_byte_buffer_reader* q) { return q->read_u16(); }); break; case 3: getbin<i16>(b, r, [](sys_byte_buffer_reader* q) { return q->read_i16(); }); break; case 4: getbin<u32>(b, r, [](sys_byte_buffer_reader* q) { return q->read_u32(); }); break;
	case 5: getbin<i32>(b, r, [](sys_byte_buffer_reader* q) { return q->read_i32(); }); break; case 6: getbin<u64>(b, r, [](sys_byte_buffer_reader* q) { return q->read_u64(); }); break; case 7: getbin<i64>(b, r, [](sys_byte_buffer_reader* q) { return q->read_i64(); }); break; case 8: getbin<f32>(b, r, [](sys_byte_buffer_reader* q) { return q->read_f32(); }); break; case 9: getbin<f64>(b, r, [](sys_byte_buffer_reader* q) { return q->read_f64(); }); break; case 10: getbin<b8>(b, r, [](sys_byte_buffer_reader* q) { return q->read_b8(); }); break;
	case 12: { if (left < 1) return; int k = 1 + vp_choose("size", left < 3 ? left : 3); vector<u8> v; if (vp_choose("dirty", 2)) v.resize(9, 1); b->read(v, k); vp_assert((int)v.size() == k, "as many bytes are read as asked for"); vp_assert((int)v.size() == k && memcmp(&v[0], r.b + r.p, k) == 0, "bytes read back as they were written"); r.p += k; break; }
	default: { u8 v[4] = { 9, 9, 9, 9 }; int k = vp_choose("size", left < 3 ? left + 1 : 4); b->read(v, k); int bad = 0; for (int i = 0; i < 4; ++i) bad |= i < k ? v[i] != r.b[r.p + i] : v[i] != 9; vp_assert(bad == 0, "bytes read back as they were written, and no more"); r.p += k; break; }
	} else if (op == 12) { if (!left) return; i8 c = s->read_char(); vp_assert(c == (i8)r.b[r.p], "a character reads back as it was written"); ++r.p; }
	else { if (!left) { s->read_line(); vp_assert(s->get_status() == sys_IO_Status_Error_Eof, "a line beyond the end is reported"); vp_reach("buffer"); vp_end(); } string t, w; int e = r.p; while (e < r.n && r.b[e] != '\n') w += (char)r.b[e++]; if (vp_choose("by_value", 2)) t = s->read_line(); else { t = "old"; s->read_line(t); } vp_assert(same(t, w), "a line reads up to its end"); r.p = e < r.n ? e + 1 : e; }
	vp_assert(rd->position() == r.p, "the reader stands behind what it read"); vp_assert(rd->size() == r.n && rd->remain_size() == r.n - r.p && (rd->is_eof() != 0) == (r.p == r.n), "a reader knows its size and its rest"); vp_assert(rd->get_status() == sys_IO_Status_OK, "the status stays ok");
}
extern "C" void vp_main() {
	int kind = vp_param("KIND", 0), nw = vp_param("W", 2), nr = vp_param("R", 2), wo = vp_param("WOPS", 0x7fff), ro = vp_param("ROPS", 0xffff), app = vp_param("APPEND", 0); bool bin = kind < 2, file = kind & 1; model r; vector<u8> mem; string str; string path = file ? vp_scratch_file("buffer") : ""; if (file) { FILE* warm = fopen(vp_scratch_file("warm"), "wb"); fclose(warm); } int open0 = vp_open_files(); if (!file && vp_choose("reserved", 2)) { mem.reserve(200); str.reserve(200); }
	for (int round = 0; round <= app; ++round) {
		bool give = file && app == 0 && vp_param("GIVE", 0); FILE* f = give ? fopen(path.c_str(), "wb") : NULL; sys_buffer_writer* w; sys_byte_buffer_writer* bw = NULL;
		if (kind == 0) w = bw = new sys_byte_buffer_writer(&mem); else if (kind == 1) w = bw = give ? new sys_byte_file_buffer_writer(f, vp_param("GIVE", 0) == 2) : new sys_byte_file_buffer_writer(path, round > 0); else if (kind == 2) w = new sys_string_buffer_writer(&str); else w = give ? new sys_string_file_buffer_writer(f, vp_param("GIVE", 0) == 2) : new sys_string_file_buffer_writer(path, round > 0);
		vp_assert((w->is_string_buffer() != 0) == !bin, "a writer tells its kind"); vp_assert(!w->is_closed(), "a new writer is open"); if (kind == 0 && round) w->seek(0, sys_File_Seek_End); if (kind == 2 && round) w->seek(0, sys_File_Seek_End); r.p = r.n; vp_assert(w->position() == r.p, "a writer starts at the end of what it appends to"); for (int i = 0; i < nw; ++i) wstep(w, bw, r, bin, wo); if (vp_param("CLOSE", 0) && vp_choose("close", 2)) { w->close(); vp_assert((w->is_closed() != 0) == file, "a file is closed once"); } delete w; if (give && vp_param("GIVE", 0) == 1) { vp_assert(vp_open_files() == open0 + 1, "a file that was passed in stays open"); fclose(f); } vp_assert(vp_open_files() == open0, "a writer closes its file");
	}
	if (kind == 0) vp_assert((int)mem.size() == r.n && (!r.n || memcmp(&mem[0], r.b, r.n) == 0), "memory holds what was written"); if (kind == 2) vp_assert(same(str, string((const char*)r.b, r.n)), "memory holds what was written");
	mem.push_back(0); sys_buffer_reader* rd = kind == 0 ? (sys_buffer_reader*)new sys_byte_buffer_reader(&mem[0], &mem[0] + mem.size() - 1) : kind == 1 ? (sys_buffer_reader*)new sys_byte_file_buffer_reader(path) : kind == 2 ? (sys_buffer_reader*)new sys_string_buffer_reader(str) : (sys_buffer_reader*)new sys_string_file_buffer_reader(path); r.p = 0; vp_assert(rd->size() == r.n && rd->position() == 0, "a reader starts at the beginning of everything written"); for (int i = 0; i < nr; ++i) rstep(rd, r, bin, ro);
	if (vp_param("CLOSE", 0) && vp_choose("close", 2)) { rd->close(); vp_assert((rd->is_closed() != 0) == file, "a file is closed once"); } delete rd; vp_assert(vp_open_files() == open0, "a reader closes its file"); if (file) { sys_byte_file_buffer_reader none(vp_scratch_file("none")); vp_assert(none.get_status() == sys_IO_Status_Error_File_Operation && none.is_closed(), "a missing file is reported"); sys_string_file_buffer_reader none2(vp_scratch_file("none")); vp_assert(none2.get_status() == sys_IO_Status_Error_File_Operation && none2.is_closed(), "a missing file is reported"); }
	vp_reach("buffer"); vp_end();
}
