// Memory that is handed out in pieces: mt_block_memory and the mat cache.
#include "vp.h"
#include "stdafx.h"
#include "mt_block_memory.h"
#include "mt_mat_cache.h"
#include <string.h>
using namespace basicsys;
using namespace basicmath;
struct rec { i32 id, inv; rec() { id = -7; inv = 7; } };
enum { MAXE = 16 };
struct shadow { rec* p[MAXE]; int v[MAXE]; int n; rec* spare[MAXE]; int ns; };
static void same(mt_block_memory<rec>& b, const shadow& s, int base, int step) {
	vp_assert(b.m_element_number == s.n, "the number of elements counts those added");
	for (int i = 0; i < s.n; ++i) { vp_assert(&b.at(i) == s.p[i] && b.at(i).id == s.v[i] && b.at(i).inv == ~s.v[i], "at returns the element added at that place"); vp_assert(b.in_block(s.p[i]) != 0, "in_block knows its elements"); }
	int c = 0; mt_block_memory<rec>::block_pos bp;
	for (;;) { basicmath_block_memory_visit(b, bp); vp_assert(c < s.n && bp.m_data == s.p[c], "a visit goes through the elements in order"); if (c >= s.n) vp_end(); ++c; }
	vp_assert(c == s.n, "a visit reaches every element");
	rec other; vp_assert(b.in_block(&other) == 0, "in_block rejects other memory"); rec* nx; basicmath_block_memory_get(b, nx, rec); if (b.m_reuse_number == 0) vp_assert(b.in_block(nx) == 0, "in_block rejects what was not added yet");
	u64 blocks = (u64)(s.n / (1 << base) + 1); vp_assert(b.memory_size() >= blocks * ((u64)1 << base) * sizeof(rec), "memory_size covers the elements");
}
static void blocks(int steps) {
	int base = vp_choose("exponent", 3), usenew = vp_choose("use new", 2), reuse = vp_choose("reuse", 3); long long heap0 = vp_heap_bytes();
	{
		mt_block_memory<rec> b(vp_choose("late", 2) ? -1 : base, (b8)usenew, reuse); if (b.m_datas.empty()) b.init(base, (b8)usenew, reuse);
		shadow s; s.n = 0; s.ns = 0; int next = 100;
		for (int k = 0; k <= steps; ++k) {
			switch (k == steps ? 0 : vp_choose("step", 3)) {
			case 0: { // take one element (or three)
				int q = 0; for (int m = k % 2 || k == steps ? 3 : 1; q < m; ++q) { if (s.n >= MAXE) break;
					rec* d; basicmath_block_memory_get(b, d, rec); bool again = b.m_reuse_number > 0; if (again) { vp_assert(s.ns > 0 && d == s.spare[s.ns - 1], "an element given back is handed out again, the last one first"); if (!s.ns) vp_end(); --s.ns; } else for (int i = 0; i < s.n; ++i) vp_assert(d != s.p[i], "a new element is not one that is in use");
					if (usenew && !again) { vp_assert(s.ns == 0, "elements given back are used first"); }
					d->id = next; d->inv = ~next; basicmath_block_memory_add(b); if (!again) { s.p[s.n] = d; s.v[s.n] = next; ++s.n; } else for (int i = 0; i < s.n; ++i) if (s.p[i] == d) s.v[i] = next; ++next; } break; }
			case 1: if (s.n) { int i = vp_choose("element", s.n); bool dup = false; for (int j = 0; j < s.ns; ++j) dup |= s.spare[j] == s.p[i]; if (dup) break; rec* d = s.p[i]; basicmath_block_memory_reuse(b, d); if (s.ns < reuse) s.spare[s.ns++] = d; vp_assert(b.m_reuse_number == s.ns, "as many elements are kept for reuse as allowed"); } break;
			default: { int w = vp_choose("again", 3); s.n = s.ns = 0; if (w == 0) b.reset(); else if (w == 1) { base = (base + 1) % 3; b.init(base, (b8)usenew, reuse); } else { b.clear(); vp_assert(b.m_element_number == 0 && b.memory_size() == 0, "clear gives everything back"); reuse = 2 - reuse; b.init(base, (b8)usenew, reuse); } break; }
			}
			same(b, s, base, k);
		}
		vp_reach("memory");
	}
	vp_assert(vp_heap_bytes() == heap0, "block memory gives all its memory back");
}
// ---- the cache of mats
enum { LIVE = 6 };
struct owned { mt_mat m; int tag; bool used; };
static void fill(owned& o, int tag) { o.tag = tag; o.used = true; u8* p = o.m.memory_data(); memset(p, tag, o.m.memory_size()); }
static void check(owned* o) {
	for (int i = 0; i < LIVE; ++i) if (o[i].used) {
		const u8* p = o[i].m.memory_data(); int n = o[i].m.memory_size(), bad = 0; for (int k = 0; k < n; ++k) bad |= p[k] != (u8)o[i].tag; vp_assert(!bad, "a mat taken from the cache keeps its content while it is in use");
		for (int j = 0; j < i; ++j) if (o[j].used && o[j].tag != o[i].tag) vp_assert(!o[i].m.is_memory_shared(o[j].m), "two mats in use do not share memory");
	}
}
static int pick(owned* o, int live) { int q = vp_choose("mat", live); for (int i = 0; i < LIVE; ++i) if (o[i].used && q-- == 0) return i; return 0; }
static void cache(int steps) {
	bool on = vp_choose("cache enabled", 2) == 1; mt_auto_mat_cache* a = on ? new mt_auto_mat_cache() : 0; i64 size0 = mt_mat_cache::get_memory_size();
	{
		owned o[LIVE]; for (int i = 0; i < LIVE; ++i) o[i].used = false; int tag = 1;
		for (int k = 0; k < steps; ++k) {
			int f = 0; while (f < LIVE && o[f].used) ++f; int live = 0; for (int i = 0; i < LIVE; ++i) live += o[i].used ? 1 : 0;
			switch (k == 0 ? 0 : vp_choose("step", 5)) {
			case 0: { if (f == LIVE) break; int sh = vp_choose("shape", 3); i32 sz[3] = {2, 1 + sh, 2}; int dim = sh == 2 ? 3 : 2; mt_Depth_Channel dc = sh == 1 ? mt_F32C2 : mt_U8C1; vector<i32> v(sz, sz + dim); bool vec = k % 2 == 1; mt_mat t = vec ? s_mat_cache.get(v, dc) : s_mat_cache.get(dim, sz, dc);
				bool ok = t.dim() == dim && t.depth_channel() == dc && t.is_continuous(); for (int i = 0; ok && i < dim; ++i) ok = t.size()[i] == sz[i]; vp_assert(ok, "the cache gives a mat of the shape and type asked for"); o[f].m = t; fill(o[f], tag++); break; }
			case 1: { if (!live || f == LIVE) break; int i = pick(o, live); mt_mat t = s_mat_cache.get_as(o[i].m); vp_assert(t.is_same_size(o[i].m) && !t.is_memory_shared(o[i].m), "get_as gives a new mat of the same shape"); o[f].m = t; fill(o[f], tag++); break; }
			case 2: { if (!live) break; int i = pick(o, live); { o[i].m = mt_mat(); o[i].used = false; } break; }
			case 3: { if (!live || f == LIVE) break; int i = pick(o, live); { o[f].m = o[i].m.row(0); o[f].tag = o[i].tag; o[f].used = true; o[i].m = mt_mat(); o[i].used = false; } break; } // a view keeps the memory in use
			default: mt_mat_cache::set_memory_size(k % 2 ? 0 : 64); break;
			}
			check(o);
		}
		if (on && vp_choose("disable early", 2)) { delete a; a = 0; check(o); } vp_reach("memory");
	}
	mt_mat_cache::set_memory_size(size0); delete a;
}
static void recycle() { // once dropped, the memory of a mat is used for the next one of its shape
	i32 sz[2] = {2, 3}; int n = vp_choose("mats", 3) + 1; { mt_auto_mat_cache a; { vector<mt_mat> w; for (int i = 0; i < n; ++i) w.push_back(s_mat_cache.get(2, sz, mt_U8C1)); } long long h = vp_heap_bytes(); { vector<mt_mat> w; w.reserve(n); long long h1 = vp_heap_bytes(); for (int i = 0; i < n; ++i) w.push_back(s_mat_cache.get(2, sz, mt_U8C1)); vp_assert(vp_heap_bytes() == h1, "the cache uses the memory of a dropped mat again"); } vp_assert(vp_heap_bytes() == h, "the cache does not grow when mats come and go"); }
	{ mt_mat one = s_mat_cache.get(2, sz, mt_U8C1); long long h = vp_heap_bytes(); one = mt_mat(); vp_assert(vp_heap_bytes() < h, "without a cache the memory goes with the mat"); } vp_reach("memory");
}
extern "C" void vp_main() { int m = vp_param("MODE", 0); if (m == 0) blocks(vp_param("STEPS", 3)); else if (m == 1) cache(vp_param("STEPS", 3)); else recycle(); }
