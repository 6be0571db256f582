// Views of a mat: every chain of view operations denotes exactly the documented elements, shares the memory and keeps it alive.
#include "mat_common.h"
#include "mt_array_iteration.h"
static mt_mat* BASE; static mt_mat* VIEW; static View MV;
static void check_view(const mt_mat& m, const View& v, const u8* base, bool deep) {
	int es = esize(m);
	vp_assert(m.dim() == v.nd && m.channel() == v.ch, "a view has the documented dimensions and channels");
	for (int i = 0; i < v.nd; ++i) vp_assert(m.size()[i] == v.sz[i], "a view has the documented sizes");
	vp_assert(m.element_number() == v.n && m.element_size() == es * v.ch && m.memory_size() == v.n * v.ch * es && m.channel_memory_size() == v.n * es && !m.is_empty(), "a view reports its element count and sizes");
	vp_assert(address_ok(m, v, base), "a view addresses exactly the documented elements");
	bool pos = true, neg = true; const u8* lo = m.data(); int mn = -1;
	for (int i = 0; i < v.nd; ++i) { if (m.step()[i] < 0) pos = false; if (m.step()[i] > 0) neg = false; int a = abs(m.step()[i]); if (mn < 0 || a < mn) mn = a; }
	vp_assert((bool)m.is_step_positive() == pos && (bool)m.is_step_negative() == neg, "the sign of the steps is reported");
	vp_assert((bool)m.is_min_abs_step_equal_element_size() == (mn == es * v.ch), "the smallest step is compared with the element size");
	vp_assert(m.last_dim_element_step() * es == m.step()[v.nd - 1], "the last step is reported in scalars");
	for (int k = 0; k < v.n; ++k) for (int c = 0; c < v.ch; ++c) { const u8* p = base + v.map[k * v.ch + c] * es; if (p < lo) lo = p; }
	// lowest address over channel 0 (memory_data points at the lowest element)
	const u8* lo0 = m.data(); for (int k = 0; k < v.n; ++k) { const u8* p = base + v.map[k * v.ch] * es; if (p < lo0) lo0 = p; }
	vp_assert(m.memory_data() == lo0 && const_cast<mt_mat&>(m).memory_data() == lo0, "memory_data is the element with the lowest address");
	bool asc = true, desc = true; for (int k = 0; k + 1 < v.n; ++k) { int d = v.map[(k + 1) * v.ch] - v.map[k * v.ch]; if (d != v.ch) asc = false; if (d != -v.ch) desc = false; }
	if (m.is_continuous()) vp_assert(asc || desc, "a continuous view has its elements next to each other in order");
	int st = es * v.ch; bool canon = true; for (int i = v.nd - 1; i >= 0; --i) { if (m.step()[i] != st) canon = false; st *= v.sz[i]; } if (canon) vp_assert(m.is_continuous(), "a mat with row-major steps is continuous");
	if (!deep) return;
	mt_mat& w = const_cast<mt_mat&>(m);
	{ int a[MAXD]; for (int i = 0; i < v.nd; ++i) a[i] = vp_int("at", 0, v.sz[i] - 1); long long off = 0; for (int i = 0; i < v.nd; ++i) off += a[i] * m.step()[i]; vector<int> av(a, a + v.nd);   // any element: the solver decides the accessors for all of them at once
		vp_assert((bool)m.is_valid_index(v.nd, a) && (bool)m.is_valid_index(av), "indexes inside the sizes are valid");
		for (int c = 0; c < v.ch; ++c) { const u8* p = m.data() + off + c * es;   // address_ok above ties this address to the documented element
			size_t bad = 0, z = (size_t)p;
#define AT(...) bad |= ((size_t)m.ptr<u8>(__VA_ARGS__) ^ z) | ((size_t)w.ptr<u8>(__VA_ARGS__) ^ z) | ((size_t)&m.at<u8>(__VA_ARGS__) ^ z) | ((size_t)&w.at<u8>(__VA_ARGS__) ^ z)
			AT(v.nd, a, c); AT(av, c); if (v.nd == 1) AT(a[0], c); if (v.nd == 2) AT(a[0], a[1], c); if (v.nd == 3) AT(a[0], a[1], a[2], c);
			vp_assert(bad == 0, "every element accessor returns the element"); }
		for (int i = 0; i < v.nd; ++i) { int o = a[i]; a[i] = v.sz[i]; vp_assert(!m.is_valid_index(v.nd, a), "indexes outside the sizes are invalid"); a[i] = -1; vp_assert(!m.is_valid_index(v.nd, a), "indexes outside the sizes are invalid"); a[i] = o; } }
	for (int k = 0; k < v.n; ++k) { int a[MAXD]; vunlin(v, k, a); const u8* p = base + v.map[k * v.ch] * es; vector<int> g = m.get_index(p), h; m.get_index(h, p); bool ok = (int)g.size() == v.nd && g == h; for (int i = 0; ok && i < v.nd; ++i) ok = g[i] == a[i];
		vp_assert(ok, "get_index inverts ptr"); }
	{ mt_array_element_const_iterator it(m); mt_array_element_iterator jt(w); mt_array_index_iterator xt(v.nd, v.sz); vector<vector<i32>> all; xt.all_index(all); vp_assert(xt.size() == v.n && (int)all.size() == v.n, "the index iterator counts the indexes"); vp_assert(it.element_number() == v.n && it.element_size() == es * v.ch, "the element iterator knows its elements");
		for (int k = 0; k < v.n; ++k) { const u8* p = it.data(); const u8* q = jt.data(); int a[MAXD]; vunlin(v, k, a); bool ok = p == base + v.map[k * v.ch] * es && q == p && it.index() == k && xt.next() && xt.index() == k; for (int i = 0; ok && i < v.nd; ++i) ok = it.position()[i] == a[i] && xt.position()[i] == a[i] && all[k][i] == a[i]; vp_assert(ok, "the element iterator visits every element once in row-major order"); }
		vp_assert(it.data() == NULL && jt.data() == NULL && !xt.next(), "the element iterator ends after the last element"); }
	{ mt_array_memory_block_const_iterator it(m); mt_array_memory_block_iterator jt(w); int nb = it.block_number(), bn = it.block_element_number(); vp_assert(nb * bn == v.n && it.block_size() == bn * es * v.ch, "memory blocks partition the elements");
		for (int b = 0; b < nb; ++b) { const u8* p = it.data(); vp_assert(p != NULL && jt.data() == p && it.index() == b, "memory blocks partition the elements"); for (int i = 0; i < bn; ++i) vp_assert(p + i * it.block_element_step() == base + v.map[(b * bn + i) * v.ch] * es, "memory blocks visit every element once in row-major order"); }
		vp_assert(it.data() == NULL && jt.data() == NULL, "memory blocks end after the last element"); 
		mt_array_memory_block_const_iterator st(m); mt_array_memory_block_iterator su(w); for (int b = 0; b < nb; ++b) { const u8* p = st.memory_start(); const u8* lo1 = base + v.map[b * bn * v.ch] * es; for (int i = 0; i < bn; ++i) { const u8* q = base + v.map[(b * bn + i) * v.ch] * es; if (q < lo1) lo1 = q; } vp_assert(p == lo1 && su.memory_start() == p, "memory_start is the lowest address of the block"); } vp_assert(st.memory_start() == NULL, "memory blocks end after the last element"); }
}
static void chain(bool warm) {
	int b = vp_param("B", 1), ch = vp_param("CH", 2), depth = vp_param("DEPTH", 2), len = vp_param("LEN", 1), op0 = vp_param("OP", -1); static u8 keep[8 * MAXN]; View v;
	mt_mat* m = new mt_mat(make_base(b, pick_depth(depth), ch, v)); int es = esize(*m), bytes = v.n * ch * es;
	if (warm) memset(m->data(), 7, bytes); else vp_bytes("content", m->data(), bytes);
	memcpy(keep, m->data(), bytes); View bv = v; const u8* base = m->data();
	vp_assert(m->reference_number() == 1, "a fresh mat is referenced once"); check_view(*m, v, base, !warm && len == 1);
	mt_mat* cur = new mt_mat(*m); vp_assert(m->reference_number() == 2 && cur->is_memory_shared(*m) && cur->is_same(*m), "a copy shares the memory");
	bool shared = true; mt_mat* owner = m;
	for (int i = 0; i < len && !warm; ++i) {
		int op = i == len - 1 && op0 >= 0 ? op0 : vp_choose("op", OP_COUNT); mt_mat nx = *cur; View w = v; if (!apply_op(op, nx, w, i == len - 1)) vp_end();
		if (!nx.is_memory_shared(*cur)) { // reorganising operations may copy; the copy has the same content
			vp_assert(op == OP_COMBINE || op == OP_RESHAPE || op == OP_RESHAPE_CH, "only reorganising operations may copy the memory"); vp_assert(content_ok(nx, w, base), "a reorganised copy has the documented content"); shared = false;
			*cur = nx; owner = cur; base = nx.data(); for (int k = 0; k < w.n * w.ch; ++k) w.map[k] = k; v = w; bytes = v.n * v.ch * es; continue; }
		*cur = nx; v = w;
	}
	if (!warm) { check_view(*cur, v, base, true); vp_assert(content_ok(*cur, v, base), "a view has the documented content"); }
	if (shared) vp_assert(m->reference_number() == 2 && cur->is_memory_shared(*m) && cur->reference_number() == 2, "the memory counts its live references");
	else vp_assert(m->reference_number() == 1 && cur->reference_number() == 1, "the memory counts its live references");
	// writing through the view changes exactly that element
	int a[MAXD], sym = !warm && len == 1, wc = sym ? vp_int("write_channel", 0, v.ch - 1) : 0; for (int i = 0; i < v.nd; ++i) a[i] = sym ? vp_int("write", 0, v.sz[i] - 1) : v.sz[i] - 1; long long at = cur->data() - base + wc * es; for (int i = 0; i < v.nd; ++i) at += a[i] * cur->step()[i]; u8* p = &cur->at<u8>(v.nd, a, wc); u8 old = *p; *p = (u8)(old + 1);
	{ int x = 0; for (int i = 0; i < bv.n * ch * es; ++i) { int want = keep[i]; want = (u8)(want + (shared & (i == at))); x |= m->data()[i] ^ want; } vp_assert(x == 0, "writing through a view changes exactly that element"); }
	*p = old;
	// the memory lives as long as any view
	if (warm || vp_choose("first", 2)) { delete m; vp_assert(cur->reference_number() == 1, "the memory counts its live references"); if (!warm) { if (shared) { int x = 0; for (int i = 0; i < bv.n * ch * es; ++i) x |= base[i] ^ keep[i]; vp_assert(x == 0, "a view keeps the memory alive"); } else vp_assert(content_ok(*cur, v, base), "a view keeps the memory alive"); } delete cur; }
	else { delete cur; vp_assert(m->reference_number() == 1, "the memory counts its live references"); int x = 0; for (int i = 0; i < bv.n * ch * es; ++i) x |= m->data()[i] ^ keep[i]; vp_assert(x == 0, "destroying a view leaves the mat unchanged"); delete m; }
	if (!warm) { vp_reach("view checked"); vp_observe("elements", v.n); for (int i = 0; i < v.n * v.ch && i < 6; ++i) vp_observe("map", v.map[i]); }
}
extern "C" void vp_main() {
	chain(true); long long heap0 = vp_heap_bytes(); chain(false); vp_assert(vp_heap_bytes() == heap0, "all memory is released with the last view");
}
