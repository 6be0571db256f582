#include "expr.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
std::vector<Node> N;
std::vector<VarInfo> VARS;
std::vector<UFInfo> UFS;
std::vector<u64> MODEL;
std::vector<std::pair<u8, u64>> FIXED;

struct Key { u8 op, w; u16 aux; u32 a, b, c; u64 v; bool operator==(const Key& o) const { return op == o.op && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c && v == o.v; } };
struct KeyH { size_t operator()(const Key& k) const {
	u64 h = k.op | (u64)k.w << 8 | (u64)k.aux << 16 | (u64)k.a << 32;
	h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h += (u64)k.b | (u64)k.c << 32; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; h += k.v; h *= 0x94D049BB133111EBull; return h ^ (h >> 31); } };
static std::unordered_map<Key, u32, KeyH> CONS;    // structural
static std::unordered_map<Key, u32, KeyH> SIMP;    // memo of mk()

static struct Init { Init() { Node n; memset(&n, 0, sizeof n); N.push_back(n); N.reserve(1 << 14); } } _init;

static u64 hmix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }

static void known(Node& n);
static u32 cons(int op, int w, u32 a, u32 b, u32 c, int aux, u64 v) {
	Key k = { (u8)op, (u8)w, (u16)aux, a, b, c, v };
	auto it = CONS.find(k);
	if (it != CONS.end()) return it->second;
	Node n; memset(&n, 0, sizeof n);
	n.op = op; n.w = w; n.aux = aux; n.a = a; n.b = b; n.c = c; n.val = v;
	n.vmask = (a ? N[a].vmask : 0) | (b ? N[b].vmask : 0) | (c ? N[c].vmask : 0);
	u64 h = hmix(op * 131 + w, aux); h = hmix(h, v); h = hmix(h, a ? N[a].hash : 1); h = hmix(h, b ? N[b].hash : 2); h = hmix(h, c ? N[c].hash : 3); n.hash = h;
	known(n);
	u32 id = N.size(); N.push_back(n); CONS[k] = id;
	return id;
}
u32 mkConst(u64 v, int w) { return cons(E_CONST, w, 0, 0, 0, 0, v & mask(w)); }
u32 mkVar(const std::string& name, int w, u64 kz, bool uninit) {
	u32 vn = VARS.size(); VARS.push_back({ name, w, (u8)uninit }); MODEL.push_back(0); FIXED.push_back({ 0, 0 });
	Node n; memset(&n, 0, sizeof n); n.op = E_VAR; n.w = w; n.val = vn; n.kz = kz & mask(w); n.ko = 0; n.vmask = 1ull << (vn & 63);
	u64 h = 77; for (char ch : name) h = hmix(h, (u8)ch); n.hash = hmix(h, w);
	u32 id = N.size(); N.push_back(n); modelChanged(); return id;
}

static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(u64 v) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; }
static u64 frD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static u64 frF(float f) { u32 v; memcpy(&v, &f, 4); return v; }

u64 foldOp(int op, int w, int aux, u64 a, u64 b, u64 c, int wa, int wb) {
	u64 m = mask(w);
	switch (op) {
	case E_ADD: return (a + b) & m;
	case E_MUL: return (a * b) & m;
	case E_UDIV: return b ? (a / b) & m : m;
	case E_UREM: return b ? (a % b) & m : a;
	case E_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u64)(-(u64)x) & m; return (u64)(x / y) & m; }
	case E_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
	case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
	case E_SHL: return b >= (u64)w ? 0 : (a << b) & m;
	case E_LSHR: return b >= (u64)w ? 0 : a >> b;
	case E_ASHR: return (u64)(sx(a, w) >> (b >= (u64)w ? w - 1 : b)) & m;
	case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
	case E_SLT: return sx(a, wa) < sx(b, wa); case E_SLE: return sx(a, wa) <= sx(b, wa);
	case E_CONCAT: return (a << wb) | b;
	case E_EXTRACT: return (a >> aux) & m;
	case E_ZEXT: return a;
	case E_SEXT: return (u64)sx(a, wa) & m;
	case E_ITE: return a ? b : c;
	case E_FADD: return w == 32 ? frF(asF(a) + asF(b)) : frD(asD(a) + asD(b));
	case E_FSUB: return w == 32 ? frF(asF(a) - asF(b)) : frD(asD(a) - asD(b));
	case E_FMUL: return w == 32 ? frF(asF(a) * asF(b)) : frD(asD(a) * asD(b));
	case E_FDIV: return w == 32 ? frF(asF(a) / asF(b)) : frD(asD(a) / asD(b));
	case E_FREM: return w == 32 ? frF(fmodf(asF(a), asF(b))) : frD(fmod(asD(a), asD(b)));
	case E_FSQRT: return w == 32 ? frF(sqrtf(asF(a))) : frD(sqrt(asD(a)));
	case E_FRND: { // aux 0 floor 1 ceil 2 trunc 3 round(half away) 4 rint
		double d = w == 32 ? asF(a) : asD(a);
		double r = aux == 0 ? floor(d) : aux == 1 ? ceil(d) : aux == 2 ? trunc(d) : aux == 3 ? round(d) : nearbyint(d);
		return w == 32 ? frF((float)r) : frD(r); }
	case E_FCMP: { bool r; if (wa == 32) { float x = asF(a), y = asF(b); r = aux == FC_OEQ ? x == y : aux == FC_OLT ? x < y : aux == FC_OLE ? x <= y : (x != x || y != y); }
		else { double x = asD(a), y = asD(b); r = aux == FC_OEQ ? x == y : aux == FC_OLT ? x < y : aux == FC_OLE ? x <= y : (x != x || y != y); } return r; }
	case E_FPEXT: return frD((double)asF(a));
	case E_FPTRUNC: return frF((float)asD(a));
	case E_FPTOSI: { double d = wa == 32 ? asF(a) : asD(a); if (w == 64) return (u64)(i64)_mm_cvt(d); i64 r;
		if (w <= 32) { // x86 cvttsd2si 32-bit for w==32; narrower go through 32
			if (!(d > -2147483649.0 && d < 2147483648.0)) r = (i64)(i32)0x80000000; else r = (i64)d; }
		else r = (i64)_mm_cvt(d);
		return (u64)r & m; }
	case E_FPTOUI: { double d = wa == 32 ? asF(a) : asD(a);
		if (w < 32) { i64 r; if (!(d > -2147483649.0 && d < 2147483648.0)) r = (i64)(i32)0x80000000; else r = (i64)d; return (u64)r & m; }
		if (w == 32) { return (u64)(i64)_mm_cvt(d) & m; }
		if (d >= 9223372036854775808.0) return ((u64)(i64)_mm_cvt(d - 9223372036854775808.0)) ^ 0x8000000000000000ull;
		return (u64)(i64)_mm_cvt(d); }
	case E_SITOFP: { i64 x = sx(a, wa); return w == 32 ? frF((float)x) : frD((double)x); }
	case E_UITOFP: return w == 32 ? frF((float)a) : frD((double)a);
	case E_UF: { UFInfo& f = UFS[aux]; if (w == 32) return frF(f.f2 ? f.f2(asF(a), asF(b)) : f.f1(asF(a))); return frD(f.d2 ? f.d2(asD(a), asD(b)) : f.d1(asD(a))); }
	}
	fprintf(stderr, "foldOp %d\n", op); abort();
}

static void known(Node& n) {
	u64 m = mask(n.w);
	auto Z = [&](u32 e) { return N[e].kz; }; auto O = [&](u32 e) { return N[e].ko; };
	n.kz = n.ko = 0;
	switch (n.op) {
	case E_CONST: n.ko = n.val; n.kz = ~n.val & m; break;
	case E_AND: n.kz = Z(n.a) | Z(n.b); n.ko = O(n.a) & O(n.b); break;
	case E_OR: n.ko = O(n.a) | O(n.b); n.kz = Z(n.a) & Z(n.b); break;
	case E_XOR: n.ko = (O(n.a) & Z(n.b)) | (Z(n.a) & O(n.b)); n.kz = (Z(n.a) & Z(n.b)) | (O(n.a) & O(n.b)); break;
	case E_ADD: {
		u64 za = Z(n.a), zb = Z(n.b);
		u64 ma = ~za & m, mb = ~zb & m;            // max values
		u128 s = (u128)ma + mb; int hi = 64; if (s <= m) { u64 sv = (u64)s; int l = sv ? 64 - __builtin_clzll(sv) : 0; hi = l; n.kz |= m & ~mask(l ? l : 0); if (!l) n.kz = m; }
		(void)hi;
		u64 lowA = za | O(n.a), lowB = zb | O(n.b); u64 both = lowA & lowB; int t = both == ~0ull ? 64 : __builtin_ctzll(~both);
		if (t > n.w) t = n.w;
		if (t) { u64 lm = mask(t); u64 v = (O(n.a) + O(n.b)) & lm; n.ko |= v; n.kz |= ~v & lm; }
		break; }
	case E_MUL: {
		u64 za = Z(n.a), zb = Z(n.b); int ta = za == ~0ull ? 64 : __builtin_ctzll(~za), tb = zb == ~0ull ? 64 : __builtin_ctzll(~zb); int t = std::min(ta + tb, (int)n.w);
		if (t) n.kz |= mask(t) & m;
		u128 s = (u128)(~za & m) * (~zb & m); if (s <= m) { u64 sv = (u64)s; int l = sv ? 64 - __builtin_clzll(sv) : 0; n.kz |= l ? (m & ~mask(l)) : m; }
		break; }
	case E_UDIV: case E_UREM: { u64 mx = ~Z(n.a) & m; if (n.op == E_UREM && N[n.b].op == E_CONST && N[n.b].val) mx = std::min(mx, N[n.b].val - 1); if (n.op == E_UDIV && N[n.b].op == E_CONST && N[n.b].val) mx /= N[n.b].val; else if (n.op == E_UDIV) break; int l = mx ? 64 - __builtin_clzll(mx) : 0; n.kz |= l ? (m & ~mask(l)) : m; break; }
	case E_CONCAT: { int wb = N[n.b].w; n.kz = (Z(n.a) << wb) | Z(n.b); n.ko = (O(n.a) << wb) | O(n.b); break; }
	case E_EXTRACT: n.kz = (Z(n.a) >> n.aux) & m; n.ko = (O(n.a) >> n.aux) & m; break;
	case E_ZEXT: n.kz = Z(n.a) | (m & ~mask(N[n.a].w)); n.ko = O(n.a); break;
	case E_SEXT: { int wa = N[n.a].w; n.kz = Z(n.a); n.ko = O(n.a); u64 up = m & ~mask(wa); if (Z(n.a) >> (wa - 1) & 1) n.kz |= up; if (O(n.a) >> (wa - 1) & 1) n.ko |= up; break; }
	case E_ITE: n.kz = Z(n.b) & Z(n.c); n.ko = O(n.b) & O(n.c); break;
	case E_UITOFP: n.kz = 1ull << (n.w - 1); break;
	}
}
u32 mkNot(u32 e) { return mk(E_XOR, N[e].w, e, mkConst(~0ull, N[e].w)); }
u32 mkSub(u32 a, u32 b) { int w = N[a].w; if (a == b) return mkConst(0, w); if (isC(b)) return mk(E_ADD, w, a, mkConst(-N[b].val, w)); return mk(E_ADD, w, a, mk(E_MUL, w, b, mkConst(~0ull, w))); }
u32 mkExtract(u32 a, int off, int w) { if (off == 0 && w == N[a].w) return a; return mk(E_EXTRACT, w, a, 0, 0, off); }

static u32 mk0(int op, int w, u32 a, u32 b, u32 c, int aux);
// comparisons whose operands are plain bit patterns are decided in bit-vector logic, without the floating-point theory
static u32 lowerFcmp(int aux, u32 a, u32 b) {
	auto plain = [&](u32 e) { int o = N[e].op; return o == E_CONST || o == E_VAR || o == E_CONCAT || o == E_EXTRACT || o == E_XOR || o == E_AND || o == E_OR || o == E_ZEXT; };
	if (N[a].op == E_FPEXT && N[b].op == E_FPEXT) return mk(E_FCMP, 1, N[a].a, N[b].a, 0, aux);
	if (aux == FC_UNO) { if (a != b || !plain(a)) return 0; int w = N[a].w; u64 inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull; return mk(E_ULT, 1, mkConst(inf, w), mk(E_AND, w, a, mkConst(mask(w - 1), w))); }
	// fpext(x) against a double constant: round the constant to the neighbouring float
	if ((N[a].op == E_FPEXT && isC(b)) || (N[b].op == E_FPEXT && isC(a))) {
		bool left = N[a].op == E_FPEXT; u32 x = left ? N[a].a : N[b].a; double c = asD(N[left ? b : a].val); if (c != c) return mkConst(0, 1);
		float f = (float)c; auto bits = [](float v) { u32 r; memcpy(&r, &v, 4); return r; };
		if ((double)f == c) return left ? mk(E_FCMP, 1, x, mkConst(bits(f), 32), 0, aux) : mk(E_FCMP, 1, mkConst(bits(f), 32), x, 0, aux);
		if (aux == FC_OEQ) return mkConst(0, 1);
		float lo = (double)f < c ? f : nextafterf(f, -INFINITY), hi = (double)f < c ? nextafterf(f, INFINITY) : f;
		return left ? mk(E_FCMP, 1, x, mkConst(bits(lo), 32), 0, FC_OLE) : mk(E_FCMP, 1, mkConst(bits(hi), 32), x, 0, FC_OLE);
	}
	if (!plain(a) || !plain(b)) return 0;
	int w = N[a].w; u64 sb = 1ull << (w - 1), inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, ninf = sb | inf;
	auto K = [&](u64 v) { return mkConst(v, w); }; auto AND = [&](u32 x, u32 y) { return mk(E_AND, 1, x, y); }; auto OR = [&](u32 x, u32 y) { return mk(E_OR, 1, x, y); };
	auto ULE = [&](u32 x, u32 y) { return mk(E_ULE, 1, x, y); }; auto ULT = [&](u32 x, u32 y) { return mk(E_ULT, 1, x, y); };
	if (isC(a) || isC(b)) {
		bool left = isC(b); u32 x = left ? a : b; u64 c = N[left ? b : a].val; if ((c & ~sb) > inf) return mkConst(0, 1); bool zero = (c & ~sb) == 0, neg = !zero && (c & sb);
		u32 negR = AND(ULE(K(sb), x), ULE(x, K(ninf)));
		if (aux == FC_OEQ) return zero ? mk(E_EQ, 1, mk(E_AND, w, x, K(~sb & mask(w))), K(0)) : mk(E_EQ, 1, x, K(c));
		if (left && aux == FC_OLT) return zero ? AND(ULE(K(sb + 1), x), ULE(x, K(ninf))) : neg ? AND(ULT(K(c), x), ULE(x, K(ninf))) : OR(ULT(x, K(c)), negR);
		if (left) return zero ? OR(mk(E_EQ, 1, x, K(0)), negR) : neg ? AND(ULE(K(c), x), ULE(x, K(ninf))) : OR(ULE(x, K(c)), negR);
		if (aux == FC_OLT) return neg ? OR(ULE(x, K(inf)), AND(ULE(K(sb), x), ULT(x, K(c)))) : AND(ULT(K(zero ? 0 : c), x), ULE(x, K(inf)));
		return zero ? OR(ULE(x, K(inf)), mk(E_EQ, 1, x, K(sb))) : neg ? OR(ULE(x, K(inf)), AND(ULE(K(sb), x), ULE(x, K(c)))) : AND(ULE(K(c), x), ULE(x, K(inf)));
	}
	u32 ma = mk(E_AND, w, a, K(~sb & mask(w))), mb = mk(E_AND, w, b, K(~sb & mask(w))), sa = mkExtract(a, w - 1, 1), sB = mkExtract(b, w - 1, 1);
	u32 nn = AND(ULE(ma, K(inf)), ULE(mb, K(inf))), zz = AND(mk(E_EQ, 1, ma, K(0)), mk(E_EQ, 1, mb, K(0)));
	if (aux == FC_OEQ) return AND(nn, OR(zz, mk(E_EQ, 1, a, b)));
	u32 lt = mk(E_ITE, 1, sa, mk(E_ITE, 1, sB, ULT(b, a), mkConst(1, 1)), mk(E_ITE, 1, sB, mkConst(0, 1), ULT(a, b)));
	if (aux == FC_OLT) return AND(nn, AND(mkNot(zz), lt));
	return AND(nn, OR(zz, OR(lt, mk(E_EQ, 1, a, b))));
}
// e is an integer converted to floating point without rounding; sg: it may be negative, eff: significant bits otherwise
static bool exactInt(u32 e, u32& in, bool& sg, int& eff) {
	if (N[e].op != E_SITOFP && N[e].op != E_UITOFP) return false;
	int lim = N[e].w == 32 ? 24 : 53, wi = N[N[e].a].w; u64 kzn = N[N[e].a].kz; eff = wi; while (eff > 1 && (kzn >> (eff - 1) & 1)) --eff;
	sg = N[e].op == E_SITOFP && !(kzn >> (wi - 1) & 1); in = N[e].a; return sg ? wi - 1 <= lim : eff <= lim;
}
u32 mk(int op, int w, u32 a, u32 b, u32 c, int aux) {
	Key k = { (u8)op, (u8)w, (u16)aux, a, b, c, 0 };
	auto it = SIMP.find(k);
	if (it != SIMP.end()) return it->second;
	u32 r = mk0(op, w, a, b, c, aux);
	if (!isC(r)) { u64 m = mask(N[r].w); if (((N[r].kz | N[r].ko) & m) == m) r = mkConst(N[r].ko, N[r].w); }
	SIMP[k] = r;
	return r;
}
static inline bool cITE(u32 e) { return N[e].op == E_ITE && isC(N[e].b) && isC(N[e].c); }

static u32 mk0(int op, int w, u32 a, u32 b, u32 c, int aux) {
	bool ca = isC(a), cb = b && isC(b), cc = c && isC(c);
	// full constant folding
	if (ca && (!b || cb) && (!c || cc)) return mkConst(foldOp(op, w, aux, N[a].val, b ? N[b].val : 0, c ? N[c].val : 0, N[a].w, b ? N[b].w : 0), w);
	u64 m = mask(w);
	// push unary / binary-with-const over ITE with const arms
	if (op != E_ITE && op != E_CONCAT) {
		if (!b && cITE(a)) return mk(E_ITE, w, N[a].a, mk(op, w, N[a].b, 0, 0, aux), mk(op, w, N[a].c, 0, 0, aux));
		if (b && !c && cb && cITE(a)) return mk(E_ITE, w, N[a].a, mk(op, w, N[a].b, b, 0, aux), mk(op, w, N[a].c, b, 0, aux));
		if (b && !c && ca && cITE(b)) return mk(E_ITE, w, N[b].a, mk(op, w, a, N[b].b, 0, aux), mk(op, w, a, N[b].c, 0, aux));
	}
	switch (op) {
	case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR: case E_EQ: case E_FADD: case E_FMUL:
		if (ca || (!cb && a > b)) { std::swap(a, b); std::swap(ca, cb); }
		break;
	case E_FCMP: if ((aux == FC_OEQ || aux == FC_UNO) && (ca || (!cb && a > b))) { std::swap(a, b); std::swap(ca, cb); } break;
	}
	switch (op) {
	case E_ADD:
		if (cb) { if (!N[b].val) return a; if (N[a].op == E_ADD && isC(N[a].b)) return mk(E_ADD, w, N[a].a, mkConst(N[N[a].b].val + N[b].val, w)); }
		else {
			if (N[a].op == E_ADD && isC(N[a].b)) return mk(E_ADD, w, mk(E_ADD, w, N[a].a, b), N[a].b);
			if (N[b].op == E_ADD && isC(N[b].b)) return mk(E_ADD, w, mk(E_ADD, w, a, N[b].a), N[b].b);
			u32 m1 = mkConst(~0ull, w);
			if (N[b].op == E_MUL && N[b].b == m1 && N[b].a == a) return mkConst(0, w);
			if (N[a].op == E_MUL && N[a].b == m1 && N[a].a == b) return mkConst(0, w);
			if (N[a].op == E_ADD && N[b].op == E_MUL && N[b].b == m1) { if (N[a].a == N[b].a) return N[a].b; if (N[a].b == N[b].a) return N[a].a; }
			if (N[b].op == E_ADD && N[a].op == E_MUL && N[a].b == m1) { if (N[b].a == N[a].a) return N[b].b; if (N[b].b == N[a].a) return N[b].a; }
		}
		break;
	case E_MUL:
		if (cb) {
			u64 v = N[b].val; if (!v) return b; if (v == 1) return a;
			if ((v & (v - 1)) == 0) return mk(E_SHL, w, a, mkConst(__builtin_ctzll(v), w));
			if (N[a].op == E_MUL && isC(N[a].b)) return mk(E_MUL, w, N[a].a, mkConst(N[N[a].b].val * v, w));
			if (N[a].op == E_ADD && isC(N[a].b)) return mk(E_ADD, w, mk(E_MUL, w, N[a].a, b), mkConst(N[N[a].b].val * v, w));
			if (v == m && N[a].op == E_ADD) return mk(E_ADD, w, mk(E_MUL, w, N[a].a, b), mk(E_MUL, w, N[a].b, b));
		}
		break;
	case E_UDIV: if (cb) { u64 v = N[b].val; if (v == 1) return a; if (v && (v & (v - 1)) == 0) return mk(E_LSHR, w, a, mkConst(__builtin_ctzll(v), w)); if ((~N[a].kz & m) < v) return mkConst(0, w); } break;
	case E_UREM: if (cb) { u64 v = N[b].val; if (v && (v & (v - 1)) == 0) return mk(E_AND, w, a, mkConst(v - 1, w)); if (v && (~N[a].kz & m) < v) return a; } break;
	case E_SDIV: if (cb && N[b].val == 1) return a; if ((N[a].kz >> (w - 1) & 1) && (N[b].kz >> (w - 1) & 1)) return mk(E_UDIV, w, a, b); break;
	case E_SREM: if ((N[a].kz >> (w - 1) & 1) && (N[b].kz >> (w - 1) & 1)) return mk(E_UREM, w, a, b); break;
	case E_AND:
		if (a == b) return a;
		if (cb) {
			u64 v = N[b].val; if (!v) return b; if (v == m) return a;
			if (((~v & m) & ~N[a].kz) == 0) return a;
			if (N[a].op == E_AND && isC(N[a].b)) return mk(E_AND, w, N[a].a, mkConst(N[N[a].b].val & v, w));
			if ((v & (v + 1)) == 0) { int k = 64 - __builtin_clzll(v); return mk(E_ZEXT, w, mkExtract(a, 0, k)); }
			if (N[a].op == E_OR || N[a].op == E_XOR) return mk(N[a].op, w, mk(E_AND, w, N[a].a, b), mk(E_AND, w, N[a].b, b));
			if (N[a].op == E_ZEXT) { int wa = N[N[a].a].w; return mk(E_ZEXT, w, mk(E_AND, wa, N[a].a, mkConst(v, wa))); }
			if (N[a].op == E_CONCAT) { int wb = N[N[a].b].w, wa = N[N[a].a].w; return mk(E_CONCAT, w, mk(E_AND, wa, N[a].a, mkConst(v >> wb, wa)), mk(E_AND, wb, N[a].b, mkConst(v, wb))); }
		} else if (w == 1) { if (N[a].op == E_XOR && isC(N[a].b) && N[a].a == b) return mkConst(0, 1); if (N[b].op == E_XOR && isC(N[b].b) && N[b].a == a) return mkConst(0, 1); }
		break;
	case E_OR:
		if (a == b) return a;
		if (cb) {
			u64 v = N[b].val; if (!v) return a; if (v == m) return b;
			if ((v & ~N[a].ko) == 0) return a;
			if (N[a].op == E_OR && isC(N[a].b)) return mk(E_OR, w, N[a].a, mkConst(N[N[a].b].val | v, w));
			if (N[a].op == E_CONCAT) { int wb = N[N[a].b].w, wa = N[N[a].a].w; return mk(E_CONCAT, w, mk(E_OR, wa, N[a].a, mkConst(v >> wb, wa)), mk(E_OR, wb, N[a].b, mkConst(v, wb))); }
			if (N[a].op == E_ZEXT && !(v >> N[N[a].a].w)) { int wa = N[N[a].a].w; return mk(E_ZEXT, w, mk(E_OR, wa, N[a].a, mkConst(v, wa))); }
			if (N[a].op == E_ZEXT) { int wa = N[N[a].a].w; return mk(E_CONCAT, w, mkConst(v >> wa, w - wa), mk(E_OR, wa, N[a].a, mkConst(v, wa))); }
		} else {
			if (w == 1) { if (N[a].op == E_XOR && isC(N[a].b) && N[a].a == b) return mkConst(1, 1); if (N[b].op == E_XOR && isC(N[b].b) && N[b].a == a) return mkConst(1, 1); }
			// byte assembly: zext(x:k) | concat(y, 0:k)
			for (int s = 0; s < 2; ++s) {
				u32 p = s ? b : a, q = s ? a : b;
				if (N[p].op == E_CONCAT && isC(N[p].b) && N[N[p].b].val == 0) { int k = N[N[p].b].w;
					if (((~N[q].kz & m) >> k) == 0) return mk(E_CONCAT, w, N[p].a, mkExtract(q, 0, k));
					if (N[q].op == E_CONCAT && N[N[q].b].w == k && isC(N[q].b)) return mk(E_CONCAT, w, mk(E_OR, w - k, N[p].a, N[q].a), N[q].b);
				}
				if (N[p].op == E_ZEXT && N[N[p].a].op == E_CONCAT && isC(N[N[p].a].b) && N[N[N[p].a].b].val == 0) { int k = N[N[N[p].a].b].w;
					if (((~N[q].kz & m) >> k) == 0) return mk(E_CONCAT, w, mk(E_ZEXT, w - k, N[N[p].a].a), mkExtract(q, 0, k)); }
			}
		}
		break;
	case E_XOR:
		if (a == b) return mkConst(0, w);
		if (cb) {
			u64 v = N[b].val; if (!v) return a;
			if (N[a].op == E_XOR && isC(N[a].b)) return mk(E_XOR, w, N[a].a, mkConst(N[N[a].b].val ^ v, w));
			if (w == 1) { // not
				if (N[a].op == E_ULT) return mk(E_ULE, 1, N[a].b, N[a].a);
				if (N[a].op == E_ULE) return mk(E_ULT, 1, N[a].b, N[a].a);
				if (N[a].op == E_SLT) return mk(E_SLE, 1, N[a].b, N[a].a);
				if (N[a].op == E_SLE) return mk(E_SLT, 1, N[a].b, N[a].a);
				if (N[a].op == E_AND) return mk(E_OR, 1, mkNot(N[a].a), mkNot(N[a].b));
				if (N[a].op == E_OR) return mk(E_AND, 1, mkNot(N[a].a), mkNot(N[a].b));
			}
			if (N[a].op == E_CONCAT) { int wb = N[N[a].b].w, wa = N[N[a].a].w; return mk(E_CONCAT, w, mk(E_XOR, wa, N[a].a, mkConst(v >> wb, wa)), mk(E_XOR, wb, N[a].b, mkConst(v, wb))); }
			if (N[a].op == E_ZEXT) { int wa = N[N[a].a].w; u64 hi = v >> wa; if (!hi) return mk(E_ZEXT, w, mk(E_XOR, wa, N[a].a, mkConst(v, wa))); return mk(E_CONCAT, w, mkConst(hi, w - wa), mk(E_XOR, wa, N[a].a, mkConst(v, wa))); }
		}
		break;
	case E_SHL: if (cb) { u64 k = N[b].val; if (!k) return a; if (k >= (u64)w) return mkConst(0, w); return mk(E_CONCAT, w, mkExtract(a, 0, w - k), mkConst(0, k)); } if (ca && !N[a].val) return a; break;
	case E_LSHR: if (cb) { u64 k = N[b].val; if (!k) return a; if (k >= (u64)w) return mkConst(0, w); return mk(E_ZEXT, w, mkExtract(a, k, w - k)); } if (ca && !N[a].val) return a; break;
	case E_ASHR: if (cb) { u64 k = N[b].val; if (!k) return a; if (k >= (u64)w) k = w - 1; return mk(E_SEXT, w, mkExtract(a, k, w - k)); } break;
	case E_EQ: {
		if (a == b) return mkConst(1, 1);
		int wa = N[a].w;
		if ((N[a].ko & N[b].kz) || (N[a].kz & N[b].ko)) return mkConst(0, 1);
		if (cb) {
			u64 v = N[b].val;
			if (wa == 1) return v ? a : mkNot(a);
			switch (N[a].op) {
			case E_ADD: if (isC(N[a].b)) return mk(E_EQ, 1, N[a].a, mkConst(v - N[N[a].b].val, wa)); 
				if (v == 0) { u32 m1 = mkConst(~0ull, wa); if (N[N[a].b].op == E_MUL && N[N[a].b].b == m1) return mk(E_EQ, 1, N[a].a, N[N[a].b].a); if (N[N[a].a].op == E_MUL && N[N[a].a].b == m1) return mk(E_EQ, 1, N[a].b, N[N[a].a].a); }
				break;
			case E_XOR: if (isC(N[a].b)) return mk(E_EQ, 1, N[a].a, mkConst(v ^ N[N[a].b].val, wa)); if (v == 0) return mk(E_EQ, 1, N[a].a, N[a].b); break;
			case E_ZEXT: return mk(E_EQ, 1, N[a].a, mkConst(v, N[N[a].a].w));   // high part handled by known bits
			case E_SEXT: { int wi = N[N[a].a].w; if ((u64)(sx(v & mask(wi), wi)) == (u64)sx(v, wa)) return mk(E_EQ, 1, N[a].a, mkConst(v, wi)); return mkConst(0, 1); }
			case E_CONCAT: { int wb = N[N[a].b].w; return mk(E_AND, 1, mk(E_EQ, 1, N[a].a, mkConst(v >> wb, wa - wb)), mk(E_EQ, 1, N[a].b, mkConst(v, wb))); }
			case E_ITE: if (isC(N[a].b)) { if (N[N[a].b].val != v) return mk(E_AND, 1, mkNot(N[a].a), mk(E_EQ, 1, N[a].c, b)); else return mk(E_OR, 1, N[a].a, mk(E_EQ, 1, N[a].c, b)); }
				if (isC(N[a].c)) { if (N[N[a].c].val != v) return mk(E_AND, 1, N[a].a, mk(E_EQ, 1, N[a].b, b)); else return mk(E_OR, 1, mkNot(N[a].a), mk(E_EQ, 1, N[a].b, b)); } break;
			}
		} else {
			if (wa == 1) return mkNot(mk(E_XOR, 1, a, b));
			if (N[a].op == E_ZEXT && N[b].op == E_ZEXT && N[N[a].a].w == N[N[b].a].w) return mk(E_EQ, 1, N[a].a, N[b].a);
			if (N[a].op == E_SEXT && N[b].op == E_SEXT && N[N[a].a].w == N[N[b].a].w) return mk(E_EQ, 1, N[a].a, N[b].a);
			if (N[a].op == E_ADD && N[b].op == E_ADD) { if (N[a].a == N[b].a) return mk(E_EQ, 1, N[a].b, N[b].b); if (N[a].b == N[b].b) return mk(E_EQ, 1, N[a].a, N[b].a); }
			if (N[a].op == E_ADD && isC(N[a].b) && N[a].a == b) return mkConst(0, 1);
			if (N[b].op == E_ADD && isC(N[b].b) && N[b].a == a) return mkConst(0, 1);
		}
		break; }
	case E_ULT: case E_ULE: {
		if (a == b) return mkConst(op == E_ULE, 1);
		int wa = N[a].w; u64 ma = mask(wa);
		u64 amin = N[a].ko, amax = ~N[a].kz & ma, bmin = N[b].ko, bmax = ~N[b].kz & ma;
		if (op == E_ULT) { if (amax < bmin) return mkConst(1, 1); if (amin >= bmax) return mkConst(0, 1); }
		else { if (amax <= bmin) return mkConst(1, 1); if (amin > bmax) return mkConst(0, 1); }
		if (op == E_ULE && cb) return mk(E_ULT, 1, a, mkConst(N[b].val + 1, wa));   // val != max here
		if (op == E_ULE && ca) return mk(E_ULT, 1, mkConst(N[a].val - 1, wa), b);   // val != 0 here
		if (op == E_ULT && cb && N[b].val == 1) return mk(E_EQ, 1, a, mkConst(0, wa));
		if (N[a].op == E_ZEXT && N[b].op == E_ZEXT && N[N[a].a].w == N[N[b].a].w) return mk(op, 1, N[a].a, N[b].a);
		if (N[a].op == E_ZEXT && cb) { int wi = N[N[a].a].w; if (N[b].val <= mask(wi)) return mk(op, 1, N[a].a, mkConst(N[b].val, wi)); }
		if (N[b].op == E_ZEXT && ca) { int wi = N[N[b].a].w; if (N[a].val <= mask(wi)) return mk(op, 1, mkConst(N[a].val, wi), N[b].a); }
		if (wa == 1) { if (op == E_ULT) return mk(E_AND, 1, mkNot(a), b); return mk(E_OR, 1, mkNot(a), b); }
		break; }
	case E_SLT: case E_SLE: {
		if (a == b) return mkConst(op == E_SLE, 1);
		int wa = N[a].w; u64 sb = 1ull << (wa - 1);
		bool aP = N[a].kz & sb, aN = N[a].ko & sb, bP = N[b].kz & sb, bN = N[b].ko & sb;
		if (aP && bN) return mkConst(0, 1); if (aN && bP) return mkConst(1, 1);
		if ((aP && bP) || (aN && bN)) return mk(op == E_SLT ? E_ULT : E_ULE, 1, a, b);
		if (op == E_SLE && cb && N[b].val != sb - 1) return mk(E_SLT, 1, a, mkConst(N[b].val + 1, wa));
		if (op == E_SLE && ca && N[a].val != sb) return mk(E_SLT, 1, mkConst(N[a].val - 1, wa), b);
		if (op == E_SLE && ((cb && N[b].val == sb - 1) || (ca && N[a].val == sb))) return mkConst(1, 1);
		if (op == E_SLT && ((cb && N[b].val == sb) || (ca && N[a].val == sb - 1))) return mkConst(0, 1);
		if (N[a].op == E_SEXT && N[b].op == E_SEXT && N[N[a].a].w == N[N[b].a].w) return mk(op, 1, N[a].a, N[b].a);
		if (N[a].op == E_SEXT && cb) { int wi = N[N[a].a].w; if ((u64)sx(N[b].val & mask(wi), wi) == (u64)sx(N[b].val, wa)) return mk(op, 1, N[a].a, mkConst(N[b].val, wi)); }
		if (N[b].op == E_SEXT && ca) { int wi = N[N[b].a].w; if ((u64)sx(N[a].val & mask(wi), wi) == (u64)sx(N[a].val, wa)) return mk(op, 1, mkConst(N[a].val, wi), N[b].a); }
		break; }
	case E_CONCAT: {
		if (ca && N[a].val == 0) return mk(E_ZEXT, w, b);
		if (N[a].op == E_EXTRACT && N[b].op == E_EXTRACT && N[a].a == N[b].a && N[a].aux == N[b].aux + N[b].w) return mkExtract(N[a].a, N[b].aux, w);
		// extract on top of a whole node: concat(extract(x, wb, ..), x') handled when b is the low part of x as node itself
		if (N[b].op == E_CONCAT) { // right assoc: concat(a, concat(p,q)) -> concat(concat(a,p), q) when a,p are adjacent extracts or consts
			u32 p = N[b].a;
			if ((N[a].op == E_EXTRACT && N[p].op == E_EXTRACT && N[a].a == N[p].a && N[a].aux == N[p].aux + N[p].w) || (ca && isC(p))) return mk(E_CONCAT, w, mk(E_CONCAT, N[a].w + N[p].w, a, p), N[b].b);
		}
		if (N[a].op == E_CONCAT && !isC(a)) return mk(E_CONCAT, w, N[a].a, mk(E_CONCAT, N[N[a].b].w + N[b].w, N[a].b, b));
		if (N[a].op == E_ZEXT) return mk(E_ZEXT, w, mk(E_CONCAT, N[N[a].a].w + N[b].w, N[a].a, b));
		if (N[a].op == E_ITE && N[b].op == E_ITE && N[a].a == N[b].a) return mk(E_ITE, w, N[a].a, mk(E_CONCAT, w, N[a].b, N[b].b), mk(E_CONCAT, w, N[a].c, N[b].c));
		// sign extension pattern: concat(sext-part...) left alone
		break; }
	case E_EXTRACT: {
		int off = aux;
		if (off == 0 && w == N[a].w) return a;
		switch (N[a].op) {
		case E_EXTRACT: return mkExtract(N[a].a, N[a].aux + off, w);
		case E_CONCAT: { int wb = N[N[a].b].w; if (off >= wb) return mkExtract(N[a].a, off - wb, w); if (off + w <= wb) return mkExtract(N[a].b, off, w);
			return mk(E_CONCAT, w, mkExtract(N[a].a, 0, off + w - wb), mkExtract(N[a].b, off, wb - off)); }
		case E_ZEXT: { int wi = N[N[a].a].w; if (off >= wi) return mkConst(0, w); if (off + w <= wi) return mkExtract(N[a].a, off, w); return mk(E_ZEXT, w, mkExtract(N[a].a, off, wi - off)); }
		case E_SEXT: { int wi = N[N[a].a].w; if (off + w <= wi) return mkExtract(N[a].a, off, w); if (off < wi) return mk(E_SEXT, w, mkExtract(N[a].a, off, wi - off)); return mk(E_SEXT, w, mkExtract(N[a].a, wi - 1, 1)); }
		case E_AND: case E_OR: case E_XOR: return mk(N[a].op, w, mkExtract(N[a].a, off, w), mkExtract(N[a].b, off, w));
		case E_ADD: case E_MUL: if (off == 0) return mk(N[a].op, w, mkExtract(N[a].a, 0, w), mkExtract(N[a].b, 0, w)); break;
		case E_ITE: if (isC(N[a].b) || isC(N[a].c) || off == 0) return mk(E_ITE, w, N[a].a, mkExtract(N[a].b, off, w), mkExtract(N[a].c, off, w)); break;
		}
		break; }
	case E_ZEXT: if (w == N[a].w) return a; if (N[a].op == E_ZEXT) return mk(E_ZEXT, w, N[a].a); break;
	case E_SEXT: if (w == N[a].w) return a; if (N[a].kz >> (N[a].w - 1) & 1) return mk(E_ZEXT, w, a); if (N[a].op == E_SEXT) return mk(E_SEXT, w, N[a].a); break;
	case E_ITE: {
		if (ca) return N[a].val ? b : c;
		if (b == c) return b;
		if (w == 1) {
			if (cb) return N[b].val ? mk(E_OR, 1, a, c) : mk(E_AND, 1, mkNot(a), c);
			if (cc) return N[c].val ? mk(E_OR, 1, mkNot(a), b) : mk(E_AND, 1, a, b);
		}
		if (N[a].op == E_XOR && isC(N[a].b)) return mk(E_ITE, w, N[a].a, c, b);
		if (N[b].op == E_ITE && N[b].a == a) return mk(E_ITE, w, a, N[b].b, c);
		if (N[c].op == E_ITE && N[c].a == a) return mk(E_ITE, w, a, b, N[c].c);
		if (N[c].op == E_ITE && N[c].b == b) return mk(E_ITE, w, mk(E_OR, 1, a, N[c].a), b, N[c].c);
		break; }
	case E_FPTRUNC: { if (N[a].op == E_FPEXT) return N[a].a; u32 x; bool sg; int ef; if (w == 32 && exactInt(a, x, sg, ef)) return mk(N[a].op, 32, x); break; }
	case E_FPEXT: { u32 x; bool sg; int ef; if (w == 64 && exactInt(a, x, sg, ef)) return mk(N[a].op, 64, x); break; }
	case E_FPTOSI: case E_FPTOUI: { u32 x; bool sg; int ef;   // an exactly converted integer converted back
		if (exactInt(a, x, sg, ef)) { int wi = N[x].w; if (sg) { if (op == E_FPTOSI && wi <= w) return wi == w ? x : mk(E_SEXT, w, x); } else if (ef <= (op == E_FPTOSI ? w - 1 : w)) return wi == w ? x : wi < w ? mk(E_ZEXT, w, x) : mkExtract(x, 0, w); } break; }
	case E_FSUB: break;
	case E_FMUL: if (cb && N[b].val == (w == 32 ? 0x3f800000ull : 0x3ff0000000000000ull)) return a; break;
	case E_FDIV: if (cb && N[b].val == (w == 32 ? 0x3f800000ull : 0x3ff0000000000000ull)) return a; break;
	case E_FCMP: {
		// comparisons of exactly converted integers become integer comparisons
		auto cvt = [&](u32 e, u32& in, bool& s) { int ef; return exactInt(e, in, s, ef); };
		u32 x, y; bool s1, s2;
		if (aux != FC_UNO && cvt(a, x, s1) && cvt(b, y, s2)) {
			int W = std::max(N[x].w, N[y].w) + 1; if (W <= 64) {
				u32 X = mk(s1 ? E_SEXT : E_ZEXT, W, x), Y = mk(s2 ? E_SEXT : E_ZEXT, W, y);
				return aux == FC_OEQ ? mk(E_EQ, 1, X, Y) : aux == FC_OLT ? mk(E_SLT, 1, X, Y) : mk(E_SLE, 1, X, Y); } }
		if (aux == FC_UNO) {
			auto nonan = [&](u32 e) { if (N[e].op == E_SITOFP || N[e].op == E_UITOFP) return true; if (isC(e)) { if (N[e].w == 32) { float f = asF(N[e].val); return f == f; } double d = asD(N[e].val); return d == d; } return false; };
			bool na = nonan(a), nb = nonan(b); if (na && nb) return mkConst(0, 1);
			if (nb && a != b) return mk(E_FCMP, 1, a, a, 0, FC_UNO);
			if (na && a != b) return mk(E_FCMP, 1, b, b, 0, FC_UNO);
		}
		if ((aux == FC_OLT) && a == b) return mkConst(0, 1);
		{ u32 l = lowerFcmp(aux, a, b); if (l) return l; }
		break; }
	}
	return cons(op, w, a, b, c, aux, 0);
}

// ---- evaluation ----
static std::vector<u32> stampV; static std::vector<u64> cacheV; static u32 epoch = 1;
void modelChanged() { ++epoch; }
u64 evalE(u32 e) {
	Node& n = N[e];
	if (n.op == E_CONST) return n.val;
	if (n.op == E_VAR) return MODEL[n.val] & mask(n.w);
	if (stampV.size() < N.size()) { stampV.resize(N.capacity(), 0); cacheV.resize(N.capacity(), 0); }
	if (stampV[e] == epoch) return cacheV[e];
	u64 r;
	if (n.op == E_ITE) r = evalE(n.a) ? evalE(N[e].b) : evalE(N[e].c);
	else { u64 a = evalE(n.a), b = n.b ? evalE(n.b) : 0; r = foldOp(n.op, n.w, n.aux, a, b, 0, N[n.a].w, n.b ? N[n.b].w : 0); }
	stampV[e] = epoch; cacheV[e] = r; return r;
}
// ---- substitution of fixed variables ----
static u64 fixedMask = 0; static u32 fepoch = 1; static std::vector<u32> fst; static std::vector<u32> fres;
void fixVar(u32 v, u64 val) { FIXED[v] = { 1, val & mask(VARS[v].w) }; fixedMask |= 1ull << (v & 63); ++fepoch; }
u32 reduceE(u32 e) {
	if (!(N[e].vmask & fixedMask)) return e;
	if (N[e].op == E_VAR) { auto& f = FIXED[N[e].val]; return f.first ? mkConst(f.second, N[e].w) : e; }
	if (fst.size() <= e) { fst.resize(N.capacity() + 1, 0); fres.resize(N.capacity() + 1, 0); }
	if (fst[e] == fepoch) return fres[e];
	Node n = N[e];
	u32 a = n.a ? reduceE(n.a) : 0, r;
	if (n.op == E_ITE && isC(a)) r = N[a].val ? reduceE(n.b) : reduceE(n.c);
	else { u32 b = n.b ? reduceE(n.b) : 0, c = n.c ? reduceE(n.c) : 0;
		r = (a == n.a && b == n.b && c == n.c) ? e : mk(n.op, n.w, a, b, c, n.aux); }
	if (fst.size() <= e) { fst.resize(N.capacity() + 1, 0); fres.resize(N.capacity() + 1, 0); }
	fst[e] = fepoch; fres[e] = r; return r;
}
std::string exprStr(u32 e, int d) {
	static const char* nm[] = { "none","const","var","add","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","frem","fsqrt","frnd","fcmp","fpext","fptrunc","fptosi","fptoui","sitofp","uitofp","uf" };
	Node& n = N[e]; char b[64];
	if (n.op == E_CONST) { snprintf(b, 64, "0x%llx:%d", (unsigned long long)n.val, n.w); return b; }
	if (n.op == E_VAR) return VARS[n.val].name;
	if (!d) return "...";
	std::string s = std::string("(") + nm[n.op] + ":" + std::to_string(n.w); if (n.op == E_EXTRACT || n.op == E_FCMP) s += "@" + std::to_string(n.aux);
	if (n.a) s += " " + exprStr(n.a, d - 1); if (n.b) s += " " + exprStr(n.b, d - 1); if (n.c) s += " " + exprStr(n.c, d - 1);
	return s + ")";
}
