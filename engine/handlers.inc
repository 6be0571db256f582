// ---- models of intrinsics, the C/C++ runtime, OpenMP and the harness interface ----
static std::unordered_map<std::string, Handler> HND;
static inline Val A(CallInfo& ci, Val* R, int i) { Val v = G(R, ci.args[i].slot); if (v.e) v = fromE(reduceE(v.e)); return v; }
static inline u64 AC(CallInfo& ci, Val* R, int i) { return concretize(A(ci, R, i), ci.args[i].w); }
static inline void RET(DInst& I, Val* R, Val v) { if (I.n) R[I.dst] = v; }
#define H(name) static void name(DInst& I, CallInfo& ci, Val* R)
H(h_nop) { RET(I, R, CV(0)); }
H(h_ret1) { RET(I, R, CV(1)); }
static u64 doAlloc(u64 n, int ak, bool uninit) { if (n > (1ull << 30)) { if (ak == AK_MALLOC) return 0; memError("huge-allocation"); } return allocHeap(n, ak, uninit); }
static void doFree(u64 p, int ak) {
	if (!p) return; Obj* o = objAt(p);
	if (!o || o->kind != OK_HEAP || o->base != p) memError("bad-free");
	if (!o->live) memError("double-free");
	if (o->ak != ak) memError("mismatched-dealloc");
	if (RACEON) raceAccess(p, o->size, true, false);
	o->live = 0; HEAPLIVE--; HEAPBYTES -= o->size;
}
H(h_malloc) { RET(I, R, CV(doAlloc(AC(ci, R, 0), AK_MALLOC, true))); }
H(h_calloc) { RET(I, R, CV(doAlloc(AC(ci, R, 0) * AC(ci, R, 1), AK_MALLOC, false))); }
H(h_alignedalloc) { RET(I, R, CV(doAlloc(AC(ci, R, 1), AK_MALLOC, true))); }
H(h_new) { RET(I, R, CV(doAlloc(AC(ci, R, 0), AK_NEW, true))); }
H(h_newa) { RET(I, R, CV(doAlloc(AC(ci, R, 0), AK_NEWA, true))); }
H(h_free) { doFree(AC(ci, R, 0), AK_MALLOC); }
H(h_del) { doFree(AC(ci, R, 0), AK_NEW); }
H(h_dela) { doFree(AC(ci, R, 0), AK_NEWA); }
H(h_realloc) { u64 p = AC(ci, R, 0), n = AC(ci, R, 1); u64 q = doAlloc(n, AK_MALLOC, true); if (p) { Obj* o = objAt(p); if (!o || o->base != p || o->kind != OK_HEAP || !o->live) memError("bad-realloc"); u64 m = std::min(n, o->size); if (m) copyMem(q, p, m); doFree(p, AK_MALLOC); } RET(I, R, CV(q)); }
H(h_memcpy) { u64 n = AC(ci, R, 2), d = AC(ci, R, 0), s = AC(ci, R, 1); copyMem(d, s, n); RET(I, R, CV(d)); }
H(h_memset) { u64 n = AC(ci, R, 2), d = AC(ci, R, 0); Val v = A(ci, R, 1); if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255; setMem(d, v, n); RET(I, R, CV(d)); }
H(h_abort) { memError("abort"); }
H(h_assertfail) { memError("assert-fail"); }
H(h_exit) { memError("exit-called"); }
// float
static int ufIndex(const std::string& n, double (*d1)(double), double (*d2)(double, double), float (*f1)(float), float (*f2)(float, float), int w) { for (size_t i = 0; i < UFS.size(); ++i) if (UFS[i].name == n && UFS[i].w == w) return i; UFInfo u; u.name = n; u.d1 = d1; u.d2 = d2; u.f1 = f1; u.f2 = f2; u.w = w; UFS.push_back(u); return UFS.size() - 1; }
template <double (*D)(double), float (*F)(float)> static void h_m1(DInst& I, CallInfo& ci, Val* R) {
	Val a = A(ci, R, 0); int w = I.w; std::string n = ci.name;
	int u = ufIndex(n, D, nullptr, F, nullptr, w);
	if (!a.e) RET(I, R, CV(foldOp(E_UF, w, u, a.c, 0, 0, w, 0))); else RET(I, R, fromE(mk(E_UF, w, a.e, 0, 0, u)));
}
template <double (*D)(double, double), float (*F)(float, float)> static void h_m2(DInst& I, CallInfo& ci, Val* R) {
	Val a = A(ci, R, 0), b = A(ci, R, 1); int w = I.w; int u = ufIndex(ci.name, nullptr, D, nullptr, F, w);
	if (!a.e && !b.e) RET(I, R, CV(foldOp(E_UF, w, u, a.c, b.c, 0, w, w))); else RET(I, R, fromE(mk(E_UF, w, toE(a, w), toE(b, w), 0, u)));
}
static void unaryF(DInst& I, CallInfo& ci, Val* R, int op, int aux) { for (u32 k = 0; k < I.n; ++k) { Val a = ci.args[0].slot >= 0 ? R[ci.args[0].slot + k] : CP[~ci.args[0].slot + k]; R[I.dst + k] = a.e ? fromE(mk(op, I.w, a.e, 0, 0, aux)) : CV(foldOp(op, I.w, aux, a.c, 0, 0, I.w, 0)); } }
H(h_sqrt) { unaryF(I, ci, R, E_FSQRT, 0); }
H(h_floor) { unaryF(I, ci, R, E_FRND, 0); } H(h_ceil) { unaryF(I, ci, R, E_FRND, 1); } H(h_trunc) { unaryF(I, ci, R, E_FRND, 2); } H(h_round) { unaryF(I, ci, R, E_FRND, 3); } H(h_rint) { unaryF(I, ci, R, E_FRND, 4); }
H(h_fabs) { for (u32 k = 0; k < I.n; ++k) { Val a = ci.args[0].slot >= 0 ? R[ci.args[0].slot + k] : CP[~ci.args[0].slot + k]; u64 m = mask(I.w - 1); R[I.dst + k] = a.e ? fromE(mk(E_AND, I.w, a.e, mkConst(m, I.w))) : CV(a.c & m); } }
H(h_copysign) { int w = I.w; u64 s = 1ull << (w - 1); u32 a = toE(A(ci, R, 0), w), b = toE(A(ci, R, 1), w); RET(I, R, fromE(mk(E_OR, w, mk(E_AND, w, a, mkConst(mask(w) & ~s, w)), mk(E_AND, w, b, mkConst(s, w))))); }
static void minmaxF(DInst& I, CallInfo& ci, Val* R, bool mx) { // fmin/fmax/minnum/maxnum: NaN-ignoring
	int w = I.w; Val a = A(ci, R, 0), b = A(ci, R, 1); Val an = fcmp(CmpInst::FCMP_UNO, w, a, a), bn = fcmp(CmpInst::FCMP_UNO, w, b, b); Val lt = mx ? fcmp(CmpInst::FCMP_OLT, w, b, a) : fcmp(CmpInst::FCMP_OLT, w, a, b);
	Val r = selectV(lt, a, b, w); r = selectV(bn, a, r, w); r = selectV(an, b, r, w); RET(I, R, r); }
H(h_fmin) { minmaxF(I, ci, R, false); } H(h_fmax) { minmaxF(I, ci, R, true); }
H(h_fmuladd) { Val m = fbin(Instruction::FMul, I.w, A(ci, R, 0), A(ci, R, 1)); RET(I, R, fbin(Instruction::FAdd, I.w, m, A(ci, R, 2))); }
H(h_isfpclass) { u64 m = AC(ci, R, 1); int w = ci.args[0].w; Val a = A(ci, R, 0); if (m == 3) { RET(I, R, fcmp(CmpInst::FCMP_UNO, w, a, a)); return; } u64 inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull; Val ab = binop(Instruction::And, w, a, CV(mask(w - 1)));
	if (m == 516) RET(I, R, icmp(CmpInst::ICMP_EQ, w, ab, CV(inf))); else if (m == 504) RET(I, R, icmp(CmpInst::ICMP_ULT, w, ab, CV(inf))); else engineError("is.fpclass"); }
// integer intrinsics (element-wise)
static Val EL(CallInfo& ci, Val* R, int i, u32 k) { i32 s = ci.args[i].slot; return s >= 0 ? R[s + k] : CP[~s + k]; }
template <int P> static void h_imm(DInst& I, CallInfo& ci, Val* R) { for (u32 k = 0; k < I.n; ++k) { Val a = EL(ci, R, 0, k), b = EL(ci, R, 1, k); R[I.dst + k] = selectV(icmp(P, I.w, a, b), a, b, I.w); } }
H(h_iabs) { for (u32 k = 0; k < I.n; ++k) { Val a = EL(ci, R, 0, k); R[I.dst + k] = selectV(icmp(CmpInst::ICMP_SLT, I.w, a, CV(0)), binop(Instruction::Sub, I.w, CV(0), a), a, I.w); } }
template <int KIND> static void h_ovf(DInst& I, CallInfo& ci, Val* R) { // 0 uadd 1 sadd 2 usub 3 ssub 4 umul 5 smul
	int w = ci.args[0].w; Val a = A(ci, R, 0), b = A(ci, R, 1); int op = KIND < 2 ? Instruction::Add : KIND < 4 ? Instruction::Sub : Instruction::Mul; Val r = binop(op, w, a, b), o;
	if (!a.e && !b.e) { bool ov; if (KIND == 4) ov = ((u128)a.c * b.c) >> w; else if (KIND == 5) { __int128 p = (__int128)sx(a.c, w) * sx(b.c, w); ov = p != sx((u64)p & mask(w), w); } else if (KIND == 0) ov = r.c < a.c; else if (KIND == 2) ov = a.c < b.c; else { __int128 p = KIND == 1 ? (__int128)sx(a.c, w) + sx(b.c, w) : (__int128)sx(a.c, w) - sx(b.c, w); ov = p != sx((u64)p & mask(w), w); } o = CV(ov); }
	else if (w <= 32) { int W = 2 * w; bool sg = KIND & 1; u32 x = mk(sg ? E_SEXT : E_ZEXT, W, toE(a, w)), y = mk(sg ? E_SEXT : E_ZEXT, W, toE(b, w)); u32 f = op == Instruction::Add ? mk(E_ADD, W, x, y) : op == Instruction::Sub ? mkSub(x, y) : mk(E_MUL, W, x, y); o = fromE(mkNot(mk(E_EQ, 1, f, mk(sg ? E_SEXT : E_ZEXT, W, toE(r, w))))); }
	else { // 64-bit
		if (KIND == 0) o = icmp(CmpInst::ICMP_ULT, w, r, a); else if (KIND == 2) o = icmp(CmpInst::ICMP_ULT, w, a, b);
		else if (KIND == 4 && !b.e) { o = b.c ? icmp(CmpInst::ICMP_UGT, w, a, CV(mask(w) / b.c)) : CV(0); } else if (KIND == 4 && !a.e) { o = a.c ? icmp(CmpInst::ICMP_UGT, w, b, CV(mask(w) / a.c)) : CV(0); }
		else engineError("64-bit overflow intrinsic"); }
	R[I.dst] = r; R[I.dst + 1] = o;
}
H(h_uaddsat) { for (u32 k = 0; k < I.n; ++k) { Val a = EL(ci, R, 0, k), b = EL(ci, R, 1, k); Val r = binop(Instruction::Add, I.w, a, b); R[I.dst + k] = selectV(icmp(CmpInst::ICMP_ULT, I.w, r, a), CV(mask(I.w)), r, I.w); } }
H(h_usubsat) { for (u32 k = 0; k < I.n; ++k) { Val a = EL(ci, R, 0, k), b = EL(ci, R, 1, k); R[I.dst + k] = selectV(icmp(CmpInst::ICMP_ULT, I.w, a, b), CV(0), binop(Instruction::Sub, I.w, a, b), I.w); } }
H(h_ctpop) { for (u32 k = 0; k < I.n; ++k) { Val a = EL(ci, R, 0, k); if (!a.e) { R[I.dst + k] = CV(__builtin_popcountll(a.c)); continue; } u32 s = mkConst(0, I.w); for (int i = 0; i < I.w; ++i) s = mk(E_ADD, I.w, s, mk(E_ZEXT, I.w, mkExtract(a.e, i, 1))); R[I.dst + k] = fromE(s); } }
H(h_cttz) { Val a = A(ci, R, 0); u64 r; if (!a.e) { r = a.c ? __builtin_ctzll(a.c) : I.w; RET(I, R, CV(r)); return; } u32 e = mkConst(I.w, I.w); for (int i = I.w - 1; i >= 0; --i) e = mk(E_ITE, I.w, mkExtract(a.e, i, 1), mkConst(i, I.w), e); RET(I, R, fromE(e)); }
H(h_ctlz) { Val a = A(ci, R, 0); if (!a.e) { u64 r = a.c ? __builtin_clzll(a.c) - (64 - I.w) : I.w; RET(I, R, CV(r)); return; } u32 e = mkConst(I.w, I.w); for (int i = 0; i < I.w; ++i) e = mk(E_ITE, I.w, mkExtract(a.e, i, 1), mkConst(I.w - 1 - i, I.w), e); RET(I, R, fromE(e)); }
H(h_bswap) { Val a = A(ci, R, 0); u32 e = toE(a, I.w), r = 0; for (int i = 0; i < I.w; i += 8) { u32 b = mkExtract(e, i, 8); r = r ? mk(E_CONCAT, N[r].w + 8, r, b) : b; } RET(I, R, fromE(r)); }
template <bool L> static void h_fsh(DInst& I, CallInfo& ci, Val* R) { int w = I.w; u64 s = AC(ci, R, 2) % w; Val a = A(ci, R, 0), b = A(ci, R, 1); if (!s) { RET(I, R, L ? a : b); return; } u64 l = L ? s : w - s; Val x = binop(Instruction::Shl, w, a, CV(l)), y = binop(Instruction::LShr, w, b, CV(w - l)); RET(I, R, binop(Instruction::Or, w, x, y)); }
template <int OP> static void h_reduce(DInst& I, CallInfo& ci, Val* R) { Val r = EL(ci, R, 0, 0); for (u32 k = 1; k < ci.args[0].n; ++k) r = binop(OP, I.w, r, EL(ci, R, 0, k)); RET(I, R, r); }
H(h_expect) { RET(I, R, A(ci, R, 0)); }
H(h_objsize) { RET(I, R, CV(mask(I.w))); }
H(h_stacksave) { RET(I, R, CV(0)); }
H(h_vastart) { u64 p = AC(ci, R, 0); chk(p, 24, true); storeAt(p, 32, CV(48)); storeAt(p + 4, 32, CV(176)); storeAt(p + 8, 64, CV(STK.back().vaArea)); storeAt(p + 16, 64, CV(0)); }
H(h_vacopy) { copyMem(AC(ci, R, 0), AC(ci, R, 1), 24); }
// ---- C library bits that need the host
static std::string fmtNative(const std::string& f, std::function<Val(bool)> next) {
	std::string o; for (size_t i = 0; i < f.size();) { if (f[i] != '%') { o += f[i++]; continue; } if (f[i + 1] == '%') { o += '%'; i += 2; continue; }
		size_t j = i + 1; std::string spec = "%"; int lg = 0; while (j < f.size() && strchr("-+ #0123456789.*", f[j])) { if (f[j] == '*') { spec += std::to_string((int)concretize(next(false), 64)); } else spec += f[j]; ++j; }
		while (j < f.size() && strchr("lhzjtqL", f[j])) { if (f[j] == 'l' || f[j] == 'z' || f[j] == 'j' || f[j] == 't' || f[j] == 'q') ++lg; else if (f[j] == 'h') --lg; ++j; }
		char c = f[j]; i = j + 1; char b[2048];
		if (strchr("di", c)) { i64 v = (i64)concretize(next(false), 64); v = lg > 0 ? v : lg == 0 ? (i64)(i32)v : lg == -1 ? (i64)(i16)v : (i64)(i8)v; snprintf(b, sizeof b, (spec + "lld").c_str(), (long long)v); o += b; }
		else if (strchr("uxXo", c)) { u64 v = concretize(next(false), 64); v = lg > 0 ? v : lg == 0 ? (u32)v : lg == -1 ? (u16)v : (u8)v; snprintf(b, sizeof b, (spec + "ll" + c).c_str(), (unsigned long long)v); o += b; }
		else if (c == 'c') { o += (char)concretize(next(false), 64); }
		else if (c == 's') { u64 p = concretize(next(false), 64); std::string s = readStr(p); snprintf(b, sizeof b, (spec + "s").c_str(), s.c_str()); o += b; }
		else if (c == 'p') { snprintf(b, sizeof b, "%p", (void*)concretize(next(false), 64)); o += b; }
		else if (strchr("fFeEgGaA", c)) { u64 v = concretize(next(true), 64); double d; memcpy(&d, &v, 8); snprintf(b, sizeof b, (spec + c).c_str(), d); o += b; }
		else engineError("format " + f); }
	return o;
}
static void putStr(u64 dst, u64 lim, const std::string& s) { for (u64 i = 0; i <= s.size(); ++i) { if (lim != ~0ull && i >= lim) break; u8 c = i == s.size() ? 0 : s[i]; if (lim != ~0ull && i + 1 == lim) c = 0; chk(dst + i, 1, true); storeAt(dst + i, 8, CV(c)); } }
static std::function<Val(bool)> fromArgs(CallInfo& ci, Val* R, int first) { int* k = new int(first); return [&ci, R, k](bool) { if (*k >= (int)ci.args.size()) memError("too-few-format-arguments"); int i = (*k)++; Val v = A(ci, R, i); if (v.e && ci.args[i].w < 64) v = fromE(mk(E_ZEXT, 64, v.e)); return v; }; }
static std::function<Val(bool)> fromVaList(u64 va) { return [va](bool fp) { chk(va, 24, true); u64 off = loadAt(va + (fp ? 4 : 0), 32).c; (void)off; u64 p = loadAt(va + 8, 64).c; chk(p, 8, false); Val v = loadAt(p, 64); storeAt(va + 8, 64, CV(p + 8)); return v; }; }
H(h_snprintf) { u64 d = AC(ci, R, 0), n = AC(ci, R, 1); std::string s = fmtNative(readStr(AC(ci, R, 2)), fromArgs(ci, R, 3)); if (n) putStr(d, n, s); RET(I, R, CV((u32)s.size())); }
H(h_sprintf) { u64 d = AC(ci, R, 0); std::string s = fmtNative(readStr(AC(ci, R, 1)), fromArgs(ci, R, 2)); putStr(d, ~0ull, s); RET(I, R, CV((u32)s.size())); }
H(h_vsnprintf) { u64 d = AC(ci, R, 0), n = AC(ci, R, 1); std::string s = fmtNative(readStr(AC(ci, R, 2)), fromVaList(AC(ci, R, 3))); if (n) putStr(d, n, s); RET(I, R, CV((u32)s.size())); }
H(h_vsprintf) { u64 d = AC(ci, R, 0); std::string s = fmtNative(readStr(AC(ci, R, 1)), fromVaList(AC(ci, R, 2))); putStr(d, ~0ull, s); RET(I, R, CV((u32)s.size())); }
H(h_strtod) { u64 p = AC(ci, R, 0); std::string s = readStr(p); char* e; double d = strtod(s.c_str(), &e); if (ci.args.size() > 1) { u64 q = AC(ci, R, 1); if (q) storeV(CV(q), 64, CV(p + (e - s.c_str()))); } u64 v; memcpy(&v, &d, 8); RET(I, R, CV(v)); }
H(h_strtof) { u64 p = AC(ci, R, 0); std::string s = readStr(p); char* e; float d = strtof(s.c_str(), &e); if (ci.args.size() > 1) { u64 q = AC(ci, R, 1); if (q) storeV(CV(q), 64, CV(p + (e - s.c_str()))); } u32 v; memcpy(&v, &d, 4); RET(I, R, CV(v)); }
H(h_trap) { memError("trap"); }
H(h_guard_acquire) { u64 p = AC(ci, R, 0); RET(I, R, CV(loadAt(p, 8).c == 0)); }
H(h_guard_release) { u64 p = AC(ci, R, 0); storeAt(p, 8, CV(1)); }
H(h_clock) { static u64 t = 1000; RET(I, R, CV(t += 1000)); }
H(h_gettime) { static u64 t = 1000; u64 p = AC(ci, R, ci.args.size() - 1 == 0 ? 0 : (ci.name == "gettimeofday" ? 0 : 1)); t += 1000; if (p) { storeV(CV(p), 64, CV(t / 1000000)); storeV(CV(p + 8), 64, CV(t % 1000000)); } RET(I, R, CV(0)); }
H(h_time) { static u64 t = 1700000000; if (ci.args.size()) { u64 p = AC(ci, R, 0); if (p) storeV(CV(p), 64, CV(t)); } RET(I, R, CV(t)); }
H(h_lock) { ++LOCKS; RET(I, R, CV(0)); }
H(h_unlock) { --LOCKS; RET(I, R, CV(0)); }
// ---- OpenMP
static int OMPREQ = 0, OMPDEF = 4; static bool INPAR = false;
H(h_kmpc_gtid) { RET(I, R, CV(INPAR ? OMPT : 0)); }
H(h_kmpc_push) { OMPREQ = (int)(i32)AC(ci, R, 2); }
H(h_omp_tnum) { RET(I, R, CV(INPAR ? OMPT : 0)); } H(h_omp_nthr) { RET(I, R, CV(INPAR ? OMPN : 1)); } H(h_omp_max) { RET(I, R, CV(OMPDEF)); } H(h_omp_set) { int n = (int)(i32)AC(ci, R, 0); if (n > 0) OMPDEF = n; } H(h_omp_inpar) { RET(I, R, CV(INPAR)); }
// threads as coroutines (each has its own C stack, interpreter stack and simulated stack)
struct Thr { ucontext_t uc; std::vector<Frame> stk; u64 vstop, stk0, stkTop; int id; bool done; DFunc* df; std::vector<Val> av; };
static std::vector<Thr*> THR; static int THCUR = -1; static ucontext_t THMAIN; static u32 PREVAR = 0;
static void thrEntry(int k) { Thr* t = THR[k]; callFn(t->df, t->av); t->done = true; swapcontext(&t->uc, &THMAIN); }
static void thrSave() { Thr* t = THR[THCUR]; t->stk.swap(STK); t->vstop = VSTOP; t->stkTop = stackTop; }
static void thrLoad(int k) { Thr* t = THR[k]; THCUR = k; STK.swap(t->stk); VSTOP = t->vstop; stackTop = t->stkTop; OMPT = t->id; }
static Val newInt(const std::string& nm, i64 lo, i64 hi, int w);
static void preemptPoint() {
	if (THCUR < 0) return; std::vector<int> oth; for (int k = 0; k < (int)THR.size(); ++k) if (k != THCUR && !THR[k]->done) oth.push_back(k);
	if (oth.empty()) return;
	if (oth.size() > 3) { std::vector<int> q = { oth[0], oth[oth.size() / 2], oth.back() }; oth = q; }
	if (!PREVAR) { Val v = newInt("preempt_at", 0, 1 << 30, 32); PREVAR = toE(v, 32); PREEMPT_K = 0; }
	if (!decide(mk(E_EQ, 1, PREVAR, mkConst(PREEMPT_K++, 32)))) return;
	--PREEMPT_LEFT; PREVAR = 0; Val w = newInt("preempt_by", 0, (i64)oth.size() - 1, 32); int to = oth[concretize(w, 32)];
	DInst* cur = CUR; Thr* me = THR[THCUR]; int my = THCUR; thrSave(); THR[my]->id = OMPT; thrLoad(to); swapcontext(&me->uc, &THR[to]->uc); CUR = cur;
}
static void runThreads(DFunc* df, const std::vector<Val>& extra, const std::vector<int>& seq, int n) {
	u64 vs0 = VSTOP, st0 = stackTop, step = std::min<u64>((VSMAX - VSTOP) / (n + 1), 1 << 17), sstep = std::min<u64>(((AB + ASZ - stackTop) / (n + 1)) & ~4095ull, 1 << 22); u64 base = (stackTop + 4095) & ~4095ull; raceSeq0 = objSeq;
	std::vector<Frame> main; main.swap(STK); OMPN = n; INPAR = true; PREEMPT_LEFT = (int)OPTS["preempt"]; PREVAR = 0;
	for (int i = 0; i < n; ++i) {
		Thr* t = new Thr; t->id = seq[i]; t->done = false; t->df = df; t->vstop = vs0 + i * step; t->stk0 = base + i * sstep; stackTop = t->stk0; u64 g = allocStack(4, false), b = allocStack(4, false); storeAt(g, 32, CV(t->id)); storeAt(b, 32, CV(0)); t->stkTop = stackTop;
		t->av = { CV(g), CV(b) }; for (auto& v : extra) t->av.push_back(v);
		getcontext(&t->uc); size_t cs = 8 << 20; t->uc.uc_stack.ss_sp = mmap(nullptr, cs, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); t->uc.uc_stack.ss_size = cs; t->uc.uc_link = &THMAIN; makecontext(&t->uc, (void (*)())thrEntry, 1, i); THR.push_back(t);
	}
	for (;;) { // threads run in order; a preempted thread resumes once the ones before it are done
		int k = 0; while (k < n && THR[k]->done) ++k; if (k == n) break;
		thrLoad(k); swapcontext(&THMAIN, &THR[k]->uc); thrSave(); if (getenv("FVX_DBG")) fprintf(stderr, "thread %d done\n", THCUR);
	}
	int left = PREEMPT_LEFT; PREEMPT_LEFT = 0; OPTS["preempt"] = left; THCUR = -1;
	for (Thr* t : THR) { munmap(t->uc.uc_stack.ss_sp, 8 << 20); stackTop = t->stkTop; popStack(t->stk0); delete t; } THR.clear();
	STK.swap(main); VSTOP = vs0; stackTop = st0;
}
H(h_kmpc_fork) {
	u64 fa = AC(ci, R, 2); Obj* o = objAt(fa); if (!o || o->kind != OK_FUNC) memError("bad-function-pointer"); DFunc* df = FUNCS[o->fn];
	std::vector<Val> extra; for (size_t i = 3; i < ci.args.size(); ++i) extra.push_back(A(ci, R, i));
	int n = OMPREQ > 0 ? OMPREQ : OMPDEF; OMPREQ = 0; if (INPAR) n = 1; SH->omp++;
	i64 ord = OPTS.count("omp_order") ? OPTS["omp_order"] : 0;    // 0 ascending, 1 descending, 2 rotate by half
	int savT = OMPT, savN = OMPN; bool savP = INPAR, nested = INPAR;
	std::vector<int> seq; for (int i = 0; i < n; ++i) seq.push_back(i);
	if (ord == 1) std::reverse(seq.begin(), seq.end()); else if (ord == 2) std::rotate(seq.begin(), seq.begin() + n / 2, seq.end());
	bool race = !nested && n > 1 && OPTS.count("race"); auto* oldR = RACE;
	if (race) { RACE = new std::unordered_map<u64, Acc>; raceSeq0 = objSeq; }
	if (!nested && n > 1 && OPTS.count("preempt") && OPTS["preempt"] > 0) { runThreads(df, extra, seq, n); OMPT = savT; OMPN = savN; INPAR = savP; return; }
	bool coll = !nested && n > 1 && OPTS.count("race_collect"); if (coll) { RACE = new std::unordered_map<u64, Acc>; RACEI = new std::unordered_map<u64, std::vector<DInst*>>; raceSeq0 = objSeq; COLLECT = race = true; }
	for (int t : seq) {
		u64 mark = stackTop; u64 g = allocStack(4, false), b = allocStack(4, false); storeAt(g, 32, CV(t)); storeAt(b, 32, CV(0));
		std::vector<Val> av = { CV(g), CV(b) }; for (auto& v : extra) av.push_back(v);
		OMPT = nested ? savT : t; OMPN = n; INPAR = true; if (race) RACEON = true;
		callFn(df, av); RACEON = nested ? RACEON : false; popStack(mark);
	}
	if (race) { delete RACE; RACE = oldR; }
	if (coll) { delete RACEI; RACEI = nullptr; COLLECT = false; }
	OMPT = savT; OMPN = savN; INPAR = savP;
}
H(h_kmpc_static4) {
	bool l64 = ci.name.find("_8") != std::string::npos; int w = l64 ? 64 : 32;
	int st = (int)AC(ci, R, 2); u64 pl = AC(ci, R, 3), plo = AC(ci, R, 4), phi = AC(ci, R, 5), pst = AC(ci, R, 6); i64 inc = sx(AC(ci, R, 7), w), ch = sx(AC(ci, R, 8), w);
	bool ro = RACEON; RACEON = false;
	i64 lo = sx(concretize(loadV(CV(plo), w), w), w), hi = sx(concretize(loadV(CV(phi), w), w), w); int n = INPAR ? OMPN : 1, t = INPAR ? OMPT : 0; i64 tc = inc > 0 ? (hi - lo) / inc + 1 : (lo - hi) / (-inc) + 1; if (inc > 0 ? hi < lo : lo < hi) tc = 0;
	bool last = false; i64 str = hi - lo + 1, nlo = lo, nhi = hi;
	if (tc > 0) {
		if (st == 34) { if (tc < n) { if (t < tc) { nlo = nhi = lo + t * inc; last = t == tc - 1; } else { nlo = hi + inc; nhi = hi; } } else { i64 sm = tc / n, ex = tc % n; nlo = lo + inc * (t * sm + (t < ex ? t : ex)); nhi = nlo + sm * inc - (t < ex ? 0 : inc); last = t == n - 1; } str = tc; }
		else if (st == 33) { if (ch < 1) ch = 1; i64 span = ch * inc; str = span * n; nlo = lo + span * t; nhi = nlo + span - inc; last = t == (((tc - 1) / ch) % n); }
		else engineError("omp static schedule kind");
	}
	if (pl) storeV(CV(pl), 32, CV(last)); storeV(CV(plo), w, CV((u64)nlo & mask(w))); storeV(CV(phi), w, CV((u64)nhi & mask(w))); storeV(CV(pst), w, CV((u64)str & mask(w))); RACEON = ro;
}
H(h_kmpc_barrier) { if (INPAR && OMPN > 1) engineError("OpenMP barrier inside a parallel region is not modelled"); }
H(h_kmpc_crit) { ++LOCKS; RET(I, R, CV(1)); } H(h_kmpc_endcrit) { --LOCKS; }
H(h_kmpc_reduce) { ++LOCKS; RET(I, R, CV(1)); }
// dynamic schedule: every remaining iteration goes to the thread that asks (sequentialised); race log still applies
static std::map<u64, std::pair<i64, std::pair<i64, i64>>> DISP; static u64 dispKey = 0; static i64 dlo, dhi, dinc, dchunk; static bool dact = false; static int dseen = 0;
H(h_kmpc_dinit) { i64 lo = sx(AC(ci, R, 3), 32), hi = sx(AC(ci, R, 4), 32), inc = sx(AC(ci, R, 5), 32), ch = sx(AC(ci, R, 6), 32); if (!dact || dseen == 0) { dlo = lo; dhi = hi; dinc = inc; dchunk = ch < 1 ? 1 : ch; dact = true; } dseen++; }
H(h_kmpc_dnext) { // round-robin share: thread takes at most ceil(remaining/threads left) chunks
	u64 pl = AC(ci, R, 2), plo = AC(ci, R, 3), phi = AC(ci, R, 4), pst = AC(ci, R, 5); static i64 taken = 0; static int who = -1; if (who != OMPT) { who = OMPT; taken = 0; }
	i64 rem = dinc > 0 ? (dhi - dlo) / dinc + 1 : (dlo - dhi) / -dinc + 1; if (dinc > 0 ? dhi < dlo : dlo < dhi) rem = 0; int left = OMPN - dseen + 1; i64 share = (rem + taken + left - 1) / (left > 0 ? left : 1);
	if (rem <= 0 || (left > 1 && taken >= share)) { taken = 0; who = -1; if (dseen >= OMPN || !INPAR) { dact = false; dseen = 0; } RET(I, R, CV(0)); return; }
	i64 k = std::min(dchunk, rem); storeV(CV(pl), 32, CV(k == rem)); storeV(CV(plo), 32, CV((u64)dlo & mask(32))); storeV(CV(phi), 32, CV((u64)(dlo + (k - 1) * dinc) & mask(32))); storeV(CV(pst), 32, CV(1)); dlo += k * dinc; taken += k; RET(I, R, CV(1)); }
// ---- harness interface
static std::string uname(const std::string& b) { int k = NAMES[b]++; return k ? b + "#" + std::to_string(k) : b; }
static int bitlen(u64 x) { return x ? 64 - __builtin_clzll(x) : 1; }
static Val newInt(const std::string& nm, i64 lo, i64 hi, int w) {
	std::string n = uname(nm); if (lo > hi) { SH->infeasible++; quitProcess(); }
	Val r;
	auto fx = FIXIN.find(n);
	if (lo == hi) r = CV((u64)lo & mask(w));
	else if (fx != FIXIN.end()) r = CV((u64)fx->second & mask(w));
	else { u64 span = (u64)hi - (u64)lo; int b = bitlen(span); u32 v = mkVar(n, b, 0, false); MODEL[N[v].val] = 0; modelChanged();
		if (span != mask(b)) addPC(mk(E_ULE, 1, v, mkConst(span, b)));
		u32 e = b < w ? mk(E_ZEXT, w, v) : v; if (lo) e = mk(E_ADD, w, e, mkConst((u64)lo, w)); r = fromE(e); }
	Input in; in.name = n; in.kind = 0; in.v = r; in.w = w; INPUTS.push_back(in); return r;
}
H(h_vp_int) { std::string n = readStr(AC(ci, R, 0)); i64 lo = sx(AC(ci, R, 1), 32), hi = sx(AC(ci, R, 2), 32); RET(I, R, newInt(n, lo, hi, 32)); }
H(h_vp_i64) { std::string n = readStr(AC(ci, R, 0)); RET(I, R, newInt(n, (i64)AC(ci, R, 1), (i64)AC(ci, R, 2), 64)); }
H(h_vp_choose) { std::string n = readStr(AC(ci, R, 0)); i64 k = sx(AC(ci, R, 1), 32); Val v = newInt(n, 0, k - 1, 32); RET(I, R, CV(concretize(v, 32))); }
H(h_vp_f32) { std::string n = uname(readStr(AC(ci, R, 0))); Input in; in.name = n; in.kind = 1; in.v = FIXIN.count(n) ? CV((u64)FIXIN[n] & mask(32)) : fromE(mkVar(n, 32, 0, false)); in.w = 32; INPUTS.push_back(in); RET(I, R, in.v); }
H(h_vp_f64) { std::string n = uname(readStr(AC(ci, R, 0))); Input in; in.name = n; in.kind = 2; in.v = FIXIN.count(n) ? CV((u64)FIXIN[n]) : fromE(mkVar(n, 64, 0, false)); in.w = 64; INPUTS.push_back(in); RET(I, R, in.v); }
H(h_vp_bytes) { std::string n = readStr(AC(ci, R, 0)); u64 p = AC(ci, R, 1), k = AC(ci, R, 2); for (u64 i = 0; i < k; ++i) { Val v = newInt(n + "[" + std::to_string(i) + "]", 0, 255, 8); chk(p + i, 1, true); storeAt(p + i, 8, v); } }
H(h_vp_concretize) { u64 v = concretize(A(ci, R, 0), 64); RET(I, R, CV(v)); }
static u32 asBool(Val v, int w) { return v.e ? mkNot(mk(E_EQ, 1, v.e, mkConst(0, w))) : mkConst(v.c != 0, 1); }
H(h_vp_assume) { assumeE(asBool(A(ci, R, 0), ci.args[0].w)); }
H(h_vp_assert) {
	u32 c = reduceE(asBool(A(ci, R, 0), ci.args[0].w)); std::string lab = readStr(AC(ci, R, 1)); SH->asserts++; label(lab, 2).count++;
	bool tv; if (isC(c) ? N[c].val : (truthOf(c, tv) && tv)) return;
	u32 nc = mkNot(c); std::vector<u64> nm; SRes r;
	if (isC(c)) { violation(lab, "assert"); if (lab.compare(0, 3, "KF:") == 0) return; endPath(false); }
	r = feasible(nc, nm);
	if (r == S_UNSAT) { TRUTH[c] = true; return; }
	if (r == S_UNKNOWN) { SH->incomplete++; addPC(c); return; }
	{ auto sv = MODEL; MODEL = nm; modelChanged(); violation(lab, "assert"); MODEL = sv; modelChanged(); }
	assumeE(c);
}
H(h_vp_reach) { label(readStr(AC(ci, R, 0)), 1).count++; }
H(h_vp_obs) { Obs o; o.label = readStr(AC(ci, R, 0)); o.kind = 0; o.v = A(ci, R, 1); if (ci.args[1].w < 64) { if (o.v.e) o.v = fromE(mk(E_ZEXT, 64, o.v.e)); } o.w = 64; OBS.push_back(o); }
H(h_vp_heap) { RET(I, R, CV(HEAPBYTES)); }
H(h_vp_opt) { std::string n = readStr(AC(ci, R, 0)); i64 v = sx(AC(ci, R, 1), 32); if (n == "omp_default") OMPDEF = v; else if (n == "instr_limit_k") INSTR_LIMIT = (u64)v * 1000; else if (v == -1) OPTS.erase(n); else OPTS[n] = v; }
H(h_vp_param) { std::string n = readStr(AC(ci, R, 0)); auto it = OPTS.find("p:" + n); RET(I, R, CV(it == OPTS.end() ? (AC(ci, R, 1)) : (u64)it->second & mask(32))); }
H(h_vp_end) { endPath(true); }
H(h_vp_issym) { RET(I, R, CV(A(ci, R, 0).e != 0)); }
H(h_vp_havoc) { std::string n = readStr(AC(ci, R, 0)); u64 p = AC(ci, R, 1), k = AC(ci, R, 2); chk(p, k, true); setUninit(p, k); }

static Handler findHandler(const std::string& n) {
	auto it = HND.find(n); if (it != HND.end()) return it->second;
	if (n.compare(0, 5, "llvm.") == 0) {
		auto p = [&](const char* s) { return n.compare(5, strlen(s), s) == 0; };
		if (p("memcpy") || p("memmove")) return h_memcpy; if (p("memset")) return h_memset;
		if (p("sqrt.")) return h_sqrt; if (p("floor.")) return h_floor; if (p("ceil.")) return h_ceil; if (p("trunc.")) return h_trunc; if (p("round.")) return h_round; if (p("rint.") || p("nearbyint.") || p("roundeven.")) return h_rint; if (p("fabs.")) return h_fabs; if (p("copysign.")) return h_copysign;
		if (p("minnum.")) return h_fmin; if (p("maxnum.")) return h_fmax; if (p("fmuladd.")) return h_fmuladd; if (p("is.fpclass")) return h_isfpclass;
		if (p("exp.")) return h_m1<exp, expf>; if (p("log.")) return h_m1<log, logf>; if (p("log10.")) return h_m1<log10, log10f>; if (p("log2.")) return h_m1<log2, log2f>; if (p("exp2.")) return h_m1<exp2, exp2f>; if (p("sin.")) return h_m1<sin, sinf>; if (p("cos.")) return h_m1<cos, cosf>; if (p("pow.")) return h_m2<pow, powf>;
		if (p("umin.")) return h_imm<CmpInst::ICMP_ULT>; if (p("umax.")) return h_imm<CmpInst::ICMP_UGT>; if (p("smin.")) return h_imm<CmpInst::ICMP_SLT>; if (p("smax.")) return h_imm<CmpInst::ICMP_SGT>; if (p("abs.")) return h_iabs;
		if (p("uadd.with")) return h_ovf<0>; if (p("sadd.with")) return h_ovf<1>; if (p("usub.with")) return h_ovf<2>; if (p("ssub.with")) return h_ovf<3>; if (p("umul.with")) return h_ovf<4>; if (p("smul.with")) return h_ovf<5>;
		if (p("uadd.sat")) return h_uaddsat; if (p("usub.sat")) return h_usubsat; if (p("ctpop")) return h_ctpop; if (p("cttz")) return h_cttz; if (p("ctlz")) return h_ctlz; if (p("bswap")) return h_bswap; if (p("fshl")) return h_fsh<true>; if (p("fshr")) return h_fsh<false>;
		if (p("vector.reduce.add")) return h_reduce<Instruction::Add>; if (p("vector.reduce.or")) return h_reduce<Instruction::Or>; if (p("vector.reduce.and")) return h_reduce<Instruction::And>; if (p("vector.reduce.xor")) return h_reduce<Instruction::Xor>;
		if (p("expect")) return h_expect; if (p("objectsize")) return h_objsize; if (p("stacksave")) return h_stacksave; if (p("stackrestore") || p("prefetch") || p("va_end") || p("trap.none")) return h_nop; if (p("va_start")) return h_vastart; if (p("va_copy")) return h_vacopy; if (p("trap") || p("ubsantrap")) return h_trap;
		return nullptr;
	}
	return nullptr;
}
static void initHandlers() {
	auto& h = HND;
	h["malloc"] = h_malloc; h["calloc"] = h_calloc; h["realloc"] = h_realloc; h["free"] = h_free; h["aligned_alloc"] = h_alignedalloc;
	h["_Znwm"] = h_new; h["_Znam"] = h_newa; h["_ZdlPv"] = h_del; h["_ZdaPv"] = h_dela; h["_ZdlPvm"] = h_del; h["_ZdaPvm"] = h_dela; h["_ZnwmRKSt9nothrow_t"] = h_new; h["_ZnamRKSt9nothrow_t"] = h_newa;
	h["memcpy"] = h["memmove"] = h_memcpy; h["memset"] = h_memset;
	h["abort"] = h_abort; h["exit"] = h_exit; h["_exit"] = h_exit; h["__assert_fail"] = h_assertfail; h["__cxa_pure_virtual"] = h_abort; h["_ZNSt3__122__libcpp_verbose_abortEPKcz"] = h_abort; h["_ZSt9terminatev"] = h_abort; h["__cxa_atexit"] = h_nop; h["atexit"] = h_nop;
	h["__cxa_guard_acquire"] = h_guard_acquire; h["__cxa_guard_release"] = h_guard_release;
	for (const char* s : { "printf", "puts", "putchar", "fflush", "fprintf", "vprintf", "perror", "srand", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "setlocale", "usleep", "sched_yield" }) h[s] = h_nop;
	h["pthread_mutex_lock"] = h_lock; h["pthread_mutex_unlock"] = h_unlock; h["pthread_mutex_trylock"] = h_lock;
	h["abs"] = h["labs"] = h["llabs"] = h_iabs;
	h["clock"] = h_clock; h["gettimeofday"] = h_gettime; h["clock_gettime"] = h_gettime; h["time"] = h_time;
	h["sqrt"] = h["sqrtf"] = h_sqrt; h["floor"] = h["floorf"] = h_floor; h["ceil"] = h["ceilf"] = h_ceil; h["trunc"] = h["truncf"] = h_trunc; h["round"] = h["roundf"] = h_round; h["rint"] = h["rintf"] = h["nearbyint"] = h["nearbyintf"] = h_rint; h["fabs"] = h["fabsf"] = h_fabs; h["fmin"] = h["fminf"] = h_fmin; h["fmax"] = h["fmaxf"] = h_fmax; h["copysign"] = h["copysignf"] = h_copysign;
#define M1(n) h[#n] = h_m1<n, n##f>; h[#n "f"] = h_m1<n, n##f>;
	M1(exp) M1(log) M1(log10) M1(log2) M1(exp2) M1(sin) M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(sinh) M1(cosh) M1(tanh) M1(cbrt) M1(log1p) M1(expm1) M1(erf) M1(tgamma) M1(lgamma)
#define M2(n) h[#n] = h_m2<n, n##f>; h[#n "f"] = h_m2<n, n##f>;
	M2(pow) M2(atan2) M2(fmod) M2(hypot)
	h["snprintf"] = h_snprintf; h["sprintf"] = h_sprintf; h["vsnprintf"] = h_vsnprintf; h["vsprintf"] = h_vsprintf; h["strtod"] = h["atof"] = h_strtod; h["strtof"] = h_strtof;
	h["__kmpc_global_thread_num"] = h_kmpc_gtid; h["__kmpc_push_num_threads"] = h_kmpc_push; h["__kmpc_fork_call"] = h_kmpc_fork; h["__kmpc_for_static_init_4"] = h["__kmpc_for_static_init_8"] = h["__kmpc_for_static_init_4u"] = h["__kmpc_for_static_init_8u"] = h_kmpc_static4; h["__kmpc_for_static_fini"] = h_nop; h["__kmpc_barrier"] = h_kmpc_barrier; h["__kmpc_critical"] = h_kmpc_crit; h["__kmpc_end_critical"] = h_kmpc_endcrit; h["__kmpc_reduce_nowait"] = h["__kmpc_reduce"] = h_kmpc_reduce; h["__kmpc_end_reduce_nowait"] = h["__kmpc_end_reduce"] = h_kmpc_endcrit; h["__kmpc_serialized_parallel"] = h["__kmpc_end_serialized_parallel"] = h_nop; h["__kmpc_dispatch_init_4"] = h_kmpc_dinit; h["__kmpc_dispatch_next_4"] = h_kmpc_dnext;
	h["omp_get_thread_num"] = h_omp_tnum; h["omp_get_num_threads"] = h_omp_nthr; h["omp_get_max_threads"] = h_omp_max; h["omp_get_num_procs"] = h_omp_max; h["omp_set_num_threads"] = h_omp_set; h["omp_in_parallel"] = h_omp_inpar; h["omp_set_dynamic"] = h_nop;
	h["vp_int"] = h_vp_int; h["vp_i64"] = h_vp_i64; h["vp_choose"] = h_vp_choose; h["vp_f32"] = h_vp_f32; h["vp_f64"] = h_vp_f64; h["vp_bytes"] = h_vp_bytes; h["vp_concretize"] = h_vp_concretize; h["vp_assume"] = h_vp_assume; h["vp_assert"] = h_vp_assert; h["vp_reach"] = h_vp_reach; h["vp_observe"] = h_vp_obs; h["vp_heap_bytes"] = h_vp_heap; h["vp_opt"] = h_vp_opt; h["vp_param"] = h_vp_param; h["vp_end"] = h_vp_end; h["vp_is_symbolic"] = h_vp_issym; h["vp_havoc"] = h_vp_havoc;
}
