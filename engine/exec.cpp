// fvx: a fork-based symbolic executor for LLVM IR (bit-precise, byte-addressed memory, z3 as the decision procedure).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include "exec.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <algorithm>
#include <set>
#include <fstream>
#include <ucontext.h>
Shared* SH;
#include "decode.inc"

// ------------------------------------------------------------------ options
static std::string OUTDIR = "."; static u64 INSTR_LIMIT = 400000000ull; static int MAXVIOL = 3; static u64 MAXSAMPLES = 40; static u64 SAMPLE_STRIDE = 1;
static std::string TARGET; static bool TRACE = false; static u64 SEED = 1;
static std::map<std::string, i64> OPTS;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ memory
static const u64 AB = 0x200000000000ull, ASZ = 3ull << 30;          // arena
static const u64 STK0 = AB + (2ull << 30);                            // stack part of the arena
static u32* SHD; static u32* OMAP; static u8* PSYM;
static std::vector<Obj> OBJ; static u64 heapTop, stackTop;
static const u32 UNINIT = 0xFFFFFFFFu;
static u64 HEAPLIVE = 0, HEAPBYTES = 0; static u32 objSeq = 0;
static inline bool inArena(u64 a) { return a - AB < ASZ; }

static void memInit() {
	void* p = mmap((void*)AB, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if ((u64)p != AB) { perror("arena"); exit(2); }
	auto mp = [](u64 n) { void* q = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) { perror("mmap"); exit(2); } return q; };
	SHD = (u32*)mp(ASZ * 4); OMAP = (u32*)mp(ASZ / 16 * 4); PSYM = (u8*)mp(ASZ / 4096);
	OBJ.push_back(Obj()); heapTop = AB + 4096; stackTop = STK0;
}
static inline void markPages(u64 a, u64 n) { for (u64 p = (a - AB) >> 12; p <= (a + n - 1 - AB) >> 12; ++p) PSYM[p] = 1; }
static void setUninit(u64 a, u64 n) { if (!n) return; markPages(a, n); memset(SHD + (a - AB), 0xff, n * 4); }
static u32 newObj(u64 base, u64 size, int kind, int ak) {
	Obj o; o.base = base; o.size = size; o.kind = kind; o.live = 1; o.ro = 0; o.ak = ak; o.seq = ++objSeq; o.fn = nullptr;
	OBJ.push_back(o); u32 id = OBJ.size() - 1; u64 g = (base - AB) >> 4, e = (base + (size ? size : 1) - 1 - AB) >> 4; for (; g <= e; ++g) OMAP[g] = id; return id;
}
static void engineError(const std::string& s);
static u64 allocHeap(u64 size, int ak, bool uninit) {
	u64 a = heapTop; heapTop += ((size + 15) & ~15ull) + 32; if (heapTop > STK0) engineError("arena exhausted");
	newObj(a, size, OK_HEAP, ak); if (uninit) setUninit(a, size); HEAPLIVE++; HEAPBYTES += size; return a;
}
static inline Obj* objAt(u64 a) { if (!inArena(a)) return nullptr; u32 id = OMAP[(a - AB) >> 4]; return id ? &OBJ[id] : nullptr; }
static u64 gaddr(const GlobalValue* g) { auto it = GADDR.find(g); if (it == GADDR.end()) { fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); exit(2); } return it->second; }

// ------------------------------------------------------------------ path state
static std::vector<u32> PC; static std::unordered_map<u32, bool> TRUTH;
static std::vector<Frame> STK; static Val* VS; static u64 VSTOP = 0; static const u64 VSMAX = 1 << 22;
static u64 INSTRS = 0, INSTR_FLUSHED = 0; static bool ownsToken = true; static u32 depthForks = 0;
static u64 pathHash = 1469598103934665603ull;
static DInst* CUR;
struct Input { std::string name; u8 kind; Val v; u8 w; i64 bias; };  // kind: 0 int,1 f32,2 f64
static std::map<std::string, i64> FIXIN;   // --inputs: concrete replay of one counterexample (schedule included)
static std::vector<Input> INPUTS; static std::map<std::string, int> NAMES;
struct Obs { std::string label; u8 kind; Val v; u8 w; }; static std::vector<Obs> OBS;

static void flushStats() {
	SH->instrs += INSTRS - INSTR_FLUSHED; INSTR_FLUSHED = INSTRS;
	SH->queries += SST.queries; SH->qsat += SST.sat; SH->qunsat += SST.unsat; SH->qunk += SST.unknown; SH->solverNs += SST.ns; SH->fpq += SST.fp; memset(&SST, 0, sizeof SST);
}
[[noreturn]] static void quitProcess() {
	flushStats(); fflush(stdout); fflush(stderr);
	if (ownsToken) sem_post(&SH->tokens);
	SH->procs--;
	_exit(0);
}
static std::string where() {
	std::string s; int k = 0;
	for (size_t i = STK.size(); i-- > 0 && k < 12; ++k) { Frame& f = STK[i]; u32 pc = f.pc ? f.pc - 1 : 0; char b[64]; snprintf(b, 64, ":%u", f.f->code.size() > pc ? f.f->code[pc].line : 0); s += (k ? " < " : "") + demangle(f.f->name) + b; }
	return s;
}
static void engineError(const std::string& s) {
	SH->engErr++; int z = 0; 
	while (__sync_lock_test_and_set((int*)&SH->lock, 1)) usleep(10);
	if (!SH->errmsg[0]) snprintf(SH->errmsg, sizeof SH->errmsg, "%s | at %s", s.c_str(), where().c_str());
	__sync_lock_release((int*)&SH->lock); (void)z;
	if (!OPTS.count("cont_on_error")) SH->stop = 1;
	quitProcess();
}
static LabelRec& label(const std::string& n, u8 kind) {
	static std::unordered_map<std::string, int> cache; std::string key = std::string(1, kind) + n; auto it = cache.find(key); if (it != cache.end()) return SH->labels[it->second];
	while (__sync_lock_test_and_set((int*)&SH->lock, 1)) usleep(1);
	int k = SH->nlabels, i; for (i = 0; i < k; ++i) if (SH->labels[i].kind == kind && !strncmp(SH->labels[i].name, n.c_str(), 159)) break;
	if (i == k) { if (k >= 511) i = 511; else { strncpy(SH->labels[i].name, n.c_str(), 159); SH->labels[i].kind = kind; SH->nlabels = k + 1; } }
	__sync_lock_release((int*)&SH->lock); cache[key] = i; return SH->labels[i];
}
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static u64 valOf(Val v) { return v.e ? evalE(v.e) : v.c; }
static void dumpInputs(FILE* f) {
	fprintf(f, "\"inputs\":[");
	for (size_t i = 0; i < INPUTS.size(); ++i) { Input& in = INPUTS[i]; u64 x = valOf(in.v); fprintf(f, "%s[\"%s\",\"%s\",\"%lld\"]", i ? "," : "", jesc(in.name).c_str(), in.kind == 0 ? "i" : in.kind == 1 ? "f" : "d", in.kind == 0 ? (long long)(sx(x, in.w) ) : (long long)x); }
	fprintf(f, "]");
}
// MODEL must satisfy PC and the violating condition
static void violation(const std::string& lab, const std::string& kind) {
	LabelRec& L = label(lab, 3); L.count++; SH->viol++;
	u64 d = L.dumped++;
	if ((int)d < MAXVIOL) {
		char fn[1024]; u64 h = 1469598103934665603ull; for (char c : lab) h = (h ^ (u8)c) * 1099511628211ull;
		snprintf(fn, sizeof fn, "%s/viol_%016llx_%llu.json", OUTDIR.c_str(), (unsigned long long)h, (unsigned long long)d);
		FILE* f = fopen(fn, "w"); if (f) { fprintf(f, "{\"label\":\"%s\",\"kind\":\"%s\",\"where\":\"%s\",", jesc(lab).c_str(), kind.c_str(), jesc(where()).c_str()); dumpInputs(f); fprintf(f, "}\n"); fclose(f); }
	}
}
[[noreturn]] static void endPath(bool complete) {
	if (complete) {
		u64 n = SH->paths++;
		if (!OBS.empty() || true) {
			bool take = (n % SAMPLE_STRIDE) == (SEED % SAMPLE_STRIDE) || n < 4;
			if (take) { u64 k = SH->samples++; if (k < MAXSAMPLES) {
				char fn[1024]; snprintf(fn, sizeof fn, "%s/sample_%llu.json", OUTDIR.c_str(), (unsigned long long)k); FILE* f = fopen(fn, "w");
				if (f) { fprintf(f, "{"); dumpInputs(f); fprintf(f, ",\"obs\":["); for (size_t i = 0; i < OBS.size(); ++i) fprintf(f, "%s[\"%s\",\"%llu\"]", i ? "," : "", jesc(OBS[i].label).c_str(), (unsigned long long)valOf(OBS[i].v)); fprintf(f, "]}\n"); fclose(f); } } }
		}
	} else SH->pathsTrunc++;
	quitProcess();
}
static void checkStop() { if (SH->stop) { SH->incomplete++; endPath(false); } if (now() > SH->deadline) { SH->stop = 2; SH->incomplete++; endPath(false); } }

static u64 memFreeMB() { FILE* f = fopen("/proc/meminfo", "r"); char b[256]; u64 v = 1 << 20; while (f && fgets(b, 256, f)) if (sscanf(b, "MemAvailable: %llu", (unsigned long long*)&v) == 1) { v >>= 10; break; } if (f) fclose(f); return v; }
// returns true in the child
static bool forkPath() {
	checkStop();
	SH->forks++; flushStats();
	bool tok = sem_trywait(&SH->tokens) == 0;
	if (tok && (SH->forks & 63) == 0 && memFreeMB() < 3000) { sem_post(&SH->tokens); tok = false; }
	fflush(stdout); fflush(stderr);
	SH->procs++;
	pid_t p = fork();
	if (p < 0) { SH->procs--; if (tok) sem_post(&SH->tokens); engineError("fork failed"); }
	if (p == 0) { ownsToken = tok; ++depthForks; INSTR_FLUSHED = INSTRS; u64 d = SH->maxdepth; while (depthForks > d && !SH->maxdepth.compare_exchange_weak(d, depthForks)); return true; }
	++depthForks;
	if (!tok) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->engErr++; SH->procs--; if (!SH->errmsg[0]) snprintf(SH->errmsg, sizeof SH->errmsg, "child ended abnormally (status %x)", st); SH->stop = 1; } }
	return false;
}
static void addPC(u32 e) {
	Node n = N[e];
	if (n.op == E_CONST) return;
	if (n.op == E_AND && n.w == 1) { addPC(n.a); addPC(n.b); return; }
	PC.push_back(e); TRUTH[e] = true;
	if (n.op == E_EQ && N[n.a].op == E_VAR && isC(n.b)) fixVar(N[n.a].val, N[n.b].val);
	else if (n.op == E_VAR) fixVar(n.val, 1);
	else if (n.op == E_XOR && isC(n.b) && N[n.a].op == E_VAR && n.w == 1) fixVar(N[n.a].val, 0);
	else if (n.op == E_EQ && N[n.a].op == E_EXTRACT && false) {}
	pathHash = (pathHash ^ n.hash) * 1099511628211ull;
}
static bool truthOf(u32 e, bool& v) { auto it = TRUTH.find(e); if (it != TRUTH.end()) { v = it->second; return true; } if (N[e].op == E_XOR && isC(N[e].b)) { it = TRUTH.find(N[e].a); if (it != TRUTH.end()) { v = !it->second; return true; } } return false; }
// decide a 1-bit expression; both feasible => fork
static bool decide(u32 c) {
	u32 e = reduceE(c); if (isC(e)) return N[e].val;
	bool v; if (truthOf(e, v)) return v;
	bool side = evalE(e); u32 ne = mkNot(e); { bool v2; if (truthOf(ne, v2)) return !v2; }
	u32 taken = side ? e : ne, other = side ? ne : e;
	std::vector<u64> nm; SRes r = solve(PC, other, nm);
	if (r == S_UNSAT) { TRUTH[e] = side; return side; }
	if (r == S_UNKNOWN) { SH->incomplete++; addPC(taken); return side; }
	if (forkPath()) { MODEL = nm; modelChanged(); addPC(other); return !side; }
	addPC(taken); return side;
}
static bool decideV(Val v) { return v.e ? decide(v.e) : v.c & 1; }
// is cond satisfiable with PC? (no forking).
static SRes feasible(u32 c, std::vector<u64>& nm) { u32 e = reduceE(c); if (isC(e)) return N[e].val ? (nm = MODEL, S_SAT) : S_UNSAT; bool v; if (truthOf(e, v)) return v ? (nm = MODEL, S_SAT) : S_UNSAT; if (evalE(e)) { nm = MODEL; return S_SAT; } return solve(PC, e, nm); }
static void assumeE(u32 c) {
	u32 e = reduceE(c); if (isC(e)) { if (!N[e].val) { SH->infeasible++; quitProcess(); } return; }
	std::vector<u64> nm; SRes r = feasible(e, nm);
	if (r == S_UNSAT) { SH->infeasible++; quitProcess(); }
	if (r == S_UNKNOWN) { SH->incomplete++; endPath(false); }
	MODEL = nm; modelChanged(); addPC(e);
}
static u64 concretize(Val v, int w) {
	if (!v.e) return v.c;
	for (;;) {
		u32 e = reduceE(v.e); if (isC(e)) return N[e].val;
		u64 m = evalE(e);
		if (decide(mk(E_EQ, 1, e, mkConst(m, w)))) return m;
	}
}
static std::string curFn() { return STK.empty() ? "?" : demangle(STK.back().f->name); }
static std::string shortFn() { std::string s = curFn(); int d = 0; std::string o; for (char c : s) { if (c == '<' ) ++d; if (!d && c == '(') break; if (!d) o += c; if (c == '>') --d; } size_t p = o.rfind(' '); if (p != std::string::npos) o = o.substr(p + 1); return o.size() > 90 ? o.substr(0, 90) : o; }
[[noreturn]] static void memError(const std::string& kind) { violation("MEM:" + kind + ":" + shortFn(), "mem"); endPath(false); }

// ------------------------------------------------------------------ OpenMP race log
struct Acc { u64 w, r, wl, rl; };
static std::unordered_map<u64, Acc>* RACE = nullptr; static int OMPT = 0, OMPN = 1; static int LOCKS = 0; static bool RACEON = false; static u32 raceSeq0 = 0;
// schedule exploration: pass 1 ("race_collect") records the instructions that took part in a conflict between threads; pass 2 ("preempt" = budget)
// runs every thread of a region as a coroutine and lets the solver pick where a thread is preempted (before any access by a recorded instruction) and by whom
static std::unordered_map<u64, std::vector<DInst*>>* RACEI = nullptr; static std::unordered_map<DInst*, bool> RACYI; static int PREEMPT_LEFT = 0; static u64 PREEMPT_K = 0; static void preemptPoint(); static bool COLLECT = false;
static void raceAccess(u64 a, u64 n, bool wr, bool atomic) {
	Obj* o = objAt(a); if (!o || o->kind == OK_FUNC || o->seq > raceSeq0 ) return;   // objects born inside the region are private until published
	u64 me = 1ull << OMPT; bool lk = LOCKS > 0 || atomic;
	for (u64 i = 0; i < n; ++i) {
		Acc& A = (*RACE)[a + i]; u64 others = ~me; bool bad;
		if (lk) bad = wr ? ((A.w | A.r) & others) : (A.w & others); else bad = wr ? ((A.w | A.r | A.wl | A.rl) & others) : ((A.w | A.wl) & others);
		if (COLLECT) { auto& v = (*RACEI)[a + i]; if (bad) { for (DInst* d : v) RACYI[d] = true; RACYI[CUR] = true; bad = false; } if (v.size() < 64 && std::find(v.begin(), v.end(), CUR) == v.end()) v.push_back(CUR); }
		if (bad) { violation("RACE:" + shortFn(), "race"); A.w = A.r = A.wl = A.rl = 0; if (!OPTS.count("race_continue")) endPath(false); return; }
		if (lk) (wr ? A.wl : A.rl) |= me; else (wr ? A.w : A.r) |= me;
	}
}
// ------------------------------------------------------------------ memory access
static void chk(u64 a, u64 n, bool wr) {
	Obj* o = objAt(a);
	if (!o) { if (a < 65536) memError("null-deref"); memError(wr ? "wild-write" : "wild-read"); }
	if (!o->live) memError(wr ? "use-after-free-write" : "use-after-free-read");
	if (a < o->base || a + n > o->base + o->size) memError(wr ? "out-of-bounds-write" : "out-of-bounds-read");
	if (wr && o->ro) memError("write-to-constant");
	if (o->kind == OK_FUNC) memError("access-to-code");
	if (RACEON) raceAccess(a, n, wr, false);
	if (PREEMPT_LEFT > 0 && LOCKS == 0 && RACYI.count(CUR) && o->seq <= raceSeq0) preemptPoint();
}
static u64 uninitCnt = 0;
static u32 byteE(u64 a) { // expression for a byte, 0 if concrete
	if (!PSYM[(a - AB) >> 12]) return 0;
	u32& s = SHD[a - AB];
	if (s == UNINIT) { char b[64]; snprintf(b, 64, "uninit%llu", (unsigned long long)uninitCnt++); s = mkVar(b, 8, 0, true); }
	return s;
}
static Val loadAt(u64 a, int w) {
	int nb = (w + 7) / 8;
	u64 c = 0; memcpy(&c, (void*)a, nb);
	u64 pg = (a - AB) >> 12, pg2 = (a + nb - 1 - AB) >> 12;
	if (!PSYM[pg] && !PSYM[pg2]) return CV(c & mask(w));
	u32* s = SHD + (a - AB); bool any = false; for (int i = 0; i < nb; ++i) any |= s[i] != 0;
	if (!any) return CV(c & mask(w));
	u32 r = 0;
	for (int i = nb - 1; i >= 0; --i) { u32 b = byteE(a + i); u32 e = b ? reduceE(b) : mkConst((c >> (8 * i)) & 255, 8); r = r ? mk(E_CONCAT, N[r].w + 8, r, e) : e; }
	if (w < nb * 8) r = mkExtract(r, 0, w);
	return fromE(r);
}
static void storeAt(u64 a, int w, Val v) {
	int nb = (w + 7) / 8;
	if (!v.e) {
		u64 c = v.c; memcpy((void*)a, &c, nb);
		u64 pg = (a - AB) >> 12, pg2 = (a + nb - 1 - AB) >> 12;
		if (PSYM[pg] || PSYM[pg2]) { u32* s = SHD + (a - AB); for (int i = 0; i < nb; ++i) if (s[i]) s[i] = 0; }
		return;
	}
	u32 e = v.e; if (N[e].w < nb * 8) e = mk(E_ZEXT, nb * 8, e);
	markPages(a, nb); u32* s = SHD + (a - AB);
	for (int i = 0; i < nb; ++i) { u32 b = mkExtract(e, 8 * i, 8); if (isC(b)) { *(u8*)(a + i) = N[b].val; s[i] = 0; } else { s[i] = b; } }
}
// resolve a symbolic address into an object; returns candidate offsets
static void resolveSym(Val av, u64 n, bool wr, u64& base, std::vector<u64>& cand, u32& ae) {
	for (int it = 0;; ++it) {
		ae = reduceE(av.e); cand.clear();
		if (isC(ae)) { base = N[ae].val; chk(base, n, wr); cand.push_back(base); return; }
		u64 m = evalE(ae); Obj* o = objAt(m);
		if (!o || !o->live || m < o->base || m + n > o->base + o->size) { chk(m, n, wr); }
		u64 ob = o->base, os = o->size; 
		u32 in = mk(E_ULE, 1, mkSub(ae, mkConst(ob, 64)), mkConst(os - n, 64));
		if (!decide(in)) { if (it > 16) engineError("too many objects for symbolic pointer"); continue; }
		base = ob; ae = reduceE(ae); if (isC(ae)) { chk(N[ae].val, n, wr); cand.push_back(N[ae].val); return; }
		u64 kz = N[ae].kz, ko = N[ae].ko;
		// stride from the structure (base + k*stride): keep only addresses consistent with known bits; then prune by stride guess from alignment of model
		u64 cnt = 0; for (u64 a = ob; a + n <= ob + os; ++a) { if ((a & kz) || ((~a) & ko)) continue; cand.push_back(a); if (++cnt > 600) break; }
		u64 lim = OPTS.count("max_ite") ? OPTS["max_ite"] : 40;
		if (cnt > 600) { cand.clear(); u64 x = concretize(av, 64); chk(x, n, wr); cand.push_back(x); ae = mkConst(x, 64); return; }
		if (cand.size() > lim) { cand.clear(); u64 x = concretize(av, 64); chk(x, n, wr); cand.push_back(x); ae = mkConst(x, 64); return; }
		if (RACEON) for (u64 a : cand) raceAccess(a, n, wr, false);
		return;
	}
}
static Val loadV(Val av, int w) {
	int nb = (w + 7) / 8;
	if (!av.e) { chk(av.c, nb, false); return loadAt(av.c, w); }
	u64 base; std::vector<u64> cand; u32 ae; resolveSym(av, nb, false, base, cand, ae);
	u32 r = 0; for (u64 a : cand) { u32 v = toE(loadAt(a, w), w); r = r ? mk(E_ITE, w, mk(E_EQ, 1, ae, mkConst(a, 64)), v, r) : v; }
	return fromE(r);
}
static void storeV(Val av, int w, Val v) {
	int nb = (w + 7) / 8;
	if (!av.e) { chk(av.c, nb, true); storeAt(av.c, w, v); return; }
	u64 base; std::vector<u64> cand; u32 ae; resolveSym(av, nb, true, base, cand, ae);
	if (cand.size() == 1) { storeAt(cand[0], w, v); return; }
	u32 ve = toE(v, w);
	// byte-wise conditional update (handles overlapping candidates)
	int bits = nb * 8; u32 vz = bits > w ? mk(E_ZEXT, bits, ve) : ve;
	std::map<u64, u32> upd;
	for (u64 a : cand) for (int i = 0; i < nb; ++i) { u64 x = a + i; u32 old = upd.count(x) ? upd[x] : toE(loadAt(x, 8), 8); upd[x] = mk(E_ITE, 8, mk(E_EQ, 1, ae, mkConst(a, 64)), mkExtract(vz, 8 * i, 8), old); }
	for (auto& p : upd) storeAt(p.first, 8, fromE(p.second));
}
static void copyMem(u64 d, u64 s, u64 n) {
	if (!n) return; chk(s, n, false); chk(d, n, true);
	memmove((void*)d, (void*)s, n);
	bool sy = false, dy = false; for (u64 p = (s - AB) >> 12; p <= (s + n - 1 - AB) >> 12; ++p) sy |= PSYM[p]; for (u64 p = (d - AB) >> 12; p <= (d + n - 1 - AB) >> 12; ++p) dy |= PSYM[p];
	if (sy) { for (u64 i = 0; i < n; ++i) if (SHD[s + i - AB] == UNINIT) { if (false) byteE(s + i); } memmove(SHD + (d - AB), SHD + (s - AB), n * 4); markPages(d, n); }
	else if (dy) memset(SHD + (d - AB), 0, n * 4);
}
static void setMem(u64 d, Val v, u64 n) {
	if (!n) return; chk(d, n, true);
	if (v.e) { for (u64 i = 0; i < n; ++i) storeAt(d + i, 8, v); return; }
	memset((void*)d, v.c, n); for (u64 p = (d - AB) >> 12; p <= (d + n - 1 - AB) >> 12; ++p) if (PSYM[p]) { u64 s = std::max(d, AB + (p << 12)), e = std::min(d + n, AB + ((p + 1) << 12)); memset(SHD + (s - AB), 0, (e - s) * 4); }
}
static std::string readStr(u64 a) { std::string s; for (int i = 0; i < 4096; ++i) { chk(a + i, 1, false); Val v = loadAt(a + i, 8); u64 c = concretize(v, 8); if (!c) break; s += (char)c; } return s; }
static u64 allocStack(u64 size, bool uninit) {
	u64 a = stackTop; stackTop += ((size + 15) & ~15ull) + 16; if (stackTop > AB + ASZ) engineError("stack exhausted");
	newObj(a, size, OK_STACK, 0); if (uninit) setUninit(a, size); return a;
}
static void popStack(u64 mark) { if (stackTop > mark) { u64 g0 = (mark - AB) >> 4, g1 = (stackTop - AB) >> 4; memset(OMAP + g0, 0, (g1 - g0) * 4); stackTop = mark; } }

// ------------------------------------------------------------------ arithmetic
static inline Val G(Val* R, i32 s) { return s >= 0 ? R[s] : CP[~s]; }
static Val binop(int op, int w, Val a, Val b) {
	u64 m = mask(w);
	if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
		if (b.e) { if (decide(mk(E_EQ, 1, b.e, mkConst(0, w)))) memError("division-by-zero"); b = fromE(reduceE(b.e)); if (a.e) a = fromE(reduceE(a.e)); }
		else if (!b.c) memError("division-by-zero");
		if ((op == Instruction::SDiv || op == Instruction::SRem) && w >= 32) {
			if (!b.e && b.c == m && !a.e && a.c == (1ull << (w - 1))) memError("division-overflow");
		}
	}
	if (op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) { if (!b.e) b.c &= (w == 64 ? 63 : w == 32 ? 31 : m); else if (w == 32 || w == 64) b = fromE(mk(E_AND, w, b.e, mkConst(w - 1, w))); }
	if (!a.e && !b.e) {
		switch (op) {
		case Instruction::Add: return CV((a.c + b.c) & m); case Instruction::Sub: return CV((a.c - b.c) & m); case Instruction::Mul: return CV((a.c * b.c) & m);
		case Instruction::And: return CV(a.c & b.c); case Instruction::Or: return CV(a.c | b.c); case Instruction::Xor: return CV(a.c ^ b.c);
		case Instruction::Shl: return CV(foldOp(E_SHL, w, 0, a.c, b.c, 0, w, w)); case Instruction::LShr: return CV(foldOp(E_LSHR, w, 0, a.c, b.c, 0, w, w)); case Instruction::AShr: return CV(foldOp(E_ASHR, w, 0, a.c, b.c, 0, w, w));
		case Instruction::UDiv: return CV(a.c / b.c); case Instruction::URem: return CV(a.c % b.c);
		case Instruction::SDiv: return CV(foldOp(E_SDIV, w, 0, a.c, b.c, 0, w, w)); case Instruction::SRem: return CV(foldOp(E_SREM, w, 0, a.c, b.c, 0, w, w));
		}
	}
	u32 x = toE(a, w), y = toE(b, w); int o = 0;
	switch (op) {
	case Instruction::Add: o = E_ADD; break; case Instruction::Sub: return fromE(mkSub(x, y)); case Instruction::Mul: o = E_MUL; break;
	case Instruction::And: o = E_AND; break; case Instruction::Or: o = E_OR; break; case Instruction::Xor: o = E_XOR; break;
	case Instruction::Shl: o = E_SHL; break; case Instruction::LShr: o = E_LSHR; break; case Instruction::AShr: o = E_ASHR; break;
	case Instruction::UDiv: o = E_UDIV; break; case Instruction::URem: o = E_UREM; break; case Instruction::SDiv: o = E_SDIV; break; case Instruction::SRem: o = E_SREM; break;
	}
	return fromE(mk(o, w, x, y));
}
static Val icmp(int p, int w, Val a, Val b) {
	if (!a.e && !b.e) {
		switch (p) {
		case CmpInst::ICMP_EQ: return CV(a.c == b.c); case CmpInst::ICMP_NE: return CV(a.c != b.c); case CmpInst::ICMP_UGT: return CV(a.c > b.c); case CmpInst::ICMP_UGE: return CV(a.c >= b.c); case CmpInst::ICMP_ULT: return CV(a.c < b.c); case CmpInst::ICMP_ULE: return CV(a.c <= b.c);
		case CmpInst::ICMP_SGT: return CV(sx(a.c, w) > sx(b.c, w)); case CmpInst::ICMP_SGE: return CV(sx(a.c, w) >= sx(b.c, w)); case CmpInst::ICMP_SLT: return CV(sx(a.c, w) < sx(b.c, w)); case CmpInst::ICMP_SLE: return CV(sx(a.c, w) <= sx(b.c, w));
		}
	}
	u32 x = toE(a, w), y = toE(b, w); u32 r = 0;
	switch (p) {
	case CmpInst::ICMP_EQ: r = mk(E_EQ, 1, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mk(E_EQ, 1, x, y)); break;
	case CmpInst::ICMP_UGT: r = mk(E_ULT, 1, y, x); break; case CmpInst::ICMP_UGE: r = mk(E_ULE, 1, y, x); break; case CmpInst::ICMP_ULT: r = mk(E_ULT, 1, x, y); break; case CmpInst::ICMP_ULE: r = mk(E_ULE, 1, x, y); break;
	case CmpInst::ICMP_SGT: r = mk(E_SLT, 1, y, x); break; case CmpInst::ICMP_SGE: r = mk(E_SLE, 1, y, x); break; case CmpInst::ICMP_SLT: r = mk(E_SLT, 1, x, y); break; case CmpInst::ICMP_SLE: r = mk(E_SLE, 1, x, y); break;
	}
	return fromE(r);
}
static Val fbin(int op, int w, Val a, Val b) {
	int o = op == Instruction::FAdd ? E_FADD : op == Instruction::FSub ? E_FSUB : op == Instruction::FMul ? E_FMUL : op == Instruction::FDiv ? E_FDIV : E_FREM;
	if (!a.e && !b.e) return CV(foldOp(o, w, 0, a.c, b.c, 0, w, w));
	if (o == E_FREM) { static int u32i = -1, u64i = -1; int& u = w == 32 ? u32i : u64i; if (u < 0) { UFInfo f; f.name = "frem"; f.d1 = nullptr; f.f1 = nullptr; f.d2 = fmod; f.f2 = fmodf; f.w = w; UFS.push_back(f); u = UFS.size() - 1; } return fromE(mk(E_UF, w, toE(a, w), toE(b, w), 0, u)); }
	return fromE(mk(o, w, toE(a, w), toE(b, w)));
}
static Val fcmp(int p, int w, Val a, Val b) {
	auto f = [&](int aux, Val x, Val y) -> u32 { return (!x.e && !y.e) ? mkConst(foldOp(E_FCMP, 1, aux, x.c, y.c, 0, w, w), 1) : mk(E_FCMP, 1, toE(x, w), toE(y, w), 0, aux); };
	auto uno = [&]() { return f(FC_UNO, a, b); }; u32 r;
	switch (p) {
	case CmpInst::FCMP_FALSE: return CV(0); case CmpInst::FCMP_TRUE: return CV(1);
	case CmpInst::FCMP_OEQ: r = f(FC_OEQ, a, b); break; case CmpInst::FCMP_OGT: r = f(FC_OLT, b, a); break; case CmpInst::FCMP_OGE: r = f(FC_OLE, b, a); break;
	case CmpInst::FCMP_OLT: r = f(FC_OLT, a, b); break; case CmpInst::FCMP_OLE: r = f(FC_OLE, a, b); break;
	case CmpInst::FCMP_ONE: r = mk(E_AND, 1, mkNot(f(FC_OEQ, a, b)), mkNot(uno())); break;
	case CmpInst::FCMP_ORD: r = mkNot(uno()); break; case CmpInst::FCMP_UNO: r = uno(); break;
	case CmpInst::FCMP_UEQ: r = mk(E_OR, 1, f(FC_OEQ, a, b), uno()); break;
	case CmpInst::FCMP_UGT: r = mkNot(f(FC_OLE, a, b)); break; case CmpInst::FCMP_UGE: r = mkNot(f(FC_OLT, a, b)); break;
	case CmpInst::FCMP_ULT: r = mkNot(f(FC_OLE, b, a)); break; case CmpInst::FCMP_ULE: r = mkNot(f(FC_OLT, b, a)); break;
	case CmpInst::FCMP_UNE: r = mkNot(f(FC_OEQ, a, b)); break; default: engineError("fcmp");
	}
	return fromE(r);
}
static Val castV(int op, int w, int w2, Val a) {
	if (a.e) {
		switch (op) {
		case Instruction::Trunc: return fromE(mkExtract(a.e, 0, w)); case Instruction::ZExt: return fromE(w == w2 ? a.e : mk(E_ZEXT, w, a.e)); case Instruction::SExt: return fromE(mk(E_SEXT, w, a.e));
		case Instruction::FPTrunc: return fromE(mk(E_FPTRUNC, w, a.e)); case Instruction::FPExt: return fromE(mk(E_FPEXT, w, a.e)); case Instruction::FPToSI: return fromE(mk(E_FPTOSI, w, a.e)); case Instruction::FPToUI: return fromE(mk(E_FPTOUI, w, a.e));
		case Instruction::SIToFP: return fromE(mk(E_SITOFP, w, a.e)); case Instruction::UIToFP: return fromE(mk(E_UITOFP, w, a.e));
		}
	}
	int o = 0;
	switch (op) {
	case Instruction::Trunc: return CV(a.c & mask(w)); case Instruction::ZExt: return a; case Instruction::SExt: return CV((u64)sx(a.c, w2) & mask(w));
	case Instruction::FPTrunc: o = E_FPTRUNC; break; case Instruction::FPExt: o = E_FPEXT; break; case Instruction::FPToSI: o = E_FPTOSI; break; case Instruction::FPToUI: o = E_FPTOUI; break; case Instruction::SIToFP: o = E_SITOFP; break; case Instruction::UIToFP: o = E_UITOFP; break;
	default: engineError("cast");
	}
	return CV(foldOp(o, w, 0, a.c, 0, 0, w2, 0));
}
static Val selectV(Val c, Val a, Val b, int w) {
	if (c.e) { u32 e = reduceE(c.e); bool v; if (isC(e)) c = CV(N[e].val); else if (truthOf(e, v)) c = CV(v); else c.e = e; }
	if (!c.e) return c.c & 1 ? a : b;
	if (!a.e && !b.e && a.c == b.c) return a;
	return fromE(mk(E_ITE, w, c.e, toE(a, w), toE(b, w)));
}
// ------------------------------------------------------------------ calls
static void runUntil(size_t depth);
static void pushFrame(DFunc* df, const std::vector<ArgInfo>* ai, Val* R, DInst* I, const Val* direct, u32 nd) {
	if (!df->decoded) dfunc(df->f);
	if (STK.size() > 4000) memError("stack-overflow");
	if (VSTOP + df->nregs + 8 > VSMAX) memError("stack-overflow");
	SH->cov[df->id & 65535] = 1;
	Frame f; f.f = df; f.R = VS + VSTOP; f.pc = 0; f.stackMark = 0; f.vaArea = 0; f.callI = I; f.callerR = R; 
	u64 mark = stackTop; f.stackMark = (u32)((mark - STK0) >> 4);
	VSTOP += df->nregs;
	for (u32 i = 0; i < df->nregs; ++i) f.R[i] = CV(0);
	if (ai) {
		size_t np = df->params.size();
		for (size_t i = 0; i < np && i < ai->size(); ++i) { const ArgInfo& a = (*ai)[i]; ArgInfo& p = df->params[i];
			if (a.byval) { u64 src = concretize(G(R, a.slot), 64); u64 d = allocStack(a.byval, false); copyMem(d, src, a.byval); f.R[p.slot] = CV(d); continue; }
			for (u32 k = 0; k < p.n; ++k) f.R[p.slot + k] = a.slot >= 0 ? R[a.slot + k] : CP[~(a.slot) + k]; }
		if (df->va) { size_t nv = ai->size() - np; u64 ar = allocStack(nv * 8 + 8, false); for (size_t i = 0; i < nv; ++i) { const ArgInfo& a = (*ai)[np + i]; Val v = G(R, a.slot); storeAt(ar + 8 * i, 64, v.e && a.w < 64 ? fromE(mk(E_ZEXT, 64, v.e)) : v); } f.vaArea = ar; }
	} else for (u32 i = 0; i < nd && i < df->params.size(); ++i) f.R[df->params[i].slot] = direct[i];
	STK.push_back(f);
}
static Val callFn(DFunc* df, const std::vector<Val>& args) { // nested synchronous call
	size_t d = STK.size(); static Val ret; pushFrame(df, nullptr, nullptr, nullptr, args.data(), args.size()); runUntil(d); return ret;
}
static void doRet(DInst& I, Val* R) {
	Frame& f = STK.back(); DInst* cI = f.callI; Val* CR = f.callerR; Val tmp[32]; u32 n = I.n > 32 ? 32 : I.n;
	for (u32 k = 0; k < n; ++k) tmp[k] = I.a >= 0 ? R[I.a + k] : CP[~I.a + k];
	popStack(STK0 + ((u64)f.stackMark << 4)); VSTOP = f.R - VS; STK.pop_back();
	if (cI && cI->n) for (u32 k = 0; k < n; ++k) CR[cI->dst + k] = tmp[k];
}
#include "handlers.inc"

static inline void takeEdge(DFunc* f, Val* R, Frame& fr, i32 id) {
	Edge& e = f->edges[id];
	if (!e.mv.empty()) {
		if (e.mv.size() == 1) { Move& m = e.mv[0]; for (u32 k = 0; k < m.n; ++k) R[m.dst + k] = m.src >= 0 ? R[m.src + k] : CP[~m.src + k]; }
		else { static std::vector<Val> t; t.clear(); for (auto& m : e.mv) for (u32 k = 0; k < m.n; ++k) t.push_back(m.src >= 0 ? R[m.src + k] : CP[~m.src + k]); size_t q = 0; for (auto& m : e.mv) for (u32 k = 0; k < m.n; ++k) R[m.dst + k] = t[q++]; }
	}
	fr.pc = e.target;
}
static void runUntil(size_t depth) {
	while (STK.size() > depth) {
		Frame& fr = STK.back(); Val* R = fr.R; DFunc* f = fr.f;
		if (fr.pc >= f->code.size()) engineError("fell off function " + f->name);
		DInst& I = f->code[fr.pc++]; CUR = &I;
		if ((++INSTRS & 0xfffff) == 0) checkStop();
		if (INSTRS > INSTR_LIMIT) { violation("HANG:" + shortFn(), "hang"); endPath(false); }
		if (TRACE) { fprintf(stderr, "%s pc=%u op=%d line=%u\n", f->name.c_str(), fr.pc - 1, I.op, I.line); }
		switch (I.op) {
		case D_BIN: for (u32 k = 0; k < I.n; ++k) R[I.dst + k] = binop(I.aux, I.w, I.a >= 0 ? R[I.a + k] : CP[~I.a + k], I.b >= 0 ? R[I.b + k] : CP[~I.b + k]); break;
		case D_ICMP: for (u32 k = 0; k < I.n; ++k) R[I.dst + k] = icmp(I.aux, I.w2, I.a >= 0 ? R[I.a + k] : CP[~I.a + k], I.b >= 0 ? R[I.b + k] : CP[~I.b + k]); break;
		case D_FBIN: for (u32 k = 0; k < I.n; ++k) R[I.dst + k] = fbin(I.aux, I.w, I.a >= 0 ? R[I.a + k] : CP[~I.a + k], I.b >= 0 ? R[I.b + k] : CP[~I.b + k]); break;
		case D_FCMP: for (u32 k = 0; k < I.n; ++k) R[I.dst + k] = fcmp(I.aux, I.w2, I.a >= 0 ? R[I.a + k] : CP[~I.a + k], I.b >= 0 ? R[I.b + k] : CP[~I.b + k]); break;
		case D_FNEG: for (u32 k = 0; k < I.n; ++k) { Val a = I.a >= 0 ? R[I.a + k] : CP[~I.a + k]; R[I.dst + k] = a.e ? fromE(mk(E_XOR, I.w, a.e, mkConst(1ull << (I.w - 1), I.w))) : CV(a.c ^ (1ull << (I.w - 1))); } break;
		case D_SELECT: { auto* fl = (std::vector<FlatElem>*)I.x; for (u32 k = 0; k < I.n; ++k) R[I.dst + k] = selectV(G(R, I.w2 ? (I.a >= 0 ? I.a + (i32)k : ~(~I.a + (i32)k)) : I.a), I.b >= 0 ? R[I.b + k] : CP[~I.b + k], I.c >= 0 ? R[I.c + k] : CP[~I.c + k], (*fl)[k].w); break; }
		case D_CAST:
			if (I.aux == Instruction::BitCast) { // scalar <-> vector
				int wi = I.w2, wo = I.w; int tot = wi * I.c; if (tot > 64) { if (wi < wo) { int r = wo / wi; for (u32 k = 0; k < I.n; ++k) { u32 e = 0; bool c = true; u64 cv = 0; for (int j = r - 1; j >= 0; --j) { Val v = G(R, I.a >= 0 ? I.a + (i32)(k * r + j) : ~(~I.a + (i32)(k * r + j))); if (v.e) c = false; u32 x = toE(v, wi); e = e ? mk(E_CONCAT, N[e].w + wi, e, x) : x; } (void)c; (void)cv; R[I.dst + k] = fromE(e); } } else { int r = wi / wo; for (u32 k = 0; k < I.n; ++k) { Val v = G(R, I.a >= 0 ? I.a + (i32)(k / r) : ~(~I.a + (i32)(k / r))); R[I.dst + k] = fromE(mkExtract(toE(v, wi), (k % r) * wo, wo)); } } break; }
				u32 e = 0; for (int j = I.c - 1; j >= 0; --j) { Val v = G(R, I.a >= 0 ? I.a + j : ~(~I.a + j)); u32 x = toE(v, wi); e = e ? mk(E_CONCAT, N[e].w + wi, e, x) : x; }
				for (u32 k = 0; k < I.n; ++k) R[I.dst + k] = fromE(mkExtract(e, k * wo, wo)); break; }
			for (u32 k = 0; k < I.n; ++k) R[I.dst + k] = castV(I.aux, I.w, I.w2, I.a >= 0 ? R[I.a + k] : CP[~I.a + k]); break;
		case D_LOAD: { auto* fl = (std::vector<FlatElem>*)I.x; Val a = G(R, I.a); if (a.e) { u32 e = reduceE(a.e); a = fromE(e); }
			if (fl->size() == 1) R[I.dst] = loadV(a, I.w);
			else for (u32 k = 0; k < I.n; ++k) R[I.dst + k] = loadV(a.e ? fromE(mk(E_ADD, 64, a.e, mkConst((*fl)[k].off, 64))) : CV(a.c + (*fl)[k].off), (*fl)[k].w);
			break; }
		case D_STORE: { auto* fl = (std::vector<FlatElem>*)I.x; Val a = G(R, I.a); if (a.e) a = fromE(reduceE(a.e));
			for (u32 k = 0; k < I.n; ++k) storeV(k == 0 ? a : a.e ? fromE(mk(E_ADD, 64, a.e, mkConst((*fl)[k].off, 64))) : CV(a.c + (*fl)[k].off), (*fl)[k].w, I.b >= 0 ? R[I.b + k] : CP[~I.b + k]);
			break; }
		case D_GEP: { GepInfo* g = (GepInfo*)I.x; Val b = G(R, g->base); u64 off = g->off; u32 se = b.e; u64 cb = b.e ? 0 : b.c;
			for (auto& ix : g->idx) { Val v = G(R, ix.first); int w = ix.second.first; i64 sc = ix.second.second;
				if (!v.e) off += (u64)(sx(v.c, w) * sc);
				else { u32 e = w < 64 ? mk(E_SEXT, 64, v.e) : v.e; e = mk(E_MUL, 64, e, mkConst(sc, 64)); se = se ? mk(E_ADD, 64, se, e) : e; } }
			if (!se) R[I.dst] = CV(cb + off); else R[I.dst] = fromE(mk(E_ADD, 64, se, mkConst(cb + off, 64))); break; }
		case D_ALLOCA: { u64 n = concretize(G(R, I.a), I.w2); R[I.dst] = CV(allocStack((u64)I.x * n, true)); break; }
		case D_CALL: {
			CallInfo* ci = (CallInfo*)I.x;
			if (ci->h) { ci->h(I, *ci, R); break; }
			if (!ci->df) {
				const Function* F = ci->f;
				if (!F) { u64 t = concretize(G(R, ci->indirect), 64); Obj* o = objAt(t); if (!o || o->kind != OK_FUNC || o->base != t) memError("bad-function-pointer"); F = o->fn; DFunc* d = F->isDeclaration() ? nullptr : FUNCS[F]; Handler h = findHandler(F->getName().str()); if (h) { CallInfo c2 = *ci; c2.f = (Function*)F; c2.name = F->getName().str(); h(I, c2, R); break; } if (!d) engineError("call to undefined " + F->getName().str()); pushFrame(d, &ci->args, R, &I, nullptr, 0); break; }
				if (F->isDeclaration()) engineError("call to undefined external " + ci->name);
				ci->df = FUNCS[F];
			}
			pushFrame(ci->df, &ci->args, R, &I, nullptr, 0); break; }
		case D_RET: doRet(I, R); break;
		case D_BR: takeEdge(f, R, fr, I.a); break;
		case D_CBR: { bool t = decideV(G(R, I.a)); Frame& fr2 = STK.back(); takeEdge(f, R, fr2, t ? I.b : I.c); break; }
		case D_SWITCH: { SwitchInfo* s = (SwitchInfo*)I.x; Val v = G(R, I.a); i32 e = s->def;
			if (!v.e) { for (auto& c : s->cases) if (c.first == v.c) { e = c.second; break; } }
			else for (auto& c : s->cases) if (decide(mk(E_EQ, 1, v.e, mkConst(c.first, I.w2)))) { e = c.second; break; }
			takeEdge(f, R, STK.back(), e); break; }
		case D_MOVE: { if (I.n == 1) R[I.dst] = G(R, I.a); else { Val t[64]; u32 n = std::min<u32>(I.n, 64); for (u32 k = 0; k < n; ++k) t[k] = I.a >= 0 ? R[I.a + k] : CP[~I.a + k]; for (u32 k = 0; k < n; ++k) R[I.dst + k] = t[k]; } break; }
		case D_MOVES: for (auto& m : *(std::vector<Move>*)I.x) R[m.dst] = G(R, m.src); break;
		case D_EXTEL: { u64 ix = concretize(G(R, I.b), 64); if (ix >= (u64)I.c) ix = 0; R[I.dst] = I.a >= 0 ? R[I.a + ix] : CP[~I.a + ix]; break; }
		case D_INSEL: { for (u32 k = 0; k < I.n; ++k) R[I.dst + k] = I.a >= 0 ? R[I.a + k] : CP[~I.a + k]; u64 ix = concretize(G(R, I.c), 64); if (ix < I.n) R[I.dst + ix] = G(R, I.b); break; }
		case D_UNREACH: memError("reached-unreachable");
		case D_RMW: { Val a = G(R, I.a), v = G(R, I.b); bool ro = RACEON; u64 ad = concretize(a, 64); if (ro) { raceAccess(ad, I.w / 8, true, true); RACEON = false; } Val old = loadV(CV(ad), I.w), nv;
			switch (I.aux) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(Instruction::Add, I.w, old, v); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, I.w, old, v); break; case AtomicRMWInst::And: nv = binop(Instruction::And, I.w, old, v); break; case AtomicRMWInst::Or: nv = binop(Instruction::Or, I.w, old, v); break; default: engineError("atomicrmw"); }
			storeV(CV(ad), I.w, nv); RACEON = ro; R[I.dst] = old; break; }
		case D_CMPXCHG: { u64 ad = concretize(G(R, I.a), 64); bool ro = RACEON; if (ro) { raceAccess(ad, I.w / 8, true, true); RACEON = false; } Val old = loadV(CV(ad), I.w); bool eq = decideV(icmp(CmpInst::ICMP_EQ, I.w, old, G(R, I.b))); if (eq) storeV(CV(ad), I.w, G(R, I.c)); RACEON = ro; R[I.dst] = old; R[I.dst + 1] = CV(eq); break; }
		case D_NOP: break;
		default: engineError("unsupported instruction " + *(std::string*)I.x);
		}
	}
}
// ------------------------------------------------------------------ setup
static void writeInit(u64 a, const Constant* c) {
	Type* t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef s = d->getRawDataValues(); memcpy((void*)a, s.data(), s.size()); return; }
	if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) writeInit(a + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
	if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); ++i) writeInit(a + i * es, c->getAggregateElement(i)); return; }
	if (t->isVectorTy()) { u64 es = DL->getTypeStoreSize(cast<FixedVectorType>(t)->getElementType()); for (u64 i = 0; i < cast<FixedVectorType>(t)->getNumElements(); ++i) writeInit(a + i * es, c->getAggregateElement(i)); return; }
	if (t->isX86_FP80Ty() || (t->isIntegerTy() && t->getIntegerBitWidth() > 64)) { APInt v = isa<ConstantFP>(c) ? cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt() : cast<ConstantInt>(c)->getValue(); memcpy((void*)a, v.getRawData(), v.getBitWidth() / 8); return; }
	u64 v = constScalar(c); memcpy((void*)a, &v, DL->getTypeStoreSize(t));
}
int main(int argc, char** argv) {
	double tmo = 600; int jobs = 8; std::string bc; std::string entry = "vp_main"; u64 rl = 60000000;
	for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "-o") OUTDIR = nx(); else if (a == "-t") tmo = atof(nx().c_str()); else if (a == "-j") jobs = atoi(nx().c_str()); else if (a == "-i") INSTR_LIMIT = strtoull(nx().c_str(), 0, 10); else if (a == "--rlimit") rl = strtoull(nx().c_str(), 0, 10);
		else if (a == "--trace") TRACE = true; else if (a == "--inputs") { std::ifstream fi(nx()); std::string k, nm; while (fi >> k) { if (k == "I") { std::string v; fi >> nm >> v; FIXIN[nm] = v[0] == '-' ? strtoll(v.c_str(), 0, 10) : (i64)strtoull(v.c_str(), 0, 10); } else { std::string rest; std::getline(fi, rest); } } } else if (a == "--seed") SEED = strtoull(nx().c_str(), 0, 10); else if (a == "--samples") MAXSAMPLES = strtoull(nx().c_str(), 0, 10); else if (a == "--stride") SAMPLE_STRIDE = strtoull(nx().c_str(), 0, 10); else if (a == "--maxviol") MAXVIOL = atoi(nx().c_str());
		else if (a == "--dumpq") DUMPQ = atoi(nx().c_str()); else if (a == "--entry") entry = nx(); else if (a == "-D") { std::string s = nx(); size_t p = s.find('='); OPTS[s.substr(0, p)] = p == std::string::npos ? 1 : strtoll(s.c_str() + p + 1, 0, 0); } else bc = a; }
	mkdir(OUTDIR.c_str(), 0755); std::string dq = OUTDIR + "/queries"; if (DUMPQ) { mkdir(dq.c_str(), 0755); DUMPDIR = strdup(dq.c_str()); }
	double t0 = now();
	SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)SH, 0, sizeof *SH); sem_init(&SH->tokens, 1, jobs - 1); SH->deadline = t0 + tmo;
	LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("fvx", errs()); return 2; }
	M = mod.get(); DataLayout dl(M); DL = &dl; memInit();
	VS = (Val*)mmap(0, VSMAX * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	OBJ.reserve(1 << 16);
	// functions
	for (auto& F : *M) { u64 a = heapTop; heapTop += 32; u32 id = newObj(a, 16, OK_FUNC, 0); OBJ[id].fn = &F; GADDR[&F] = a; if (!F.isDeclaration()) { DFunc* d = new DFunc; d->f = &F; d->id = FLIST.size(); d->name = F.getName().str(); if (auto* sp = F.getSubprogram()) d->file = sp->getFilename().str(); FUNCS[&F] = d; FLIST.push_back(d); } }
	std::vector<std::pair<GlobalVariable*, u64>> gl;
	for (auto& g : M->globals()) { u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8; if (g.isDeclaration() && sz < 64) sz = 64; u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16); heapTop = (heapTop + al - 1) / al * al; u64 a = heapTop; heapTop += ((sz + 15) & ~15ull) + 16; newObj(a, sz, OK_GLOBAL, 0); GADDR[&g] = a; gl.push_back({ &g, a }); }
	for (auto& al : M->aliases()) GADDR[&al] = GADDR[cast<GlobalValue>(al.getAliasee()->stripPointerCasts())];
	for (auto& p : gl) { if (p.first->hasInitializer()) writeInit(p.second, p.first->getInitializer()); if (p.first->isConstant() && !p.first->isDeclaration()) objAt(p.second)->ro = 1; }
	solverInit(rl);
	initHandlers();
	signal(SIGPIPE, SIG_IGN);
	fflush(stdout);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	SH->procs = 1;
	pid_t p = fork();
	if (p == 0) {
		setpgid(0, 0);
		if (GlobalVariable* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
			std::vector<std::pair<u64, Function*>> fs; for (unsigned i = 0; i < arr->getNumOperands(); ++i) { auto* st = cast<ConstantStruct>(arr->getOperand(i)); if (auto* F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) fs.push_back({ cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F }); }
			std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
			for (auto& f : fs) { pushFrame(FUNCS[f.second], nullptr, nullptr, nullptr, nullptr, 0); runUntil(0); } }
		Function* ent = M->getFunction(entry); if (!ent || ent->isDeclaration()) engineError("no entry " + entry);
		INSTRS = 0; INSTR_FLUSHED = 0;
		pushFrame(FUNCS[ent], nullptr, nullptr, nullptr, nullptr, 0); runUntil(0);
		endPath(true);
	}
	int st; u64 maxp = 0; bool killed = false;
	for (;;) { pid_t q = waitpid(-1, &st, WNOHANG); if (q < 0) { if (errno == EINTR) continue; break; } if (q == 0) { usleep(2000); maxp = std::max<u64>(maxp, SH->procs); if (now() > SH->deadline) SH->stop = SH->stop ? SH->stop.load() : 2; if (now() > SH->deadline + 20 && !killed) { killed = true; SH->incomplete++; kill(-p, SIGKILL); } continue; } if (killed) continue; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->engErr++; SH->stop = 1; sem_post(&SH->tokens); if (!SH->errmsg[0]) snprintf(SH->errmsg, sizeof SH->errmsg, "process ended abnormally (status %x)", st); } }
	double t1 = now();
	std::string fn = OUTDIR + "/summary.json"; FILE* f = fopen(fn.c_str(), "w");
	fprintf(f, "{\"paths\":%llu,\"paths_truncated\":%llu,\"infeasible\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"fp_queries\":%llu,\"solver_s\":%.3f,\"instructions\":%llu,\"forks\":%llu,\"violations\":%llu,\"asserts\":%llu,\"engine_errors\":%llu,\"incomplete\":%llu,\"stop\":%d,\"maxdepth\":%llu,\"omp_regions\":%llu,\"wall_s\":%.2f,\"error\":\"%s\",\n",
		(unsigned long long)SH->paths, (unsigned long long)SH->pathsTrunc, (unsigned long long)SH->infeasible, (unsigned long long)SH->queries, (unsigned long long)SH->qsat, (unsigned long long)SH->qunsat, (unsigned long long)SH->qunk, (unsigned long long)SH->fpq, SH->solverNs / 1e9, (unsigned long long)SH->instrs, (unsigned long long)SH->forks, (unsigned long long)SH->viol, (unsigned long long)SH->asserts, (unsigned long long)SH->engErr, (unsigned long long)SH->incomplete, (int)SH->stop, (unsigned long long)SH->maxdepth, (unsigned long long)SH->omp, t1 - t0, jesc(SH->errmsg).c_str());
	const char* kn[4] = { "", "reach", "assert", "violation" };
	for (int k = 1; k <= 3; ++k) { fprintf(f, "\"%s\":{", kn[k]); bool first = true; for (int i = 0; i < SH->nlabels; ++i) if (SH->labels[i].kind == k) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(SH->labels[i].name).c_str(), (unsigned long long)SH->labels[i].count); first = false; } fprintf(f, "},\n"); }
	fprintf(f, "\"functions\":["); bool first = true; for (auto* d : FLIST) if (SH->cov[d->id & 65535]) { fprintf(f, "%s[\"%s\",\"%s\"]", first ? "" : ",", jesc(demangle(d->name)).c_str(), jesc(d->file).c_str()); first = false; } fprintf(f, "]}\n"); fclose(f);
	printf("fvx: paths=%llu trunc=%llu queries=%llu (unsat %llu, unknown %llu) solver=%.1fs instr=%.1fM forks=%llu viol=%llu err=%llu incomplete=%llu wall=%.1fs %s\n", (unsigned long long)SH->paths, (unsigned long long)SH->pathsTrunc, (unsigned long long)SH->queries, (unsigned long long)SH->qunsat, (unsigned long long)SH->qunk, SH->solverNs / 1e9, SH->instrs / 1e6, (unsigned long long)SH->forks, (unsigned long long)SH->viol, (unsigned long long)SH->engErr, (unsigned long long)SH->incomplete, t1 - t0, SH->errmsg);
	return SH->engErr ? 2 : SH->viol ? 1 : 0;
}
