#include "solver.h"
#include <z3.h>
#include <ctime>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
SolverStats SST;
static Z3_context C; static u64 RL;
static std::vector<Z3_ast> BV, FP;   // memo by node id
static Z3_sort rmS; static Z3_ast RNE, RTZ;
static std::vector<Z3_func_decl> UFD;
static bool usesFP;
int DUMPQ = 0; const char* DUMPDIR = nullptr;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
void solverInit(u64 rlimit) {
	Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
	C = Z3_mk_context(cfg); Z3_set_error_handler(C, errh); RL = rlimit;
	RNE = Z3_mk_fpa_rne(C); RTZ = Z3_mk_fpa_rtz(C);
}
static Z3_sort fs(int w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast bv(u32 e);
static Z3_ast fp(u32 e);
static Z3_ast rm(int a) { switch (a) { case 0: return Z3_mk_fpa_rtn(C); case 1: return Z3_mk_fpa_rtp(C); case 2: return Z3_mk_fpa_rtz(C); case 3: return Z3_mk_fpa_rna(C); default: return Z3_mk_fpa_rne(C); } }
static bool isF(int op) { return (op >= E_FADD && op <= E_FRND) || op == E_FPEXT || op == E_FPTRUNC || op == E_SITOFP || op == E_UITOFP; }
static Z3_ast fp(u32 e) {
	if (FP.size() <= e) FP.resize(N.size() + 64, nullptr);
	if (FP[e]) return FP[e];
	Node n = N[e]; Z3_ast r;
	switch (n.op) {
	case E_FADD: r = Z3_mk_fpa_add(C, RNE, fp(n.a), fp(n.b)); break;
	case E_FSUB: r = Z3_mk_fpa_sub(C, RNE, fp(n.a), fp(n.b)); break;
	case E_FMUL: r = Z3_mk_fpa_mul(C, RNE, fp(n.a), fp(n.b)); break;
	case E_FDIV: r = Z3_mk_fpa_div(C, RNE, fp(n.a), fp(n.b)); break;
	case E_FREM: r = Z3_mk_fpa_rem(C, fp(n.a), fp(n.b)); break;
	case E_FSQRT: r = Z3_mk_fpa_sqrt(C, RNE, fp(n.a)); break;
	case E_FRND: r = Z3_mk_fpa_round_to_integral(C, rm(n.aux), fp(n.a)); break;
	case E_FPEXT: case E_FPTRUNC: r = Z3_mk_fpa_to_fp_float(C, RNE, fp(n.a), fs(n.w)); break;
	case E_SITOFP: r = Z3_mk_fpa_to_fp_signed(C, RNE, bv(n.a), fs(n.w)); break;
	case E_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(C, RNE, bv(n.a), fs(n.w)); break;
	case E_ITE: { Z3_ast c = Z3_mk_eq(C, bv(n.a), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))); r = Z3_mk_ite(C, c, fp(n.b), fp(n.c)); break; }
	default: r = Z3_mk_fpa_to_fp_bv(C, bv(e), fs(n.w));
	}
	Z3_inc_ref(C, r); FP[e] = r; return r;
}
static Z3_ast b2(Z3_ast c) { Z3_sort s = Z3_mk_bv_sort(C, 1); return Z3_mk_ite(C, c, Z3_mk_unsigned_int64(C, 1, s), Z3_mk_unsigned_int64(C, 0, s)); }
// boolean view of a 1-bit node, avoiding ite wrapping where possible
static std::vector<Z3_ast> BL;
static Z3_ast bl(u32 e) {
	if (BL.size() <= e) BL.resize(N.size() + 64, nullptr);
	if (BL[e]) return BL[e];
	Node n = N[e]; Z3_ast r;
	switch (n.op) {
	case E_CONST: r = n.val ? Z3_mk_true(C) : Z3_mk_false(C); break;
	case E_EQ: r = N[n.a].w == 1 ? Z3_mk_iff(C, bl(n.a), bl(n.b)) : Z3_mk_eq(C, bv(n.a), bv(n.b)); break;
	case E_ULT: r = Z3_mk_bvult(C, bv(n.a), bv(n.b)); break;
	case E_ULE: r = Z3_mk_bvule(C, bv(n.a), bv(n.b)); break;
	case E_SLT: r = Z3_mk_bvslt(C, bv(n.a), bv(n.b)); break;
	case E_SLE: r = Z3_mk_bvsle(C, bv(n.a), bv(n.b)); break;
	case E_AND: { Z3_ast x[2] = { bl(n.a), bl(n.b) }; r = Z3_mk_and(C, 2, x); break; }
	case E_OR: { Z3_ast x[2] = { bl(n.a), bl(n.b) }; r = Z3_mk_or(C, 2, x); break; }
	case E_XOR: r = isC(n.b) ? (N[n.b].val ? Z3_mk_not(C, bl(n.a)) : bl(n.a)) : Z3_mk_xor(C, bl(n.a), bl(n.b)); break;
	case E_ITE: r = Z3_mk_ite(C, bl(n.a), bl(n.b), bl(n.c)); break;
	case E_FCMP: { Z3_ast x = fp(n.a), y = fp(n.b);
		if (n.aux == FC_OEQ) r = Z3_mk_fpa_eq(C, x, y); else if (n.aux == FC_OLT) r = Z3_mk_fpa_lt(C, x, y); else if (n.aux == FC_OLE) r = Z3_mk_fpa_leq(C, x, y);
		else { Z3_ast o[2] = { Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y) }; r = n.a == n.b ? o[0] : Z3_mk_or(C, 2, o); } break; }
	default: r = Z3_mk_eq(C, bv(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)));
	}
	Z3_inc_ref(C, r); BL[e] = r; return r;
}
static Z3_ast bv(u32 e) {
	if (BV.size() <= e) BV.resize(N.size() + 64, nullptr);
	if (BV[e]) return BV[e];
	Node n = N[e]; Z3_ast r; Z3_sort s = Z3_mk_bv_sort(C, n.w);
	switch (n.op) {
	case E_CONST: r = Z3_mk_unsigned_int64(C, n.val, s); break;
	case E_VAR: { char nm[32]; snprintf(nm, 32, "v%llu", (unsigned long long)n.val); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), s); break; }
	case E_ADD: r = Z3_mk_bvadd(C, bv(n.a), bv(n.b)); break;
	case E_MUL: r = Z3_mk_bvmul(C, bv(n.a), bv(n.b)); break;
	case E_UDIV: r = Z3_mk_bvudiv(C, bv(n.a), bv(n.b)); break;
	case E_SDIV: r = Z3_mk_bvsdiv(C, bv(n.a), bv(n.b)); break;
	case E_UREM: r = Z3_mk_bvurem(C, bv(n.a), bv(n.b)); break;
	case E_SREM: r = Z3_mk_bvsrem(C, bv(n.a), bv(n.b)); break;
	case E_AND: if (n.w == 1) { r = b2(bl(e)); break; } r = Z3_mk_bvand(C, bv(n.a), bv(n.b)); break;
	case E_OR: if (n.w == 1) { r = b2(bl(e)); break; } r = Z3_mk_bvor(C, bv(n.a), bv(n.b)); break;
	case E_XOR: if (n.w == 1) { r = b2(bl(e)); break; } r = Z3_mk_bvxor(C, bv(n.a), bv(n.b)); break;
	case E_SHL: r = Z3_mk_bvshl(C, bv(n.a), bv(n.b)); break;
	case E_LSHR: r = Z3_mk_bvlshr(C, bv(n.a), bv(n.b)); break;
	case E_ASHR: r = Z3_mk_bvashr(C, bv(n.a), bv(n.b)); break;
	case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: case E_FCMP: r = b2(bl(e)); break;
	case E_CONCAT: r = Z3_mk_concat(C, bv(n.a), bv(n.b)); break;
	case E_EXTRACT: r = Z3_mk_extract(C, n.aux + n.w - 1, n.aux, bv(n.a)); break;
	case E_ZEXT: r = Z3_mk_zero_ext(C, n.w - N[n.a].w, bv(n.a)); break;
	case E_SEXT: r = Z3_mk_sign_ext(C, n.w - N[n.a].w, bv(n.a)); break;
	case E_ITE: r = Z3_mk_ite(C, bl(n.a), bv(n.b), bv(n.c)); break;
	case E_FPTOSI: r = Z3_mk_fpa_to_sbv(C, RTZ, fp(n.a), n.w); break;
	case E_FPTOUI: r = Z3_mk_fpa_to_ubv(C, RTZ, fp(n.a), n.w); break;
	case E_UF: {
		while (UFD.size() <= n.aux) UFD.push_back(nullptr);
		if (!UFD[n.aux]) { Z3_sort d[2] = { s, s }; char nm[32]; snprintf(nm, 32, "uf%d", n.aux); UFD[n.aux] = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, nm), n.b ? 2 : 1, d, s); }
		Z3_ast x[2] = { bv(n.a), n.b ? bv(n.b) : nullptr }; r = Z3_mk_app(C, UFD[n.aux], n.b ? 2 : 1, x); break; }
	default: if (isF(n.op)) { r = Z3_mk_fpa_to_ieee_bv(C, fp(e)); break; } fprintf(stderr, "bv op %d\n", n.op); abort();
	}
	Z3_inc_ref(C, r); BV[e] = r; return r;
}
static std::vector<u8> vseen; static std::vector<u32> nst; static u32 nep = 0;
static u32 nodesSeen;
static void collectVars(u32 e, std::vector<u32>& out, bool& f) {
	if (nst.size() < N.size()) nst.resize(N.size() + 1024, 0);
	if (nst[e] == nep) return; nst[e] = nep; ++nodesSeen;
	Node& n = N[e];
	if ((n.op >= E_FADD && n.op <= E_UITOFP)) f = true;
	if (n.op == E_VAR) { out.push_back(e); return; }
	u32 a = n.a, b = n.b, c = n.c;
	if (a) collectVars(a, out, f); if (b) collectVars(b, out, f); if (c) collectVars(c, out, f);
}
static void sliceOf(const std::vector<u32>& pc, u32 extra, std::vector<u32>& sl) {
	std::vector<u32> rest; for (u32 x : pc) rest.push_back(x);
	u64 m = N[extra].vmask; sl.push_back(extra);
	bool ch = true;
	while (ch) { ch = false; size_t k = 0; for (size_t i = 0; i < rest.size(); ++i) { if (N[rest[i]].vmask & m) { u64 nm = m | N[rest[i]].vmask; if (nm != m) { m = nm; ch = true; } sl.push_back(rest[i]); } else rest[k++] = rest[i]; } rest.resize(k); }
}
SRes solve(const std::vector<u32>& pc, u32 extra, std::vector<u64>& nm) {
	if (isC(extra)) { if (!N[extra].val) return S_UNSAT; }
	timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
	std::vector<u32> sl; sliceOf(pc, extra, sl);
	std::vector<u32> vars; bool f = false; ++nep; nodesSeen = 0; for (u32 x : sl) collectVars(x, vars, f);
	SRes res;
	// small bit-vector queries go to one long-lived incremental solver (building the QF_BV tactic costs far more than answering them)
	static Z3_solver quick = nullptr; bool small = !f && nodesSeen <= 60;
	Z3_solver s;
	if (small) { if (!quick) { quick = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, quick); Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)std::min<u64>(RL, 4000000000u)); Z3_solver_set_params(C, quick, p); Z3_params_dec_ref(C, p); } s = quick; Z3_solver_push(C, s); }
	else {
		s = f ? Z3_mk_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, s);
		Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
		Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)std::min<u64>(RL, 4000000000u)); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
	}
	for (u32 x : sl) Z3_solver_assert(C, s, bl(x));
	Z3_lbool r = Z3_solver_check(C, s);
	SST.queries++; if (f) SST.fp++;
	if (r == Z3_L_FALSE) { res = S_UNSAT; SST.unsat++; }
	else if (r == Z3_L_UNDEF) { res = S_UNKNOWN; SST.unknown++; }
	else {
		res = S_SAT; SST.sat++;
		nm = MODEL;
		Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
		for (u32 v : vars) { Z3_ast a; if (Z3_model_eval(C, m, bv(v), true, &a)) { u64 x = 0; Z3_get_numeral_uint64(C, a, (uint64_t*)&x); nm[N[v].val] = x; } }
		Z3_model_dec_ref(C, m);
		// validate with our own evaluator
		std::swap(nm, MODEL); modelChanged();
		bool ok = true; for (u32 x : sl) if (!evalE(x)) { ok = false; break; }
		std::swap(nm, MODEL); modelChanged();
		if (!ok) { res = S_UNKNOWN; SST.sat--; SST.unknown++; }
	}
	if (DUMPQ > 0 && DUMPDIR && res != S_UNKNOWN) { --DUMPQ;
		char fn[512]; snprintf(fn, 512, "%s/q_%d_%llu_%s.smt2", DUMPDIR, getpid(), (unsigned long long)SST.queries, res == S_SAT ? "sat" : "unsat");
		FILE* o = fopen(fn, "w"); if (o) { fprintf(o, "; expected %s\n%s\n(check-sat)\n", res == S_SAT ? "sat" : "unsat", Z3_solver_to_string(C, s)); fclose(o); } }
	static const char* slow = getenv("FVX_SLOW");   // developer aid: keep the queries that take more than 0.1 s
	if (slow) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > 0.1) { char fn[512]; snprintf(fn, 512, "%s/slow_%d_%llu_%s.smt2", slow, getpid(), (unsigned long long)SST.queries, res == S_SAT ? "sat" : "unsat"); FILE* o = fopen(fn, "w"); if (o) { fprintf(o, "%s\n(check-sat)\n", Z3_solver_to_string(C, s)); fclose(o); } } }
	if (small) Z3_solver_pop(C, s, 1); else Z3_solver_dec_ref(C, s);
	clock_gettime(CLOCK_MONOTONIC, &t1); SST.ns += (t1.tv_sec - t0.tv_sec) * 1000000000ull + t1.tv_nsec - t0.tv_nsec;
	return res;
}
