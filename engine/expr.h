// Hash-consed bit-vector / floating-point expression DAG with local simplification, known-bits and evaluation.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <emmintrin.h>
static inline long long _mm_cvt(double d) { return _mm_cvttsd_si64(_mm_set_sd(d)); }
#include <string>
#include <vector>
#include <unordered_map>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
typedef unsigned __int128 u128;

enum EOp : u8 { E_NONE, E_CONST, E_VAR, E_ADD, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FSQRT, E_FRND, E_FCMP, E_FPEXT, E_FPTRUNC, E_FPTOSI, E_FPTOUI, E_SITOFP, E_UITOFP, E_UF };

// FCMP predicates: only ordered primitives; others are derived. aux: 0 OEQ, 1 OLT, 2 OLE, 3 UNO
enum { FC_OEQ, FC_OLT, FC_OLE, FC_UNO };

struct Node { u8 op; u8 w; u16 aux; u32 a, b, c; u64 val; u64 kz, ko; u64 vmask; u64 hash; };

struct Val { u64 c; u32 e; };
static inline Val CV(u64 c) { Val v; v.c = c; v.e = 0; return v; }
static inline u64 mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

extern std::vector<Node> N;
struct VarInfo { std::string name; int w; u8 uninit; };
extern std::vector<VarInfo> VARS;
typedef double (*UFn1)(double);
struct UFInfo { std::string name; double (*d2)(double, double); double (*d1)(double); float (*f2)(float, float); float (*f1)(float); int w; };
extern std::vector<UFInfo> UFS;

u32 mkConst(u64 v, int w);
u32 mkVar(const std::string& name, int w, u64 kz, bool uninit);
u32 mk(int op, int w, u32 a, u32 b = 0, u32 c = 0, int aux = 0);   // simplifying constructor
static inline bool isC(u32 e) { return N[e].op == E_CONST; }
static inline u32 toE(Val v, int w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(u32 e) { Val v; if (N[e].op == E_CONST) { v.c = N[e].val; v.e = 0; } else { v.c = 0; v.e = e; } return v; }
u32 mkNot(u32 e);
u32 mkSub(u32 a, u32 b);
u32 mkExtract(u32 a, int off, int w);

u64 foldOp(int op, int w, int aux, u64 a, u64 b, u64 c, int wa, int wb);

// evaluation under a model (indexed by variable number)
extern std::vector<u64> MODEL;
void modelChanged();
u64 evalE(u32 e);
// substitute fixed variables
extern std::vector<std::pair<u8, u64>> FIXED;   // per variable: fixed?, value
void fixVar(u32 var, u64 v);
u32 reduceE(u32 e);
std::string exprStr(u32 e, int depth = 6);
