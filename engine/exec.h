#pragma once
#include "expr.h"
#include "solver.h"
#include <atomic>
#include <functional>
#include <map>
#include <semaphore.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>

struct FlatElem { u32 off; u8 w; bool fp; bool ptr; };
struct DFunc;
struct Move { i32 dst, src; u32 n; };
struct Edge { i32 target; std::vector<Move> mv; };
struct GepInfo { i32 base; i64 off; std::vector<std::pair<i32, std::pair<u8, i64>>> idx; }; // slot,(width,scale)
struct CallInfo;
typedef void (*Handler)(struct DInst& I, CallInfo& ci, Val* R);
struct ArgInfo { i32 slot; u32 n; std::vector<FlatElem>* fl; u64 byval; u8 w; };
struct CallInfo { llvm::Function* f; i32 indirect; std::vector<ArgInfo> args; DFunc* df; Handler h; std::string name; i32 dst; u32 nret; u8 retw; std::vector<FlatElem>* retfl; bool va; };
struct DInst { u16 op; u8 w, w2; u16 aux; i32 dst, a, b, c; u32 n; u32 line; void* x; };
struct DFunc {
	llvm::Function* f; u32 id; std::string name; std::string file;
	std::vector<DInst> code; std::vector<Edge> edges; u32 nregs; std::vector<ArgInfo> params; bool decoded = false; bool va;
};
struct Frame { DFunc* f; Val* R; u32 pc; u32 stackMark; u64 vaArea; DInst* callI; Val* callerR; };

enum { OK_GLOBAL, OK_HEAP, OK_STACK, OK_FUNC, OK_NATIVE };
enum { AK_NONE, AK_MALLOC, AK_NEW, AK_NEWA };
struct Obj { u64 base, size; u8 kind, live, ro, ak; u32 seq; llvm::Function* fn; };

struct LabelRec { char name[160]; std::atomic<u64> count; std::atomic<u64> dumped; u8 kind; }; // kind 1 reach, 2 assert checked, 3 violation
struct Shared {
	sem_t tokens; std::atomic<u64> paths, pathsTrunc, queries, qsat, qunsat, qunk, solverNs, fpq, instrs, forks, viol, samples, engErr, incomplete, asserts, infeasible, maxdepth, peakProcs, procs, omp, raceChecks;
	std::atomic<int> stop; double deadline; std::atomic<int> nlabels; std::atomic<int> lock; LabelRec labels[512];
	std::atomic<u8> cov[1 << 16];
	char errmsg[2048];
};
extern Shared* SH;
