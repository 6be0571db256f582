// Harness interface: implemented by the symbolic executor (engine/handlers.inc) and, for native replay, by lib/replay.cpp.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int vp_int(const char* name, int lo, int hi);              // symbolic integer in [lo,hi]
long long vp_i64(const char* name, long long lo, long long hi);
int vp_choose(const char* name, int n);                    // symbolic, then split by the solver into one path per feasible value 0..n-1
float vp_f32(const char* name);                            // any 32-bit float
double vp_f64(const char* name);
void vp_bytes(const char* name, void* p, unsigned long n); // n symbolic bytes
long long vp_concretize(long long v);                      // split into one path per feasible value
void vp_assume(int c);
void vp_assert(int c, const char* label);
void vp_reach(const char* label);                          // vacuity witness
void vp_observe(const char* label, long long v);           // value predicted by the engine and compared with the native run
long long vp_heap_bytes(void);                             // bytes currently allocated
void vp_opt(const char* name, int v);                      // engine option
int vp_param(const char* name, int def);                   // tier-dependent bound
const char* vp_scratch_file(const char* name);             // a file name of the run's own scratch directory
int vp_open_files(void);                                   // number of files open
void vp_end(void);                                         // finish this path
int vp_is_symbolic(long long v);
#ifdef __cplusplus
}
#endif
