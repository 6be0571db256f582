// Native implementation of the harness interface: replays one input assignment against the real, natively compiled code.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <unistd.h>
#include <dirent.h>
#include <map>
#include <string>
#include <vector>
#include <sanitizer/allocator_interface.h>
static std::map<std::string, long long>& IN() { static std::map<std::string, long long> m; return m; }
static std::map<std::string, int>& CNT() { static std::map<std::string, int> m; return m; }
static std::map<std::string, int>& PRM() { static std::map<std::string, int> m; return m; }
static long long get(const char* b) { int k = CNT()[b]++; std::string n = k ? std::string(b) + "#" + std::to_string(k) : b; auto it = IN().find(n); if (it == IN().end()) { printf("VP_MISSING_INPUT %s\n", n.c_str()); fflush(stdout); _exit(4); } return it->second; }
static std::string& SCR() { static std::string s; return s; }
static void cleanup() { if (SCR().empty()) return; if (DIR* d = opendir(SCR().c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((SCR() + "/" + e->d_name).c_str()); closedir(d); } rmdir(SCR().c_str()); SCR().clear(); }
extern "C" {
int vp_int(const char* n, int lo, int hi) { int v = (int)get(n); if (v < lo || v > hi) { printf("VP_RANGE %s\n", n); fflush(stdout); _exit(4); } return v; }
long long vp_i64(const char* n, long long lo, long long hi) { return get(n); }
int vp_choose(const char* n, int k) { return (int)get(n); }
float vp_f32(const char* n) { uint32_t b = (uint32_t)get(n); float f; memcpy(&f, &b, 4); return f; }
double vp_f64(const char* n) { uint64_t b = (uint64_t)get(n); double f; memcpy(&f, &b, 8); return f; }
void vp_bytes(const char* n, void* p, unsigned long k) { for (unsigned long i = 0; i < k; ++i) ((unsigned char*)p)[i] = (unsigned char)get((std::string(n) + "[" + std::to_string(i) + "]").c_str()); }
long long vp_concretize(long long v) { return v; }
void vp_assume(int c) { if (!c) { cleanup(); printf("VP_ASSUME_FALSE\n"); fflush(stdout); _exit(3); } }
void vp_assert(int c, const char* l) { if (!c) { printf("VP_ASSERT_FAIL %s\n", l); fflush(stdout); if (strncmp(l, "KF:", 3)) { cleanup(); _exit(42); } } }
void vp_reach(const char* l) {}
void vp_observe(const char* l, long long v) { printf("OBS %s %llu\n", l, (unsigned long long)v); }
long long vp_heap_bytes(void) { return (long long)__sanitizer_get_current_allocated_bytes(); }
void vp_opt(const char*, int) {}
int vp_param(const char* n, int d) { auto it = PRM().find(n); return it == PRM().end() ? d : it->second; }
const char* vp_scratch_file(const char* n) { static std::map<std::string, std::string> m; std::string& d = SCR(); if (d.empty()) { const char* t = getenv("TMPDIR"); char b[512]; snprintf(b, sizeof b, "%s/vpXXXXXX", t && *t ? t : "/tmp"); if (!mkdtemp(b)) _exit(5); d = b; } return (m[n] = d + "/" + n).c_str(); }
int vp_open_files(void) { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
void vp_end(void) { cleanup(); printf("VP_DONE\n"); fflush(stdout); _exit(0); }
int vp_is_symbolic(long long) { return 0; }
void vp_main(void);
}
int main(int argc, char** argv) {
	static char ob[1 << 16]; setvbuf(stdout, ob, _IOFBF, sizeof ob);
	FILE* f = fopen(argv[1], "r"); if (!f) return 5; char line[4096];
	while (fgets(line, sizeof line, f)) { char* e = strchr(line, '\n'); if (e) *e = 0; char* s = strrchr(line, ' '); if (!s) continue; *s = 0; if (line[0] == 'P' && line[1] == ' ') PRM()[line + 2] = atoi(s + 1); else IN()[line + 2] = strtoll(s + 1, 0, 10); }
	fclose(f);
	for (auto& p : IN()) CNT()[p.first] = 0;
	vp_main(); cleanup(); printf("VP_DONE\n"); fflush(stdout); _exit(0);
}
