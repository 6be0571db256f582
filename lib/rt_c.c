// libc functions executed symbolically along with the code under test (no system headers: these are the definitions).
typedef unsigned long size_t; typedef int wchar;

size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) ++a, ++b, --n; return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for (; ; ++h) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return 0; } }
size_t wcslen(const wchar* s) { size_t n = 0; while (s[n]) ++n; return n; }
wchar* wmemcpy(wchar* d, const wchar* s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar* wmemmove(wchar* d, const wchar* s, size_t n) { if (d < s) for (size_t i = 0; i < n; ++i) d[i] = s[i]; else for (size_t i = n; i-- > 0;) d[i] = s[i]; return d; }
wchar* wmemset(wchar* d, wchar c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int wmemcmp(const wchar* a, const wchar* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
const wchar* wmemchr(const wchar* p, wchar c, size_t n) { for (size_t i = 0; i < n; ++i) if (p[i] == c) return p + i; return 0; }
static int is_sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return is_sp(c); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
long long vp_strtoll(const char* s, char** e, int base) {
	const char* p = s; while (is_sp((unsigned char)*p)) ++p; int neg = 0; if (*p == '+' || *p == '-') neg = *p++ == '-';
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
	const char* q = p; unsigned long long v = 0; int ov = 0;
	for (;; ++p) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; if (v > (0x7fffffffffffffffull + neg - d) / base) ov = 1; else v = v * base + d; }
	if (e) *e = (char*)(p == q ? s : p);
	if (ov) return neg ? (long long)0x8000000000000000ull : 0x7fffffffffffffffll;
	return neg ? (long long)(0 - v) : (long long)v;
}
long strtol(const char* s, char** e, int b) { return vp_strtoll(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return vp_strtoll(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return vp_strtoll(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return vp_strtoll(s, e, b); }
unsigned long long vp_strtoull(const char* s, char** e, int base) {
	const char* p = s; while (is_sp((unsigned char)*p)) ++p; int neg = 0; if (*p == '+' || *p == '-') neg = *p++ == '-'; if (base == 0) base = 10; const char* q = p; unsigned long long v = 0; int ov = 0;
	for (;; ++p) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else break; if (d >= base) break; if (v > (0xffffffffffffffffull - d) / base) ov = 1; else v = v * base + d; }
	if (e) *e = (char*)(p == q ? s : p); return ov ? 0xffffffffffffffffull : neg ? 0 - v : v;
}
unsigned long strtoul(const char* s, char** e, int b) { return vp_strtoull(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return vp_strtoull(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return vp_strtoull(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return vp_strtoull(s, e, b); }
unsigned towupper(unsigned c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
unsigned towlower(unsigned c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* stdio files: a few named in-memory files of bounded size, opened in binary modes */
void* malloc(size_t); void free(void*); void vp_assert(int, const char*);
enum { FCAP = 4096, FMAX = 4 };
typedef struct { char name[64]; int used; unsigned char* data; long size; } vfile; typedef struct { vfile* f; long pos; int rd, wr, app, err; } vhandle;
static vfile vfiles[FMAX]; static int vopen_files;
const char* vp_scratch_file(const char* n) { return n; }
int vp_open_files(void) { return vopen_files; }
static vfile* vfind(const char* n, int make) { for (int i = 0; i < FMAX; ++i) if (vfiles[i].used && !strcmp(vfiles[i].name, n)) return &vfiles[i]; if (make) for (int i = 0; i < FMAX; ++i) if (!vfiles[i].used) { vfiles[i].used = 1; strcpy(vfiles[i].name, n); static unsigned char store[FMAX][FCAP]; vfiles[i].data = store[i]; vfiles[i].size = 0; return &vfiles[i]; } return 0; }
void* fopen(const char* n, const char* m) { int plus = m[1] == '+' || (m[1] && m[2] == '+'); vfile* f = vfind(n, m[0] != 'r'); if (!f) return 0; vhandle* h = (vhandle*)malloc(sizeof(vhandle)); h->f = f; h->pos = m[0] == 'a' ? f->size : 0; h->rd = m[0] == 'r' || plus; h->wr = m[0] != 'r' || plus; h->app = m[0] == 'a'; h->err = 0; if (m[0] == 'w') f->size = 0; ++vopen_files; return h; }
int fclose(void* p) { --vopen_files; free(p); return 0; }
size_t fwrite(const void* b, size_t s, size_t n, void* p) { vhandle* h = (vhandle*)p; if (!s || !n) return 0; if (!h->wr) { h->err = 1; return 0; } if (h->app) h->pos = h->f->size; long k = (long)(s * n); vp_assert(h->pos + k <= FCAP, "the modelled file is large enough"); while (h->f->size < h->pos) h->f->data[h->f->size++] = 0; for (long i = 0; i < k; ++i) h->f->data[h->pos + i] = ((const unsigned char*)b)[i]; h->pos += k; if (h->pos > h->f->size) h->f->size = h->pos; return n; }
size_t fread(void* b, size_t s, size_t n, void* p) { vhandle* h = (vhandle*)p; if (!s || !n) return 0; if (!h->rd) { h->err = 1; return 0; } size_t d = 0; for (; d < n; ++d) { for (size_t i = 0; i < s; ++i) { if (h->pos >= h->f->size) return d; ((unsigned char*)b)[d * s + i] = h->f->data[h->pos++]; } } return d; }
int fseek(void* p, long o, int w) { vhandle* h = (vhandle*)p; long q = o + (w == 0 ? 0 : w == 1 ? h->pos : h->f->size); if (q < 0) return -1; h->pos = q; return 0; }
long ftell(void* p) { return ((vhandle*)p)->pos; }
long ftello(void* p) { return ((vhandle*)p)->pos; }
int fflush(void* p) { return 0; }
int ferror(void* p) { return ((vhandle*)p)->err; }
int feof(void* p) { return ((vhandle*)p)->pos >= ((vhandle*)p)->f->size; }
void rewind(void* p) { ((vhandle*)p)->pos = 0; }
int atoi(const char* s) { return (int)vp_strtoll(s, 0, 10); }
long atol(const char* s) { return vp_strtoll(s, 0, 10); }
long long atoll(const char* s) { return vp_strtoll(s, 0, 10); }
static unsigned long long rnd_state = 88172645463325252ull;
int rand(void) { rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17; return (int)(rnd_state & 0x7fffffff); }

/* glibc character-class tables, "C" locale */
static unsigned short ctb[384]; static int lowt[384], upt[384]; static const unsigned short* ctbp; static const int *lowp, *upp;
static void ctinit(void) { if (ctbp) return; for (int i = 0; i < 256; ++i) { unsigned short m = 0; if (isupper(i)) m |= 1 << 8; if (islower(i)) m |= 1 << 9; if (isalpha(i)) m |= 1 << 10; if (isdigit(i)) m |= 1 << 11; if (isxdigit(i)) m |= 1 << 12; if (isspace(i)) m |= 1 << 13; if (isprint(i)) m |= 1 << 14; if (isprint(i) && i != ' ') m |= 1 << 15; if (i == ' ' || i == 9) m |= 1; if (i < 32 || i == 127) m |= 2; if (isprint(i) && !isalnum(i) && i != ' ') m |= 4; if (isalnum(i)) m |= 8; ctb[i + 128] = m; lowt[i + 128] = tolower(i); upt[i + 128] = toupper(i); } ctbp = ctb + 128; lowp = lowt + 128; upp = upt + 128; }
const unsigned short** __ctype_b_loc(void) { ctinit(); return &ctbp; }
const int** __ctype_tolower_loc(void) { ctinit(); return &lowp; }
const int** __ctype_toupper_loc(void) { ctinit(); return &upp; }
#undef finite
#undef isnan
#undef isinf
int finite(double x) { return __builtin_fabs(x) <= 1.7976931348623157e308; }
int finitef(float x) { return __builtin_fabsf(x) <= 3.40282346638528859812e+38F; }
int isnan(double x) { return x != x; }
int isinf(double x) { return __builtin_fabs(x) > 1.7976931348623157e308 ? (x > 0 ? 1 : -1) : 0; }

// type_info of the built-in types: machine code in libc++abi
static const char tn_v[] = "v"; const void* const _ZTIv[2] = { 0, tn_v };
static const char tn_w[] = "w"; const void* const _ZTIw[2] = { 0, tn_w };
static const char tn_b[] = "b"; const void* const _ZTIb[2] = { 0, tn_b };
static const char tn_c[] = "c"; const void* const _ZTIc[2] = { 0, tn_c };
static const char tn_a[] = "a"; const void* const _ZTIa[2] = { 0, tn_a };
static const char tn_h[] = "h"; const void* const _ZTIh[2] = { 0, tn_h };
static const char tn_s[] = "s"; const void* const _ZTIs[2] = { 0, tn_s };
static const char tn_t[] = "t"; const void* const _ZTIt[2] = { 0, tn_t };
static const char tn_i[] = "i"; const void* const _ZTIi[2] = { 0, tn_i };
static const char tn_j[] = "j"; const void* const _ZTIj[2] = { 0, tn_j };
static const char tn_l[] = "l"; const void* const _ZTIl[2] = { 0, tn_l };
static const char tn_m[] = "m"; const void* const _ZTIm[2] = { 0, tn_m };
static const char tn_x[] = "x"; const void* const _ZTIx[2] = { 0, tn_x };
static const char tn_y[] = "y"; const void* const _ZTIy[2] = { 0, tn_y };
static const char tn_n[] = "n"; const void* const _ZTIn[2] = { 0, tn_n };
static const char tn_o[] = "o"; const void* const _ZTIo[2] = { 0, tn_o };
static const char tn_f[] = "f"; const void* const _ZTIf[2] = { 0, tn_f };
static const char tn_d[] = "d"; const void* const _ZTId[2] = { 0, tn_d };
static const char tn_e[] = "e"; const void* const _ZTIe[2] = { 0, tn_e };
static const char tn_g[] = "g"; const void* const _ZTIg[2] = { 0, tn_g };
