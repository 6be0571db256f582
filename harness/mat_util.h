// Helpers shared by the arithmetic, pooling and reduction harnesses.
#pragma once
static int pick_layout(const char* nm, const char* par) { int mask = vp_param(par, 255), set[LAYOUTS], c = 0; for (int i = 0; i < LAYOUTS; ++i) if (mask >> i & 1) set[c++] = i; return set[vp_choose(nm, c)]; }
static int diff(const u8* a, const u8* b, int n) { int x = 0; for (int i = 0; i < n; ++i) x |= a[i] ^ b[i]; return x; }
static bool WARM;
static Lay lay(const char* nm, const char* par, int nd, const int* s, mt_Depth d, int ch) { int k = WARM ? 0 : pick_layout(nm, par); Lay l = make_layout(k, nd, s, d, ch); if (WARM) memset(l.data, 0, l.bytes); else vp_bytes(nm, l.data, l.bytes); return l; }
static void shape_is(const mt_mat& m, int nd, const int* s, mt_Depth d, int ch) { bool ok = m.dim() == nd && m.channel() == ch && m.depth() == d; for (int i = 0; ok && i < nd; ++i) ok = m.size()[i] == s[i]; vp_assert(ok, "the result has the documented shape, depth and channels"); }
static const u8* at(const mt_mat& m, int nd, const int* s, int k, int c) { const u8* p = m.data(); for (int i = nd - 1; i >= 0; --i) { p += (k % s[i]) * m.step()[i]; k /= s[i]; } return p + c * m.element_channel_size(); }
static void assume_fits(double v, mt_Depth dd) { if (!is_int(dd)) return; double lo = 0, hi = 0; switch (dd) { case mt_U8: hi = 255; break; case mt_I8: lo = -128; hi = 127; break; case mt_U16: hi = 65535; break; case mt_I16: lo = -32768; hi = 32767; break; case mt_U32: hi = 4294967295.0; break; case mt_I32: lo = -2147483648.0; hi = 2147483647; break; case mt_U64: hi = 1e15; break; default: lo = -1e15; hi = 1e15; break; } vp_assume((v >= lo) & (v <= hi)); }
#define FOR_DEPTH(d, F, ...) switch (d) { case mt_U8: F<u8>(__VA_ARGS__); break; case mt_I8: F<i8>(__VA_ARGS__); break; case mt_U16: F<u16>(__VA_ARGS__); break; case mt_I16: F<i16>(__VA_ARGS__); break; case mt_U32: F<u32>(__VA_ARGS__); break; case mt_I32: F<i32>(__VA_ARGS__); break; case mt_U64: F<u64>(__VA_ARGS__); break; case mt_I64: F<i64>(__VA_ARGS__); break; case mt_F32: F<f32>(__VA_ARGS__); break; default: F<f64>(__VA_ARGS__); break; }
// the result r holds want[(k * ch + c) * es]
static void result_is(const mt_mat& r, int nd, const int* s, mt_Depth d, int ch, const u8* want, const char* msg) { shape_is(r, nd, s, d, ch); int n = 1, es = DSIZE[d], x = 0; for (int i = 0; i < nd; ++i) n *= s[i]; for (int k = 0; k < n; ++k) for (int c = 0; c < ch; ++c) { const u8* p = at(r, nd, s, k, c); for (int b = 0; b < es; ++b) x |= p[b] ^ want[(k * ch + c) * es + b]; } vp_assert(x == 0, msg); }
static int pick_shape() { int shape = vp_param("SHAPE", -1); if (shape < 0) { int m = -shape, set[16], c = 0; for (int i = 0; i < 17; ++i) if (m >> i & 1) set[c++] = i; shape = set[vp_choose("shape", c)]; } return shape; }
