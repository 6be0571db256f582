// Mats of one shape in every memory layout a caller can produce: plain, mirrored, transposed, sub-range, channel range, strided.
#pragma once
#include "mat_common.h"
static const int SHAPES[][MAXD + 1] = { { 1, 4 }, { 2, 2, 3 }, { 2, 1, 3 }, { 2, 3, 1 }, { 3, 2, 2, 2 }, { 3, 2, 1, 2 }, { 4, 2, 1, 2, 2 }, { 5, 1, 2, 1, 2, 2 }, { 2, 1, 1 }, { 3, 1, 2, 3 }, { 2, 4, 2 }, { 2, 2, 2 }, { 3, 3, 2, 1 }, { 4, 2, 1, 1, 2 }, { 3, 2, 1, 3 }, { 2, 1, 2 }, { 1, 2 } };
enum { LAYOUTS = 8 };
struct Lay { mt_mat base, m; View v; u8* data; int bytes; };   // m is the view of base described by v
static Lay make_layout(int lay, int nd, const int* s, mt_Depth d, int ch) {
	Lay r; int sz[MAXD]; for (int i = 0; i < nd; ++i) sz[i] = s[i]; int c = ch; mt_range g[MAXD]; int st[MAXD]; bool fl[MAXD] = { 0 }; b8 fb[MAXD] = { 0 };
	if (lay == 4) { sz[0] = s[nd - 1]; sz[nd - 1] = s[0]; }
	if (lay == 5) { sz[0] += 2; if (nd > 1) sz[nd - 1] += 1; }
	if (lay == 6) c = ch + 1;
	if (lay == 7) { sz[0] = 2 * sz[0]; if (nd > 1) sz[nd - 1] = 2 * sz[nd - 1] - 1; }
	View b = vbase(nd, sz, c); r.base = mt_mat(nd, sz, mt_Depth_Channel(d, c));
	switch (lay) {
	case 0: r.m = r.base; r.v = b; break;
	case 1: case 2: case 3: for (int i = 0; i < nd; ++i) fb[i] = fl[i] = lay == 1 || (lay == 2 && i == nd - 1) || (lay == 3 && i == 0); r.m = r.base.flip(nd, fb); r.v = vflip(b, fl); break;
	case 4: r.m = r.base.swap_dim(0, nd - 1); r.v = vswap(b, 0, nd - 1); break;
	case 5: for (int i = 0; i < nd; ++i) { st[i] = i == 0 ? 1 : 0; g[i] = mt_range(st[i], st[i] + s[i]); } r.m = r.base.sub(nd, g); r.v = vsub(b, st, s); break;
	case 6: r.m = r.base.sub_channel(1, ch + 1); r.v = vchan(b, 1, ch + 1); break;
	default: for (int i = 0; i < nd; ++i) st[i] = i == 0 || i == nd - 1 ? 2 : 1; r.m = r.base.sub_stride(nd, st); r.v = vstride(b, st); break;
	}
	r.data = r.base.data(); r.bytes = r.base.memory_size();
	return r;
}
static double rd(const u8* p, mt_Depth d) { switch (d) { case mt_U8: return *(u8*)p; case mt_I8: return *(i8*)p; case mt_U16: return *(u16*)p; case mt_I16: return *(i16*)p; case mt_U32: return *(u32*)p; case mt_I32: return *(i32*)p; case mt_U64: return (double)*(u64*)p; case mt_I64: return (double)*(i64*)p; case mt_F32: return *(f32*)p; default: return *(f64*)p; } }
static void wr(u8* p, mt_Depth d, double v) { switch (d) { case mt_U8: *(u8*)p = (u8)v; break; case mt_I8: *(i8*)p = (i8)v; break; case mt_U16: *(u16*)p = (u16)v; break; case mt_I16: *(i16*)p = (i16)v; break; case mt_U32: *(u32*)p = (u32)v; break; case mt_I32: *(i32*)p = (i32)v; break; case mt_U64: *(u64*)p = (u64)v; break; case mt_I64: *(i64*)p = (i64)v; break; case mt_F32: *(f32*)p = (f32)v; break; default: *(f64*)p = v; } }
static bool is_int(mt_Depth d) { return d != mt_F32 && d != mt_F64; }
static const int DSIZE[10] = { 1, 1, 2, 2, 4, 4, 8, 8, 4, 8 };
static void conv_scalar(u8* d, mt_Depth dd, const u8* s, mt_Depth sd) { // the C conversion from depth sd to depth dd
#define CV1(T) switch (sd) { case mt_U8: *(T*)d = (T)*(u8*)s; break; case mt_I8: *(T*)d = (T)*(i8*)s; break; case mt_U16: *(T*)d = (T)*(u16*)s; break; case mt_I16: *(T*)d = (T)*(i16*)s; break; case mt_U32: *(T*)d = (T)*(u32*)s; break; case mt_I32: *(T*)d = (T)*(i32*)s; break; case mt_U64: *(T*)d = (T)*(u64*)s; break; case mt_I64: *(T*)d = (T)*(i64*)s; break; case mt_F32: *(T*)d = (T)*(f32*)s; break; default: *(T*)d = (T)*(f64*)s; break; }
	switch (dd) { case mt_U8: CV1(u8) break; case mt_I8: CV1(i8) break; case mt_U16: CV1(u16) break; case mt_I16: CV1(i16) break; case mt_U32: CV1(u32) break; case mt_I32: CV1(i32) break; case mt_U64: CV1(u64) break; case mt_I64: CV1(i64) break; case mt_F32: CV1(f32) break; default: CV1(f64) break; }
}
// floating point sources must hold a value the destination depth can represent
static void assume_fits(const u8* p, mt_Depth sd, mt_Depth dd) { if (is_int(sd) || !is_int(dd)) return; double v = rd(p, sd), lo = 0, hi = 0; switch (dd) { case mt_U8: hi = 255; break; case mt_I8: lo = -128; hi = 127; break; case mt_U16: hi = 65535; break; case mt_I16: lo = -32768; hi = 32767; break; case mt_U32: hi = 4294967295.0; break; case mt_I32: lo = -2147483648.0; hi = 2147483647; break; case mt_U64: hi = 1e15; break; default: lo = -1e15; hi = 1e15; break; } vp_assume((v >= lo) & (v <= hi)); }
