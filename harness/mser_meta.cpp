// Geometry and layout: mirroring, transposing or embedding an image, storing it with other strides, or remapping its gray levels monotonically changes
// the reported regions in the corresponding way only.
#include "mser_all.h"
static void map_img(const Img& a, Img& b, int t) {
	b.w = t == 2 ? a.h : a.w; b.h = t == 2 ? a.w : a.h; b.n = a.n;
	for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) { int X = t == 2 ? y : t == 0 || t == 3 ? a.w - 1 - x : x, Y = t == 2 ? x : t == 1 || t == 3 ? a.h - 1 - y : y; b.px[Y * b.w + X] = a.px[y * a.w + x]; }
}
static void map_reps(const Img& a, const Img& b, int t, const RepList& in, RepList& out) {
	out.n = in.n;
	for (int k = 0; k < in.n; ++k) { const Rep& r = in.r[k]; Rep& q = out.r[k]; q = r; q.m = 0;
		for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) if (r.m >> (y * a.w + x) & 1) { int X = t == 2 ? y : t == 0 || t == 3 ? a.w - 1 - x : x, Y = t == 2 ? x : t == 1 || t == 3 ? a.h - 1 - y : y; q.m |= (msk)1 << (Y * b.w + X); }
		bbox(b, q.m, q.l, q.t, q.w, q.h); }
}
extern "C" void vp_main() {
	Img im; sym_image(im); Par p; sym_par(p, im, vp_param("FLAGS", 16)); int cfg = vp_param("A", 4), conn = vp_param("CONN", 4);
	static RepList A[2], B[2], C[2]; mt_mat m = make_mat(im); run_cfg(cfg, m, im, p, conn, A);
	int kind = vp_choose("transformation", 8);
	if (kind <= 3) { Img b; map_img(im, b, kind); run_cfg(cfg, make_mat(b), b, p, conn, B); for (int c = 0; c < 2; ++c) { map_reps(im, b, kind, A[c], C[c]); same_set(B[c], C[c], "regions of the mirrored or transposed image are the mirrored or transposed regions"); } }
	else if (kind == 4) { run_cfg(cfg, make_mat(im, true), im, p, conn, B); for (int c = 0; c < 2; ++c) same_set(A[c], B[c], "a sub-image view with row padding gives the same regions"); }
	else if (kind == 5) { int k = vp_choose("shift", 2) ? 200 : 3; Img b = im; for (int i = 0; i < b.n; ++i) b.px[i] = (unsigned char)(b.px[i] + k); run_cfg(cfg, make_mat(b), b, p, conn, B); for (int c = 0; c < 2; ++c) { C[c] = A[c]; for (int i = 0; i < C[c].n; ++i) C[c].r[i].gray += k; same_set(B[c], C[c], "adding a constant to every pixel shifts the gray levels of the regions"); } }
	else if (kind == 6 && p.delta == 0) { Img b = im; for (int i = 0; i < b.n; ++i) b.px[i] = (unsigned char)((im.px[i] - 10) * (im.px[i] - 10) * 27 + 5); run_cfg(cfg, make_mat(b), b, p, conn, B); for (int c = 0; c < 2; ++c) { C[c] = A[c]; for (int i = 0; i < C[c].n; ++i) { int g = C[c].r[i].gray - 10; C[c].r[i].gray = g * g * 27 + 5; } same_set(B[c], C[c], "a monotone gray transformation keeps the extremal regions"); } }
	else { // negative strides: the mirrored view of the mirrored copy is the image itself
		Img b; map_img(im, b, 0); mt_mat src = make_mat(b); mt_mat v = src.flip(1); run_cfg(cfg, v.is_step_positive() ? v : v.clone(), im, p, conn, B); for (int c = 0; c < 2; ++c) same_set(A[c], B[c], "a flipped copy gives the same regions"); }
	for (int c = 0; c < 2; ++c) { observe(A[c]); if (A[c].n) vp_reach("regions compared"); }
}
