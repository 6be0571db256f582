// Masked extraction (linked_linear_mser): only valid pixels take part; the mask is an image, a gray value or a rectangle.
#include "mser_all.h"
extern "C" void vp_main() {
	Img im; sym_image(im); Par p; sym_par(p, im, vp_param("FLAGS", 16)); int cfg = vp_param("A", 200), conn = vp_param("CONN", 4), kind = vp_param("KIND", 0);
	int vw = vp_param("VIEW", -1); bool view = vw < 0 ? vp_choose("view", 2) : vw; mt_mat m = make_mat(im, view); msk valid = all_px(im); img_mask_info<u8> info; mt_mat mb(im.h + 1, im.w + 2, mt_U8C1, mt_scalar(1)); mt_mat mm = view ? mb.sub(0, im.h, 0).sub(1, 1 + im.w, 1) : mt_mat(im.h, im.w, mt_U8C1);
	if (kind == 0) { msk v = 0; for (int i = 0; i < im.n; ++i) { int b = vp_choose("mask", 2); mm.ptr<u8>(i / im.w, i % im.w)[0] = (u8)b; if (b) v |= (msk)1 << i; } valid = v; info = img_mask_info<u8>(mm); }
	else if (kind == 1) { u8 g = (u8)(10 + vp_choose("value", 2)); valid = 0; for (int i = 0; i < im.n; ++i) if (im.px[i] != g) valid |= (msk)1 << i; info = img_mask_info<u8>(g); }
	else { int x = vp_choose("x", im.w), y = vp_choose("y", im.h), w = 1 + vp_choose("w", im.w - x), h = 1 + vp_choose("h", im.h - y); valid = 0; for (int Y = y; Y < y + h; ++Y) for (int X = x; X < x + w; ++X) valid |= (msk)1 << (Y * im.w + X); info = img_mask_info<u8>(mt_rect(x, y, w, h)); }
	static RepList rl; int thr; img_mser_base* a = make_alg(cfg, thr); configure(*a, p, conn, thr); img_multi_msers res; a->extract(res, m, info); delete a;
	for (int ch = 0; ch < 2; ++ch) {
		read_back(res, ch, im, rl); observe(rl); static Tree t; ref_tree(im, ch ? 255 : 0, conn, valid, t);
		// with masked pixels around, the largest component is not the whole image and may be reported; a tree whose root is all of the active area is not
		bool partial = cfg >= 301 || kind != 2 && valid != all_px(im); int want = 0;
		for (int i = 0; i < t.n; ++i) { Reg& r = t.r[i]; r.flag = r.size >= p.minp && r.size <= p.maxp && (r.parent >= 0 || partial); want += r.flag; }
		for (int k = 0; k < rl.n; ++k) {
			vp_assert((rl.r[k].m & ~valid) == 0, "no masked pixel is reported");
			int f = -1; for (int i = 0; i < t.n; ++i) if (t.r[i].m == rl.r[k].m && (t.r[i].gray ^ (ch ? 255 : 0)) == rl.r[k].gray) f = i;
			vp_assert(f >= 0, "every reported region is an extremal region of the valid pixels"); vp_assert(t.r[f].flag, "every reported region passes the size rule"); vp_assert(rl.r[k].size == t.r[f].size, "the reported size is the number of distinct pixels");
			for (int j = 0; j < k; ++j) vp_assert(rl.r[j].m != rl.r[k].m, "no region is reported twice");
			int l, tp, w, h; bbox(im, rl.r[k].m, l, tp, w, h); vp_assert(l == rl.r[k].l && tp == rl.r[k].t && w == rl.r[k].w && h == rl.r[k].h, "the reported rectangle is the bounding box of the pixels"); vp_reach("masked region"); }
		vp_assert(rl.n == want, "every extremal region of the valid pixels that passes the size rule is reported");
	}
}
