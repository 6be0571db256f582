// Rendering of a reported region: exactly its pixels, at their position relative to the centred square around the rectangle, in gray or colour.
#include "mser_all.h"
extern "C" void vp_main() {
	Img im; sym_image(im); Par p; sym_par(p, im, vp_param("FLAGS", 16)); int cfg = vp_param("A", 4); mt_mat m = make_mat(im); static RepList R[2]; int thr; img_mser_base* a = make_alg(cfg, thr); configure(*a, p, 4, thr); img_multi_msers res; a->extract(res, m); delete a;
	int fg = vp_param("FG", 3), bg = vp_param("BG", 200);
	for (int c = 0; c < 2; ++c) { read_back(res, c, im, R[c]); static Tree t; ref_tree(im, c ? 255 : 0, 4, all_px(im), t);
		for (int k = 0; k < (int)res.m_msers[c].size(); ++k) { const img_mser& s = res.m_msers[c][k]; const Rep& r = R[c].r[k];
			for (int gray = 0; gray < 2; ++gray) { mt_mat b(2, 2, mt_U8C1, mt_scalar(9)); img_mser_helper::image_from_mser(b, s, mt_size(0, 0), mt_scalar(fg, fg + 1, fg + 2), mt_scalar(bg, bg + 1, bg + 2), gray ? sys_true : sys_false);
				int W = r.w, H = r.h, eh = W > H ? (W - H) / 2 : 0, ew = H > W ? (H - W) / 2 : 0; vp_assert(b.size()[0] == H + 2 * eh && b.size()[1] == W + 2 * ew && b.channel() == (gray ? 1 : 3), "the rendered image is the rectangle padded towards a square");
				for (int y = 0; y < b.size()[0]; ++y) for (int x = 0; x < b.size()[1]; ++x) { int X = x - ew + r.l, Y = y - eh + r.t; bool in = X >= 0 && Y >= 0 && X < im.w && Y < im.h && (r.m >> (Y * im.w + X) & 1);
					for (int ch = 0; ch < b.channel(); ++ch) { int got = b.ptr<u8>(y, x, 0)[ch], want = (in ? fg : bg) + ch; vp_assert(got == want, "exactly the region's pixels have the foreground colour"); } }
				vp_reach("region rendered"); } }
		observe(R[c]); }
	vector<const img_mser*> ptrs; img_mser_helper::shallow_copy_msers(ptrs, res); vp_assert(ptrs.size() == res.m_msers[0].size() + res.m_msers[1].size(), "the pointer list holds every region"); for (int k = 0; k < (int)ptrs.size(); ++k) vp_assert(ptrs[k] == (k < (int)res.m_msers[0].size() ? &res.m_msers[0][k] : &res.m_msers[1][k - res.m_msers[0].size()]), "the pointer list holds every region");
	img_mser_helper::visit_pixel_test(res);
}
