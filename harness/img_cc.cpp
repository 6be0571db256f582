// Connected components of an image: exactly the connected sets of pixels that differ from the background colour, once each.
#include "mser_common.h"
#include "img_connected_component.h"
// scaling is OpenCV's: the stand-in notes the size asked for and hands back what it was given
static int RSW, RSH, RST; mt_mat img_img::resize(const mt_mat& src, const mt_size& dst_size, Inter_Type type) { RSW = dst_size.m_width; RSH = dst_size.m_height; RST = type; return src; }
static int is_fg(const int* v, int ch) { for (int c = 0; c < ch; ++c) if (v[c]) return 1; return 0; }
// the template behind it, with every kind of mask, and the extraction of one component from a start pixel
static void masked() {
	int w = vp_param("W", 3), h = vp_param("H", 2), conn = vp_param("CONN", 4), kind = vp_choose("mask kind", 4); Img im; im.w = w; im.h = h; im.n = w * h; img_Connected_Type ct = conn == 8 ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour;
	bool view = vp_choose("view", 2); mt_mat big(h + 2, w + 3, mt_U8C1, mt_scalar(9)), mb(h + 1, w + 2, mt_U8C1, mt_scalar(1)); mt_mat m = view ? big.sub(1, 1 + h, 0).sub(2, 2 + w, 1) : mt_mat(h, w, mt_U8C1, mt_scalar(9)), mm = view ? mb.sub(0, h, 0).sub(1, 1 + w, 1) : mt_mat(h, w, mt_U8C1, mt_scalar(0));
	msk fg = all_px(im); img_mask_info<u8> info;
	if (kind == 1) { fg = 0; for (int i = 0; i < im.n; ++i) { int b = vp_choose("mask", 2); mm.ptr<u8>(i / w, i % w, 0)[0] = (u8)b; if (b) fg |= (msk)1 << i; } info = img_mask_info<u8>(mm); }
	else if (kind == 2) { int x = vp_choose("x", w), y = vp_choose("y", h), W = 1 + vp_choose("w", w - x), H = 1 + vp_choose("h", h - y); fg = 0; for (int Y = y; Y < y + H; ++Y) for (int X = x; X < x + W; ++X) fg |= (msk)1 << (Y * w + X); info = img_mask_info<u8>(mt_rect(x, y, W, H)); }
	else if (kind == 3) { for (int i = 0; i < im.n; ++i) if (vp_choose("value", 2)) { m.ptr<u8>(i / w, i % w, 0)[0] = 200; fg &= ~((msk)1 << i); } info = img_mask_info<u8>((u8)200); }
	ml_connected_component_base<u8> ex; { img_multi_connected_components warm; ex.ture_normal_extract(warm, m, info, ct); }
	long long heap0 = vp_heap_bytes();
	{
		img_multi_connected_components ccs; ex.ture_normal_extract(ccs, m, info, ct); if (vp_choose("again", 2)) ex.ture_normal_extract(ccs, m, info, ct); msk seen = 0;
		for (int k = 0; k < (int)ccs.m_ccs.size(); ++k) { const img_connected_component& cc = ccs.m_ccs[k]; msk c = 0; bool ok = cc.m_size > 0; for (int i = 0; i < cc.m_size; ++i) { int x = cc.m_points[i].m_x, y = cc.m_points[i].m_y; if (x < 0 || y < 0 || x >= w || y >= h || (c >> (y * w + x) & 1)) { ok = false; break; } c |= (msk)1 << (y * w + x); }
			vp_assert(ok && !(c & seen) && c == grow(im, c & (~c + 1), fg, conn), "a component is a maximal connected set of unmasked pixels"); seen |= c; int l, t, W, H; bbox(im, c, l, t, W, H); vp_assert(cc.m_rect.m_left == l && cc.m_rect.m_top == t && cc.m_rect.m_width == W && cc.m_rect.m_height == H, "the rectangle of a component is its bounding box"); vp_observe("component", c); }
		vp_assert(seen == fg, "every unmasked pixel belongs to a component"); if (fg) vp_reach("component"); else vp_reach("nothing but background");
		if (fg) { int s = vp_choose("start", im.n); vp_assume(fg >> s & 1); img_connected_component one; ex.ture_single_extract(one, mt_point(s % w, s / w), m, info, ct); if (vp_choose("reuse", 2)) ex.ture_single_extract(one, mt_point(s % w, s / w), m, info, ct);
			msk c = 0; bool ok = true; for (int i = 0; i < one.m_size; ++i) { int x = one.m_points[i].m_x, y = one.m_points[i].m_y; if (x < 0 || y < 0 || x >= w || y >= h || (c >> (y * w + x) & 1)) { ok = false; break; } c |= (msk)1 << (y * w + x); }
			vp_assert(ok && c == grow(im, (msk)1 << s, fg, conn), "the component of a start pixel is the connected set around it"); int l, t, W, H; bbox(im, c, l, t, W, H); vp_assert(one.m_rect.m_left == l && one.m_rect.m_top == t && one.m_rect.m_width == W && one.m_rect.m_height == H, "the rectangle of a component is its bounding box"); }
	}
	vp_assert(vp_heap_bytes() == heap0, "all memory is released");
}
extern "C" void vp_main() {
	if (vp_param("USE", 0) == 3) { masked(); return; }
	int w = vp_param("W", 3), h = vp_param("H", 2), ch = vp_param("CH", 1), conn = vp_param("CONN", 4), use = vp_param("USE", 0);
	Img im; im.w = w; im.h = h; im.n = w * h; u8 bg[4]; for (int c = 0; c < 4; ++c) bg[c] = (u8)(vp_param("BG", 255) - 3 * c);
	bool view = vp_choose("view", 2);
	mt_mat big(h + 2, w + 3, mt_Depth_Channel(mt_U8, ch)); for (int y = 0; y < h + 2; ++y) for (int x = 0; x < w + 3; ++x) for (int c = 0; c < ch; ++c) big.ptr<u8>(y, x, 0)[c] = bg[(c + 1) % 4] ^ 1;
	mt_mat m = view ? big.sub(1, 1 + h, 0).sub(2, 2 + w, 1) : mt_mat(h, w, mt_Depth_Channel(mt_U8, ch));
	msk fg = 0;
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int v[4] = { 0, 0, 0, 0 };
		// a foreground pixel differs from the background in at least one channel; its colour is otherwise free
		int k = vp_choose("pixel", ch == 1 ? 3 : 4); if (ch == 1) v[0] = k == 0 ? 0 : k == 1 ? 1 : 128; else if (k) v[k == 3 ? ch - 1 : k - 1] = k == 2 ? 200 : 1;
		for (int c = 0; c < ch; ++c) m.ptr<u8>(y, x, 0)[c] = (u8)(bg[c] - v[c]); if (is_fg(v, ch)) fg |= (msk)1 << (y * w + x); }
	mt_scalar back(bg[0], bg[1], bg[2], bg[3]);
	{ img_multi_connected_components ccs; img_connected_component_helper::connect_component(ccs, m, back, conn == 8 ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour); }
	long long heap0 = vp_heap_bytes();
	{
		img_multi_connected_components ccs; img_connected_component_helper::connect_component(ccs, m, back, conn == 8 ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { bool same = true; for (int c = 0; c < ch; ++c) if (m.ptr<u8>(y, x, 0)[c] != bg[c]) same = false; vp_assert(same == !(fg >> (y * w + x) & 1), "the image is left as it is"); }
		msk left = fg; int want = 0; while (left) { msk c = grow(im, left & (~left + 1), fg, conn); left &= ~c; ++want; }
		vp_assert((int)ccs.m_ccs.size() == want, "there are as many components as connected sets of foreground pixels"); msk seen = 0;
		for (int k = 0; k < (int)ccs.m_ccs.size(); ++k) {
			const img_connected_component& cc = ccs.m_ccs[k]; msk c = 0; bool ok = cc.m_size > 0;
			for (int i = 0; i < cc.m_size; ++i) { int x = cc.m_points[i].m_x, y = cc.m_points[i].m_y; if (x < 0 || y < 0 || x >= w || y >= h || (c >> (y * w + x) & 1)) { ok = false; break; } c |= (msk)1 << (y * w + x); }
			vp_assert(ok && c, "a component lists distinct pixels of the image"); vp_assert(!(c & seen), "no pixel belongs to two components"); seen |= c;
			vp_assert(c == grow(im, c & (~c + 1), fg, conn), "a component is a maximal connected set of foreground pixels");
			int l, t, W, H; bbox(im, c, l, t, W, H); vp_assert(cc.m_rect.m_left == l && cc.m_rect.m_top == t && cc.m_rect.m_width == W && cc.m_rect.m_height == H, "the rectangle of a component is its bounding box"); vp_observe("component", c); vp_reach("component");
		}
		if (use == 4) for (int k = 0; k < (int)ccs.m_ccs.size(); ++k) {   // the picture of one component: its pixels, centred, scaled to the size asked for
			const img_connected_component& cc = ccs.m_ccs[k]; msk c = 0; for (int i = 0; i < cc.m_size; ++i) c |= (msk)1 << (cc.m_points[i].m_y * w + cc.m_points[i].m_x);
			b8 gray = (b8)vp_choose("gray", 2); mt_scalar f(10, 20, 30), b(200, 201, 202); RSW = -1; mt_mat r = img_connected_component_helper::image_from_connected_component(cc, mt_size(7, 9), f, b, gray); int W = cc.m_rect.m_width, H = cc.m_rect.m_height, eh = W > H ? (W - H) / 2 : 0, ew = H > W ? (H - W) / 2 : 0;
			vp_assert(RSW == 7 && RSH == 9, "the picture of a component is scaled to the size asked for"); bool ok = r.size()[0] == H + 2 * eh && r.size()[1] == W + 2 * ew && r.channel() == (gray ? 1 : 3); vp_assert(ok, "the picture of a component is its rectangle, made square by equal borders"); if (!ok) vp_end();
			for (int y = 0; y < H + 2 * eh; ++y) for (int x = 0; x < W + 2 * ew; ++x) for (int q = 0; q < r.channel(); ++q) { int X = x - ew, Y = y - eh; bool in = X >= 0 && X < W && Y >= 0 && Y < H && (c >> ((Y + cc.m_rect.m_top) * w + X + cc.m_rect.m_left) & 1); vp_assert(r.ptr<u8>(y, x, 0)[q] == (in ? (q + 1) * 10 : 200 + q), "exactly the pixels of the component carry the foreground colour"); }
		} else if (use == 1) {      // rendering all components shows exactly the foreground
			for (int kind = 0; kind < 2; ++kind) { vector<img_connected_component*> ps; for (int k = 0; k < (int)ccs.m_ccs.size(); ++k) ps.push_back(&ccs.m_ccs[k]);
				b8 gray = kind == 0; mt_scalar f(10, 20, 30), b(200, 201, 202);
				mt_mat r = vp_choose("list", 2) ? img_connected_component_helper::image_from_connected_component(ps, mt_rect(0, 0, w, h), f, b, gray) : img_connected_component_helper::image_from_connected_component(ccs.m_ccs, mt_rect(0, 0, w, h), f, b, gray);
				vp_assert(r.size()[0] == h && r.size()[1] == w && r.channel() == (gray ? 1 : 3), "the rendering has the size of the requested area and the requested channels");
				for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < r.channel(); ++c) vp_assert(r.ptr<u8>(y, x, 0)[c] == ((fg >> (y * w + x) & 1) ? (c + 1) * 10 : 200 + c), "exactly the pixels of the components carry the foreground colour"); }
		} else if (use == 2 && want) {   // components that own their points
			const img_connected_component& cc = ccs.m_ccs[0]; img_connected_component own; own.init(cc.m_size); for (int i = 0; i < cc.m_size; ++i) own.m_points[i] = cc.m_points[i]; own.m_rect = cc.m_rect;
			img_connected_component a; a = own; img_connected_component b = own; a = a; b.init(2); b = own; vector<img_connected_component> v; v.push_back(own); v.push_back(a); v.push_back(b); v.erase(v.begin()); own.m_points[0] = mt_point(77, 77);
			for (int q = 0; q < 2; ++q) { bool ok = v[q].m_size == cc.m_size && v[q].m_rect.m_left == cc.m_rect.m_left && v[q].m_rect.m_top == cc.m_rect.m_top && v[q].m_rect.m_width == cc.m_rect.m_width && v[q].m_rect.m_height == cc.m_rect.m_height; for (int i = 0; ok && i < cc.m_size; ++i) if (v[q].m_points[i].m_x != cc.m_points[i].m_x || v[q].m_points[i].m_y != cc.m_points[i].m_y) ok = false; vp_assert(ok, "copies of a component own their points and keep its rectangle"); }
			img_connected_component s = cc; s.init(1); s.m_points[0] = mt_point(1, 1); img_connected_component z; s = z; vp_assert(s.m_size == 0, "assigning an empty component clears the target");
			// between components that own their points and components of a result, which share them
			img_connected_component x; x.init(2); x = cc; img_connected_component y = cc; y = v[0]; img_connected_component u = y; u = cc; y = u; u = v[1];
			bool ok = true; for (int i = 0; ok && i < cc.m_size; ++i) ok = x.m_points[i].m_x == v[0].m_points[i].m_x && x.m_points[i].m_y == v[0].m_points[i].m_y && y.m_points[i].m_x == x.m_points[i].m_x && y.m_points[i].m_y == x.m_points[i].m_y && u.m_points[i].m_x == x.m_points[i].m_x && u.m_points[i].m_y == x.m_points[i].m_y;
			vp_assert(ok && x.m_size == cc.m_size && y.m_size == cc.m_size && u.m_size == cc.m_size, "a component keeps its points when others are assigned");
		}
	}
	vp_assert(vp_heap_bytes() == heap0, "all memory is released"); if (!fg) vp_reach("nothing but background");
}
