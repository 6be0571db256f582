// Canny edges: with the gradients given, an edge is exactly what non-maximum suppression and the two thresholds select.
#include "mser_common.h"
#include "img_canny.h"
// filtering is OpenCV's: the stand-ins note what was asked for and hand back the prepared gradients
static mt_mat SX, SY, SM; static int SOBELS, SBAD, SAP, MAGS, MAGT;
void img_img::sobel(mt_mat& dst, const mt_mat& src, mt_Depth depth, i32 hor, i32 ver, i32 k) { ++SOBELS; if (depth != mt_F32 || k != SAP || hor + ver != 1 || hor < 0 || ver < 0) SBAD = 1; dst = hor ? SX.clone() : SY.clone(); }
void img_img::generate_gradient_mag(mt_mat& dst, const mt_mat& gx, const mt_mat& gy, Gradient_Mag_Type t) { ++MAGS; MAGT = t; dst = SM.clone(); }
enum { N = 70 };
static int MX[N][N], GX[N][N], GY[N][N], CAND[N][N], EDGE[N][N], Q[N * N];
static int mag(int w, int h, int x, int y) { return x < 0 || y < 0 || x >= w || y >= h ? 0 : MX[y][x]; }
// tan(22.5) and tan(67.5) by exact arithmetic: a < b * (sqrt(2) - 1)  <=>  (a + b)^2 < 2 b^2  (a, b >= 0)
static int below225(long long a, long long b) { return (a + b) * (a + b) < 2 * b * b; }
static void reference(int w, int h, int low, int high) {
	int n = 0;
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		int m = MX[y][x], c = 0, ax = abs(GX[y][x]), ay = abs(GY[y][x]);
		if (m > low) {
			if (below225(ay, ax)) c = m > mag(w, h, x - 1, y) && m >= mag(w, h, x + 1, y);
			else if (below225(ax, ay)) c = m > mag(w, h, x, y - 1) && m >= mag(w, h, x, y + 1);
			else { int s = (GX[y][x] < 0) != (GY[y][x] < 0) ? -1 : 1; c = m > mag(w, h, x - s, y - 1) && m > mag(w, h, x + s, y + 1); }
		}
		CAND[y][x] = c; EDGE[y][x] = 0; if (c && m > high) { EDGE[y][x] = 1; Q[n++] = y * w + x; }
	}
	while (n) { int p = Q[--n]; for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { int x = p % w + dx, y = p / w + dy; if (x < 0 || y < 0 || x >= w || y >= h || EDGE[y][x] || !CAND[y][x]) continue; EDGE[y][x] = 1; Q[n++] = y * w + x; } }
}
static mt_mat field(int w, int h, const int (*v)[N], float frac, bool view) {
	mt_mat big(h + 2, w + 3, mt_F32C1, mt_scalar(200)); mt_mat m = view ? big.sub(1, 1 + h, 0).sub(2, 2 + w, 1) : mt_mat(h, w, mt_F32C1);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.ptr<f32>(y, x, 0)[0] = (f32)v[y][x] + (v[y][x] < 0 ? -frac : frac); return m;
}
static const int DIR[18][2] = { { 9, 0 }, { 5, 2 }, { -5, 2 }, { 2, 1 }, { -2, 1 }, { 2, -5 }, { 12, -5 }, { 5, 12 }, { -1, -1 }, { 0, 7 }, { 0, 0 }, { -5, -12 }, { 163200, 0 }, { 9, -163200 }, { 60000, 50000 }, { -60000, 50000 }, { 65536, 20000 }, { -70000, 65536 } };   // the last six: a Sobel filter of 7x7 reaches 255 * 640
static const int LEVEL[5] = { 0, 60, 130, 40, 100 };
extern "C" void vp_main() {
	int w = vp_param("W", 3), h = vp_param("H", 2), nl = vp_param("L", 3), nd = vp_param("D", 8), low = 40, high = 100, each = vp_param("EACH", 0), mode = vp_param("MODE", 0);
	int d0 = each || nd < 2 ? 0 : vp_choose("direction", nd);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		if (mode == 2) { MX[y][x] = (x & 1) || (y & 1) ? 0 : 130; GX[y][x] = 9; GY[y][x] = 0; continue; }      // many isolated edges at once
		if (mode == 3) { MX[y][x] = y & 1 ? 0 : x == 0 ? 130 : 60; GX[y][x] = 0; GY[y][x] = 9; continue; }
		int d = each ? vp_choose("direction", nd) : d0; d += vp_param("D0", 0); MX[y][x] = LEVEL[vp_choose("magnitude", nl)]; GX[y][x] = DIR[d][0]; GY[y][x] = DIR[d][1];
	}
	if (mode == 1) { int k = vp_choose("higher neighbour", 9); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) MX[y][x] = x == w / 2 && y == h / 2 ? 130 : y * w + x == k ? 140 : 60; int x = w / 2, y = h / 2; GX[y][x] = vp_int("x", -vp_param("R", 200), vp_param("R", 200)); GY[y][x] = vp_int("y", -vp_param("R", 200), vp_param("R", 200)); }   // every direction of the middle pixel
	if (mode >= 2) { int x = vp_choose("column", 4) * (w - 1) / 3, y = vp_choose("row", 4) * (h - 1) / 3; MX[y][x] = LEVEL[vp_choose("magnitude", nl)]; }
	reference(w, h, low, high);
	bool view = mode < 2 && vp_param("VIEW", 1) && vp_choose("view", 2); float frac = vp_param("FRAC", 1) ? 0.5f : 0;
	mt_mat gx = field(w, h, GX, frac, view), gy = field(w, h, GY, frac, view), gm = field(w, h, MX, frac, view), src(h, w, mt_U8C1, mt_scalar(3));
	long long heap0 = vp_heap_bytes();
	{
		int hist = vp_param("HIST", 0) ? vp_choose("earlier use", 4) : 0; b8 cache = vp_param("HIST", 0) && vp_choose("cache", 2) ? sys_true : sys_false;
		img_canny c(hist == 3 ? 7 : low, high, cache);
		if (hist == 1 || hist == 2) { int W = hist == 1 ? h : w + 1, H = hist == 1 ? w : h + 2; mt_mat a(H, W, mt_F32C1, mt_scalar(9)), b(H, W, mt_F32C1, mt_scalar(0)), g(H, W, mt_F32C1, mt_scalar(0)), s(H, W, mt_U8C1); for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) g.ptr<f32>(y, x, 0)[0] = (x & 1) ? 0.0f : 150.0f; mt_mat e; c.edge_detection(e, s, a, b, g); }
		if (hist == 3) { mt_mat e; c.edge_detection(e, src, gx, gy, gm); c.set_low_threshold(low); }
		int given = vp_param("GIVEN", 0) ? vp_choose("given", 8) : 7; bool l2 = given == 7 || vp_choose("l2", 2); SAP = 5; c.set_apeture_size(5); c.set_l2_gradient(l2); SOBELS = SBAD = MAGS = 0; if (given != 7) { SX = gx; SY = gy; SM = gm; }
		mt_mat none, out; int ok = vp_param("OUT", 0) ? vp_choose("target", 3) : 0; mt_mat big(h + 1, w + 2, mt_U8C1, mt_scalar(77)); if (ok == 1) out = mt_mat(h, w, mt_U8C1, mt_scalar(1)); if (ok == 2) out = mt_mat(h + 1, w, mt_U8C1, mt_scalar(1));
		c.edge_detection(out, src, given & 1 ? gx : none, given & 2 ? gy : none, given & 4 ? gm : none);
		vp_assert(SOBELS == !(given & 1) + !(given & 2) && MAGS == !(given & 4) && !SBAD, "gradients that are not given are computed with the aperture asked for");
		if (!(given & 4)) vp_assert(MAGT == (l2 ? img_img::Gradient_Mag_Type_L2 : img_img::Gradient_Mag_Type_L1), "the magnitude has the norm asked for");
		bool sz = out.dim() == 2 && out.size()[0] == h && out.size()[1] == w && out.depth_channel() == mt_U8C1; vp_assert(sz, "the edge image has the size of the image"); if (!sz) vp_end();
		int ne = 0; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int v = out.ptr<u8>(y, x, 0)[0]; ne += EDGE[y][x]; vp_assert(v == (EDGE[y][x] ? 255 : 0), "edges are the local maxima above the low threshold connected to one above the high threshold"); if (mode != 1) vp_observe("edge", v); }
		if (mode != 1) { if (ne) vp_reach("edge"); else vp_reach("no edge"); } else { vp_reach("edge"); vp_reach("no edge"); }
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (mode != 1) vp_assert(gm.ptr<f32>(y, x, 0)[0] == MX[y][x] + frac && gx.ptr<f32>(y, x, 0)[0] == GX[y][x] + (GX[y][x] < 0 ? -frac : frac), "the gradients are left as they are");
		SX = mt_mat(); SY = mt_mat(); SM = mt_mat();
	}
	vp_assert(vp_heap_bytes() == heap0, "all memory is released");
}
