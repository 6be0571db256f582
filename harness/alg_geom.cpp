// Rectangles, points, sizes, ranges and scalars: every operation is compared with its meaning as a set of pixels, for a symbolic pixel.
#include "vp.h"
#include "stdafx.h"
#include "mt_rect_t.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
using namespace basicsys;
using namespace basicmath;
typedef mt_point_t<int> P; typedef mt_size_t<int> Z; typedef mt_rect_t<int> R;
static int LIM, SIZ;
static int coord(const char* nm) { return vp_int(nm, -LIM, LIM); }
static R rect(const char* nm, bool may_be_empty = false) { char b[8]; strcpy(b, nm); int v[4]; for (int i = 0; i < 4; ++i) { b[1] = "xywh"[i]; b[2] = 0; v[i] = i < 2 ? coord(b) : vp_int(b, may_be_empty ? 0 : 1, SIZ); } return R(v[0], v[1], v[2], v[3]); }
static bool in(const R& r, const P& p) { return (p.m_x >= r.m_left) & (p.m_x < r.m_left + r.m_width) & (p.m_y >= r.m_top) & (p.m_y < r.m_top + r.m_height); }
static bool is(const R& r, int x, int y, int w, int h) { return (r.m_left == x) & (r.m_top == y) & (r.m_width == w) & (r.m_height == h); }
static int mn(int a, int b) { return a < b ? a : b; } static int mx(int a, int b) { return a > b ? a : b; }
static int r_(const R& r) { return r.m_left + r.m_width - 1; } static int b_(const R& r) { return r.m_top + r.m_height - 1; }
static void basics() {
	R a = rect("a"); P p(coord("px"), coord("py")); Z s(vp_int("sw", 1, SIZ), vp_int("sh", 1, SIZ));
	vp_assert(is(R(), 0, 0, 0, 0) && R().empty(), "a default rect is empty"); vp_assert((a.right() == r_(a)) & (a.bottom() == b_(a)), "right and bottom are the last column and row");
	vp_assert((a.tl() == P(a.m_left, a.m_top)) & (a.tr() == P(r_(a), a.m_top)) & (a.bl() == P(a.m_left, b_(a))) & (a.br() == P(r_(a), b_(a))), "the corners are pixels of the rect"); vp_assert((a.size().m_width == a.m_width) & (a.size().m_height == a.m_height), "the size is width and height"); vp_assert((a.max_size() == mx(a.m_width, a.m_height)) & (a.min_size() == mn(a.m_width, a.m_height)), "max_size and min_size pick a side");
	vp_assert(R(p, s) == R(p.m_x, p.m_y, s.m_width, s.m_height), "a rect is made of a corner and a size"); vp_assert(R(a.tl(), a.br()) == a, "a rect is made of two corners"); R c = a; vp_assert((c == a) & !(c != a) & (a.toRect() == a), "a copy is equal");
	R q; q.set_rect(p, s); vp_assert(is(q, p.m_x, p.m_y, s.m_width, s.m_height), "set_rect of corner and size"); q.set_rect(a.tl(), a.br()); vp_assert(q == a, "set_rect of two corners"); q.set_rect(p.m_x, p.m_y, s.m_width, s.m_height); vp_assert(q == R(p, s), "set_rect of four numbers"); q = a; q.set_tl(p); vp_assert(is(q, p.m_x, p.m_y, a.m_width, a.m_height), "set_tl keeps the size"); q = a; q.set_size(s); vp_assert(is(q, a.m_left, a.m_top, s.m_width, s.m_height), "set_size keeps the corner");
	vp_assert(!a.empty(), "a rect with pixels is not empty"); q = a; q.set_empty(); vp_assert(q.empty(), "set_empty empties"); R e = rect("e"); bool same = (e.m_left == a.m_left) & (e.m_top == a.m_top) & (e.m_width == a.m_width) & (e.m_height == a.m_height); vp_assert(((e == a) == same) & ((e != a) == !same), "rects are equal when all four numbers are"); P o(coord("ox"), coord("oy")); vp_assert((p == o) == ((p.m_x == o.m_x) & (p.m_y == o.m_y)), "points are equal when both coordinates are"); P sum = p + o, dif = p - o; vp_assert((sum.m_x == p.m_x + o.m_x) & (sum.m_y == p.m_y + o.m_y) & (dif.m_x == p.m_x - o.m_x) & (dif.m_y == p.m_y - o.m_y), "points add and subtract by coordinate");
	P ce = a.center(); vp_assert(in(a, ce), "the centre lies inside"); int l = ce.m_x - a.m_left, r = r_(a) - ce.m_x, t = ce.m_y - a.m_top, b = b_(a) - ce.m_y; vp_assert((l - r <= 1) & (r - l <= 1) & (t - b <= 1) & (b - t <= 1), "the centre is half way"); mt_range g(p.m_x, p.m_y); vp_assert(g.size() == p.m_y - p.m_x, "a range has the size of its difference");
}
static void moves() {
	R a = rect("a"); P p(coord("px"), coord("py")); Z s(vp_int("sw", 0, SIZ), vp_int("sh", 0, SIZ)); vp_assert(is(a + p, a.m_left + p.m_x, a.m_top + p.m_y, a.m_width, a.m_height), "adding a point moves"); vp_assert(is(a - p, a.m_left - p.m_x, a.m_top - p.m_y, a.m_width, a.m_height), "subtracting a point moves back"); vp_assert(is(a + s, a.m_left, a.m_top, a.m_width + s.m_width, a.m_height + s.m_height), "adding a size grows"); vp_assert(is(a - s, a.m_left, a.m_top, a.m_width - s.m_width, a.m_height - s.m_height), "subtracting a size shrinks");
	R b = a; b += p; vp_assert(b == a + p, "adding in place agrees"); b = a; b -= p; vp_assert(b == a - p, "subtracting in place agrees"); b = a; b += s; vp_assert(b == a + s, "adding in place agrees"); b = a; b -= s; vp_assert(b == a - s, "subtracting in place agrees"); b = a; int l = coord("l"), t = coord("t"), r = coord("r"), d = coord("d"); b.adjust(l, t, r, d); vp_assert((b.m_left == a.m_left - l) & (b.m_top == a.m_top - t) & (b.right() == r_(a) + r) & (b.bottom() == b_(a) + d), "adjust moves each side outwards");
	b = a; b.expand(); int m = mx(a.m_width, a.m_height); vp_assert((b.m_width == m) & (b.m_height == m) & (b.m_left <= a.m_left) & (b.m_top <= a.m_top) & (r_(b) >= r_(a)) & (b_(b) >= b_(a)), "expand gives the smallest square around the rect"); int x = (a.m_left - b.m_left) - (r_(b) - r_(a)), y = (a.m_top - b.m_top) - (b_(b) - b_(a)); vp_assert((x >= -1) & (x <= 1) & (y >= -1) & (y <= 1), "expand keeps the rect in the middle");
	b = a; b.shrink(); m = mn(a.m_width, a.m_height); vp_assert((b.m_width == m) & (b.m_height == m) & (b.m_left >= a.m_left) & (b.m_top >= a.m_top) & (r_(b) <= r_(a)) & (b_(b) <= b_(a)), "shrink gives the largest square inside the rect"); x = (a.m_left - b.m_left) - (r_(b) - r_(a)); y = (a.m_top - b.m_top) - (b_(b) - b_(a)); vp_assert((x >= -1) & (x <= 1) & (y >= -1) & (y <= 1), "shrink keeps to the middle");
}
static void sets() {
	R a = rect("a"), b = rect("b"), o = a; P p(coord("px"), coord("py")); const R& ca = a; vp_assert((ca.contain(p) == in(a, p)) & (a.contain(p) == in(a, p)), "contain is pixel membership"); vp_assert(ca.boundary(p) == (in(a, p) & ((p.m_x == a.m_left) | (p.m_x == r_(a)) | (p.m_y == a.m_top) | (p.m_y == b_(a)))), "boundary holds for the outer pixels");
	R i(9, 9, 9, 9); bool hit = a.is_intersect(i, b); bool real = (mx(a.m_left, b.m_left) <= mn(r_(a), r_(b))) & (mx(a.m_top, b.m_top) <= mn(b_(a), b_(b))); vp_assert(hit == real && a.is_intersect(b) == real, "rects intersect when they share a pixel"); if (hit) vp_assert(in(i, p) == (in(a, p) & in(b, p)), "the intersection holds the shared pixels");
	bool inside = (b.m_left >= a.m_left) & (b.m_top >= a.m_top) & (r_(b) <= r_(a)) & (b_(b) <= b_(a)); vp_assert(a.contain(b) == inside, "a rect contains another when it contains all its pixels");
	P v = p; a.validate_point(v); vp_assert(in(a, v) & (v.m_x == mx(a.m_left, mn(r_(a), p.m_x))) & (v.m_y == mx(a.m_top, mn(b_(a), p.m_y))), "validate_point moves to the nearest pixel of the rect"); if (real) { R w = b; a.validate_rect(w); vp_assert(w == i, "validate_rect cuts a rect to the part inside"); }
	int hd = mx(0, mx(a.m_left - r_(b), b.m_left - r_(a))), vd = mx(0, mx(a.m_top - b_(b), b.m_top - b_(a))); vp_assert((a.horizontal_dist(b) == hd) & (b.horizontal_dist(a) == hd), "the horizontal distance is between the nearest columns"); vp_assert((a.vertical_dist(b) == vd) & (b.vertical_dist(a) == vd), "the vertical distance is between the nearest rows"); vp_assert(a == o, "questions do not change a rect");
}
static void append() {
	R a = rect("a"); if (vp_choose("start empty", 2)) a.set_empty(); R o = a; int w0 = o.m_width; if (vp_choose("rect", 2)) { R b = rect("b"); a.adjust_by_append_rect(b); if (!w0) vp_assert(a == b, "appending to an empty rect gives the appended rect"); else vp_assert((a.m_left == mn(o.m_left, b.m_left)) & (a.m_top == mn(o.m_top, b.m_top)) & (a.right() == mx(r_(o), r_(b))) & (a.bottom() == mx(b_(o), b_(b))), "appending gives the smallest rect around both"); }
	else { P p(coord("px"), coord("py")); a.adjust_by_append_point(p); if (!w0) vp_assert(is(a, p.m_x, p.m_y, 1, 1), "appending to an empty rect gives the pixel"); else vp_assert((a.m_left == mn(o.m_left, p.m_x)) & (a.m_top == mn(o.m_top, p.m_y)) & (a.right() == mx(r_(o), p.m_x)) & (a.bottom() == mx(b_(o), p.m_y)), "appending gives the smallest rect around both"); }
}
static void ratios() {
	R a = rect("a"), b = rect("b"); int iw = mx(0, mn(r_(a), r_(b)) - mx(a.m_left, b.m_left) + 1), ih = mx(0, mn(b_(a), b_(b)) - mx(a.m_top, b.m_top) + 1); iw = (int)vp_concretize(iw); ih = (int)vp_concretize(ih); if (iw == 0 || ih == 0) iw = ih = 0; a.m_width = (int)vp_concretize(a.m_width); a.m_height = (int)vp_concretize(a.m_height); b.m_width = (int)vp_concretize(b.m_width); b.m_height = (int)vp_concretize(b.m_height);
	int aa = a.m_width * a.m_height, ab = b.m_width * b.m_height, ia = iw * ih; vp_assert(a.getArea() == aa, "the area counts the pixels"); vp_assert(a.get_iou(b) == ia / (double)(aa + ab - ia), "iou is intersection over union"); vp_assert(a.get_intersect_aera_ratio(b) == ia / (double)ab, "the area ratio is the covered share of the other rect"); vp_assert(a.get_intersect_width_ratio(b) == iw / (double)b.m_width, "the width ratio is the covered share of the other width"); vp_assert(a.get_intersect_height_ratio(b) == ih / (double)b.m_height, "the height ratio is the covered share of the other height");
	static const double T[] = { 0.25, 0.5, 1 }; for (int i = 0; i < 3; ++i) { vp_assert(a.is_intersect_area(b, T[i]) == (ia > 0 && ia / (double)ab >= T[i]), "the area test uses the ratio"); vp_assert(a.is_intersect_width(b, T[i]) == (ia > 0 && iw / (double)b.m_width >= T[i]), "the width test uses the ratio"); vp_assert(a.is_intersect_height(b, T[i]) == (ia > 0 && ih / (double)b.m_height >= T[i]), "the height test uses the ratio"); } vp_assert(a.aspect() == a.m_width / (double)a.m_height, "the aspect is width over height");
}
static void scaling() {
	R a = rect("a"); static const double F[] = { 1, 2, 4 }; int i = vp_choose("x factor", 3), j = vp_choose("y factor", 3); mt_point2d f(F[i], F[j]); int x = (int)F[i], y = (int)F[j]; R m = a * f; vp_assert(is(m, a.m_left * x, a.m_top * y, a.m_width * x, a.m_height * y), "scaling multiplies"); R n = a; n *= f; vp_assert(n == m, "scaling in place agrees"); R d = a / f; vp_assert(is(d, a.m_left / x, a.m_top / y, a.m_width / x, a.m_height / y), "dividing divides towards zero"); n = a; n /= f; vp_assert(n == d, "dividing in place agrees");
}
static void distance() { int x = (int)vp_concretize(vp_int("x", 0, 4)), y = (int)vp_concretize(vp_int("y", 0, 3)); static const int S[] = { 1, -1, 20000, -30000 }; int s = S[vp_choose("scale", 4)]; P p(coord("px"), coord("py")); p.m_x = (int)vp_concretize(p.m_x); p.m_y = (int)vp_concretize(p.m_y); P q(p.m_x + 3 * x * s, p.m_y + 4 * x * s); vp_assert(p.distance_to(q) == 5.0 * x * (s < 0 ? -s : s), "the distance is Euclidean"); P z(p.m_x, p.m_y + y * s); vp_assert(p.distance_to(z) == (double)y * (s < 0 ? -s : s), "the distance is Euclidean"); vp_assert(mt_size_t<double>(1.5, 2.5).m_width == 1.5 && mt_size_t<double>(1.5, 2.5).m_height == 2.5, "a size keeps its numbers"); }
extern "C" void vp_main() {
	LIM = vp_param("LIM", 1000); SIZ = vp_param("SIZ", 1000); switch (vp_param("MODE", 0)) { case 0: basics(); break; case 1: moves(); break; case 2: sets(); break; case 3: append(); break; case 4: ratios(); break; case 5: scaling(); break; default: distance(); break; } vp_reach("geometry"); vp_end();
}
