// Automatic derivatives: derivative(target, src) is the derivative of the sum of src's elements with respect to every element of target.
// Reference: forward-mode differentiation of the recorded program (a tangent per element of the target), element by element.
#include "mat_common.h"
#include "mt_auto_derivative.h"
#include <math.h>
#ifdef MKL_STAND
#include "mkl_stand.h"
#endif
enum { E = 40, TT = 12, NT = 8 };
enum { ADD, SUB, DOT, ADDC, SUBC, DOTC, CSUB, ADDL, DOTL, CLONE, RANGE, INDEX, CHANNEL, FLIPS, FLIP1, EXPAND, STRIDE, RESHAPE, MERGED, MERGEC, POOL, DIV, DIVC, BIAS, REPEAT, POW, EXPO, LOGA, ABSO, ACT, LOSS, MUL, CONV, OPS };
template<class T> struct Node { int op, nc, c[3], p[10]; double k[3]; bool ignored; mt_mat m, mask, extra; };   // a recorded step: operation, operands, parameters, its result
template<class T> struct Grad { T g[E][TT]; };
static int count(const mt_mat& m) { return m.element_number() * m.channel(); }
// element e of m: index and channel
static void where(const mt_mat& m, int e, int* a, int& c) { c = e % m.channel(); e /= m.channel(); for (int i = m.dim() - 1; i >= 0; --i) { a[i] = e % m.size()[i]; e /= m.size()[i]; } }
static int place(const mt_mat& m, const int* a, int c) { int e = 0; for (int i = 0; i < m.dim(); ++i) e = e * m.size()[i] + a[i]; return e * m.channel() + c; }
template<class T> static T val(const mt_mat& m, int e) { int a[MAXD], c; where(m, e, a, c); const u8* p = m.data(); for (int i = 0; i < m.dim(); ++i) p += a[i] * m.step()[i]; return ((const T*)p)[c]; }
template<class T> static bool ok_value(T a, T b) { return a == b; }
template<> bool ok_value<double>(double a, double b) { if (!(b - b == 0)) return true; double d = fabs(a - b), s = fabs(a) + fabs(b) + 1; return d <= 1e-9 * s; }   // where the reference is not finite nothing is claimed
template<class T> struct Prog { Node<T> n[NT]; int count; };
// tangents of every step for the elements of step t; what was computed while recording was off does not depend on anything
template<class T> static void tangents(const Prog<T>& P, int t, Grad<T>* G) {
	int q = count(P.n[t].m);
	for (int k = 0; k < P.count; ++k) {
		const Node<T>& N = P.n[k]; int n = count(N.m); Grad<T>& o = G[k];
		for (int e = 0; e < n; ++e) for (int j = 0; j < q; ++j) o.g[e][j] = k == t && e == j ? 1 : 0;
		if (k == t || N.op < 0 || N.ignored) continue;
		int a[MAXD], b[MAXD], c; const mt_mat& A = P.n[N.c[0]].m; const Grad<T>& x = G[N.c[0]]; const mt_mat& B = N.nc > 1 ? P.n[N.c[1]].m : A; const Grad<T>& y = N.nc > 1 ? G[N.c[1]] : x;
		for (int e = 0; e < n; ++e) {
			where(N.m, e, a, c); T va = 0, vb = 0; int s = -1;
			switch (N.op) {
			case ADD: for (int j = 0; j < q; ++j) o.g[e][j] = x.g[e][j] + y.g[e][j]; break;
			case SUB: for (int j = 0; j < q; ++j) o.g[e][j] = x.g[e][j] - y.g[e][j]; break;
			case DOT: va = val<T>(A, e); vb = val<T>(B, e); for (int j = 0; j < q; ++j) o.g[e][j] = x.g[e][j] * vb + va * y.g[e][j]; break;
			case ADDC: case SUBC: case CLONE: case RESHAPE: s = e; break;
			case DOTC: for (int j = 0; j < q; ++j) o.g[e][j] = x.g[e][j] * (T)N.k[c]; break;
			case DIVC: for (int j = 0; j < q; ++j) o.g[e][j] = x.g[e][j] / (T)N.k[c]; break;
			case CSUB: for (int j = 0; j < q; ++j) o.g[e][j] = 0 - x.g[e][j]; break;
			case ADDL: for (int i = 0; i < N.nc; ++i) for (int j = 0; j < q; ++j) o.g[e][j] += G[N.c[i]].g[e][j]; break;
			case DOTL: for (int i = 0; i < N.nc; ++i) { T w = 1; for (int l = 0; l < N.nc; ++l) if (l != i) w *= val<T>(P.n[N.c[l]].m, e); for (int j = 0; j < q; ++j) o.g[e][j] += G[N.c[i]].g[e][j] * w; } break;
			case RANGE: for (int i = 0; i < A.dim(); ++i) b[i] = a[i] + N.p[i]; s = place(A, b, c); break;
			case INDEX: for (int i = 0; i < A.dim(); ++i) b[i] = a[i] + (i == N.p[0] ? N.p[1] : 0); s = place(A, b, c); break;
			case CHANNEL: s = place(A, a, c + N.p[0]); break;
			case FLIPS: for (int i = 0; i < A.dim(); ++i) b[i] = N.p[0] >> i & 1 ? A.size()[i] - 1 - a[i] : a[i]; s = place(A, b, c); break;
			case FLIP1: for (int i = 0; i < A.dim(); ++i) b[i] = i == N.p[0] ? A.size()[i] - 1 - a[i] : a[i]; s = place(A, b, c); break;
			case EXPAND: { bool in = true; for (int i = 0; i < A.dim(); ++i) { b[i] = a[i] - N.p[i]; in &= b[i] >= 0 && b[i] < A.size()[i]; } if (in) s = place(A, b, c); break; }
			case STRIDE: for (int i = 0; i < A.dim(); ++i) b[i] = a[i] * N.p[i]; s = place(A, b, c); break;
			case MERGED: { int d = N.p[0], i = 0, r = a[d]; while (r >= P.n[N.c[i]].m.size()[d]) r -= P.n[N.c[i++]].m.size()[d]; for (int l = 0; l < A.dim(); ++l) b[l] = l == d ? r : a[l]; int f = place(P.n[N.c[i]].m, b, c); for (int j = 0; j < q; ++j) o.g[e][j] = G[N.c[i]].g[f][j]; break; }
			case MERGEC: { int i = 0, r = c; while (r >= P.n[N.c[i]].m.channel()) r -= P.n[N.c[i++]].m.channel(); int f = place(P.n[N.c[i]].m, a, r); for (int j = 0; j < q; ++j) o.g[e][j] = G[N.c[i]].g[f][j]; break; }
			case POOL: { int d = A.dim(), w[MAXD], m = 1, cnt = 0; int type = N.p[0]; for (int i = 0; i < d; ++i) m *= N.p[1 + i];
				for (int u = 0; u < m; ++u) { int r = u; bool in = true; for (int i = d - 1; i >= 0; --i) { w[i] = r % N.p[1 + i]; r /= N.p[1 + i]; b[i] = a[i] * N.p[4 + i] + w[i]; in &= b[i] < A.size()[i]; } cnt += in; }
				for (int u = 0; u < m; ++u) { int r = u; bool in = true; for (int i = d - 1; i >= 0; --i) { w[i] = r % N.p[1 + i]; r /= N.p[1 + i]; b[i] = a[i] * N.p[4 + i] + w[i]; in &= b[i] < A.size()[i]; } if (!in) continue; int f = place(A, b, c);
					if (type == mt_Pooling_Type_Mean) for (int j = 0; j < q; ++j) o.g[e][j] += x.g[f][j] / (T)cnt;
					else if (type == mt_Pooling_Type_Sum) for (int j = 0; j < q; ++j) o.g[e][j] += x.g[f][j];
					else if (type == mt_Pooling_Type_First_Value) { if (u == 0) for (int j = 0; j < q; ++j) o.g[e][j] = x.g[f][j]; }
					else if (val<i32>(N.mask, e) == f / A.channel()) for (int j = 0; j < q; ++j) o.g[e][j] = x.g[f][j]; }
				break; }
			case DIV: va = val<T>(A, e); vb = val<T>(B, e); for (int j = 0; j < q; ++j) o.g[e][j] = x.g[e][j] / vb - va * y.g[e][j] / (vb * vb); break;
			case BIAS: { for (int i = 0; i < A.dim(); ++i) b[i] = a[i] % B.size()[i]; int f = place(B, b, c % B.channel()); va = val<T>(A, e); vb = val<T>(B, f); for (int j = 0; j < q; ++j) { T u = x.g[e][j], v = y.g[f][j]; o.g[e][j] = N.p[0] == 0 ? u + v : N.p[0] == 1 ? u - v : N.p[0] == 2 ? u * vb + va * v : u / vb - va * v / (vb * vb); } break; }
			case MUL: for (int l = 0; l < A.size()[1]; ++l) { int u[2] = { a[0], l }, v[2] = { l, a[1] }, f = place(A, u, c), h = place(B, v, c); va = val<T>(A, f); vb = val<T>(B, h); for (int j = 0; j < q; ++j) o.g[e][j] += x.g[f][j] * vb + va * y.g[h][j]; } break;
			case CONV: { int d = A.dim(), m = 1, kc = N.m.channel(), w[MAXD]; for (int i = 0; i < d; ++i) m *= B.size()[i]; for (int r = 0; r < m; ++r) { int z = r; for (int i = d - 1; i >= 0; --i) { w[i] = z % B.size()[i]; z /= B.size()[i]; b[i] = a[i] * N.p[i] + B.size()[i] - 1 - w[i]; } for (int l = 0; l < A.channel(); ++l) { int f = place(A, b, l), h = place(B, w, l * kc + c); va = val<T>(A, f); vb = val<T>(B, h); for (int j = 0; j < q; ++j) o.g[e][j] += x.g[f][j] * vb + va * y.g[h][j]; } } break; }
			case REPEAT: for (int i = 0; i < A.dim(); ++i) b[i] = a[i] % A.size()[i]; s = place(A, b, c % A.channel()); break;
			case POW: va = (T)(N.k[0] * pow((double)val<T>(A, e), N.k[0] - 1)); for (int j = 0; j < q; ++j) o.g[e][j] = va * x.g[e][j]; break;
			case EXPO: va = val<T>(N.m, e); for (int j = 0; j < q; ++j) o.g[e][j] = va * x.g[e][j]; break;
			case LOGA: va = (T)(1 / (val<T>(A, e) * log(N.k[0]))); for (int j = 0; j < q; ++j) o.g[e][j] = va * x.g[e][j]; break;
			case ABSO: va = val<T>(A, e) < 0 ? -1 : 1; for (int j = 0; j < q; ++j) o.g[e][j] = va * x.g[e][j]; break;
			case ACT: { T r = val<T>(N.m, e), u = val<T>(A, e);
				if (N.p[0] == mt_Activate_Type_Softmax) { for (int l = 0; l < A.size()[1]; ++l) { int f = a[0] * A.size()[1] + l; T z = val<T>(N.m, f); T d = f == e ? r * (1 - r) : -r * z; for (int j = 0; j < q; ++j) o.g[e][j] += d * x.g[f][j]; } break; }
				T d = 1; if (N.p[0] == mt_Activate_Type_Sigmoid) d = r * (1 - r); else if (N.p[0] == mt_Activate_Type_Tanh) { T al = (T)(N.p[1] ? N.k[0] : mt_Tanh_Default_Alpha), be = (T)(N.p[1] ? N.k[1] : mt_Tanh_Default_Beta), h = (T)tanh((double)(be * u)); d = al * be * (1 - h * h); } else if (N.p[0] == mt_Activate_Type_Relu) d = u > 0 ? (T)1 : (T)(N.p[1] ? N.k[0] : 0);
				for (int j = 0; j < q; ++j) o.g[e][j] = d * x.g[e][j]; break; }
			case LOSS: { int m = count(A); for (int f = 0; f < m; ++f) if (f % A.channel() == c) { T u = val<T>(A, f), w = val<T>(N.extra, f), first = N.p[0] == mt_Loss_Type_Quadratic ? w : val<T>(N.extra, f - f % A.size()[1]); if (!(first - first == 0)) continue; T d; if (N.p[0] == mt_Loss_Type_Quadratic) d = u - w; else if (A.size()[1] == 1) d = -(w / u - (1 - w) / (1 - u)); else d = w == 1 ? -1 / u : 0; for (int j = 0; j < q; ++j) o.g[e][j] += d * x.g[f][j]; } break; }
			}
			if (s >= 0) for (int j = 0; j < q; ++j) o.g[e][j] = x.g[s][j];
		}
	}
}
template<class T> static bool depends(const Prog<T>& P, int src, int t) { if (src == t) return true; const Node<T>& N = P.n[src]; if (N.op < 0 || N.ignored) return false; for (int i = 0; i < N.nc; ++i) if (depends(P, N.c[i], t)) return true; return false; }
static const int SH[][5] = { { 2, 2, 2 }, { 2, 3, 2 }, { 3, 2, 1, 2 }, { 2, 1, 3 }, { 1, 3 }, { 2, 2, 1 }, { 4, 1, 2, 1, 2 } };
static bool INTS; static int VSET, BITS;
template<class T> static mt_mat leaf(const char* nm, int nd, const int* s, int ch, int seed) {
	mt_mat m(nd, s, mt_Depth_Channel(INTS ? mt_I32 : mt_F64, ch)); T* p = (T*)m.data(); int n = count(m);
	if (INTS) { signed char b[E]; vp_bytes(nm, b, n); for (int i = 0; i < n; ++i) p[i] = BITS ? (T)((b[i] & ((1 << BITS) - 1)) - 1) : (T)b[i]; }
	else { static const double V[3][8] = { { 1.5, -2, 0.5, 3, -0.75, 2.25, -1, 4 }, { 0.25, 2, 1.25, 0.5, 3, 1.75, 0.75, 2.5 }, { -1, 2, -3, 0.5, -0.25, -2, 1, 0.125 } }; for (int i = 0; i < n; ++i) p[i] = (T)V[VSET][(i * (seed * 2 + 1) + seed) % 8]; }
	return m;
}
static int pick_op(const char* nm, const char* par) { int lo = vp_param(par, 0), hi = vp_param((string(par) + "H").c_str(), 0), set[OPS], c = 0; for (int i = 0; i < OPS; ++i) if (i < 24 ? lo >> i & 1 : hi >> (i - 24) & 1) set[c++] = i; return set[vp_choose(nm, c)]; }
template<class T> static int pick_child(const char* nm, const Prog<T>& P, const mt_mat* like, bool channels) { int set[NT], c = 0; for (int i = 0; i < P.count; ++i) { const mt_mat& m = P.n[i].m; bool ok = true; if (like) { ok = m.dim() == like->dim() && (!channels || m.channel() == like->channel()); for (int d = 0; ok && d < m.dim(); ++d) ok = m.size()[d] == like->size()[d]; } if (ok) set[c++] = i; } return set[vp_choose(nm, c)]; }
static bool EXTRA;
// one more step; false when the operation does not apply
template<class T> static bool step(Prog<T>& P, int op, int a, mt_auto_derivative& ad, bool ignored, bool second) {
	Node<T>& N = P.n[P.count]; const mt_mat& A = P.n[a].m; N.op = op; N.nc = 1; N.c[0] = a; N.ignored = ignored; int nd = A.dim(), ch = A.channel(); const i32* s = A.size(); vector<f64> cv; mt_mat r;
	for (int i = 0; i < ch; ++i) { N.k[i % 3] = i == 0 ? 2 : i == 1 ? -3 : 4; cv.push_back(N.k[i % 3]); }
	if (op == ADD || op == SUB || op == DOT || op == DIV) { N.nc = 2; N.c[1] = pick_child("operand", P, &A, true); }
	if (op == ADDL || op == DOTL || op == MERGED || op == MERGEC) { N.nc = 2 + vp_choose("three", 2); for (int i = 1; i < N.nc; ++i) N.c[i] = pick_child("operand", P, &A, op != MERGEC); }
	const mt_mat& B = P.n[N.nc > 1 ? N.c[1] : a].m; vector<mt_mat> L; for (int i = 0; i < N.nc; ++i) L.push_back(P.n[N.c[i]].m);
	switch (op) {
	case ADD: r = A + B; break; case SUB: r = A - B; break; case DOT: r = A * B; break; case DIV: r = A / B; break;
	case ADDC: r = A + cv; break; case SUBC: r = A - cv; break; case DOTC: r = A * cv; break; case DIVC: r = A / cv; break;
	case CSUB: r = 5 - A; break;
	case ADDL: r = mt_mat_helper::add(L, sys_false); break; case DOTL: r = mt_mat_helper::dot(L, sys_false); break;
	case CLONE: r = A.clone(); break;
	case RANGE: { mt_range g[MAXD]; bool cut = false; for (int i = 0; i < nd; ++i) { int lo = 0, hi = s[i]; if (s[i] > 1) { if (i == 0) choose_range(s[i], lo, hi, "range"); else lo = vp_choose("from", 2); } N.p[i] = lo; g[i] = mt_range(lo, hi); cut |= hi - lo < s[i]; } if (!cut) return false; r = A.sub(nd, g); break; }
	case INDEX: { N.p[0] = vp_choose("dim", nd); if (s[N.p[0]] == 1) return false; N.p[1] = vp_choose("index", s[N.p[0]]); r = A.index(N.p[1], N.p[0]); break; }
	case CHANNEL: { if (ch == 1) return false; int lo, hi; choose_range(ch, lo, hi, "channels"); if (hi - lo == ch) return false; N.p[0] = lo; r = A.sub_channel(lo, hi); break; }
	case FLIPS: { N.p[0] = 1 + vp_choose("flags", (1 << nd) - 1); bool any = false; b8 f[MAXD]; for (int i = 0; i < nd; ++i) { f[i] = N.p[0] >> i & 1; any |= f[i] && s[i] > 1; if (f[i] && s[i] == 1) return false; } if (!any) return false; r = A.flip(nd, f); break; }
	case FLIP1: N.p[0] = vp_choose("dim", nd); if (s[N.p[0]] == 1) return false; r = A.flip(N.p[0]); break;
	case EXPAND: { i32 t[MAXD], b[MAXD]; int k = vp_choose("border", 3); for (int i = 0; i < nd; ++i) { t[i] = k == 1 ? 0 : i == 0 ? 1 : 0; b[i] = k == 2 ? 0 : i == nd - 1 ? 1 : 0; N.p[i] = t[i]; } r = A.expand(nd, k == 1 ? NULL : t, k == 2 ? NULL : b, cv); break; }
	case STRIDE: { bool any = false; for (int i = 0; i < nd; ++i) { N.p[i] = s[i] > 1 ? 1 + vp_choose("stride", 2) : 1; any |= N.p[i] > 1; } if (!any) return false; i32 st[MAXD]; for (int i = 0; i < nd; ++i) st[i] = N.p[i]; r = A.sub_stride(nd, st); break; }
	case RESHAPE: { if (!A.is_continuous()) return false; int n = count(A), k = vp_choose("form", 3); if (k == 0) { i32 z[2] = { 1, n }; r = A.reshape(2, z, 1); } else if (k == 1) { i32 z[1] = { n / ch }; r = A.reshape(1, z, ch); } else { i32 z[3] = { n, 1, 1 }; r = A.reshape(3, z, 1); } break; }
	case MERGED: N.p[0] = vp_choose("dim", nd); r = mt_mat_helper::merge_align_dim(L, N.p[0], sys_false); break;
	case MERGEC: r = mt_mat_helper::merge_align_channel(L, sys_false); break;
	case POOL: { if (nd > 3) return false; static const mt_Pooling_Type PT[] = { mt_Pooling_Type_Max, mt_Pooling_Type_First_Value, mt_Pooling_Type_Min, mt_Pooling_Type_Mean, mt_Pooling_Type_Sum }; N.p[0] = PT[vp_choose("pooling", INTS ? 3 : 4)]; int k = vp_choose("window", second ? 1 : 3); i32 ks[MAXD], st[MAXD]; for (int i = 0; i < nd; ++i) { ks[i] = N.p[1 + i] = k == 0 ? (s[i] > 1 ? 2 : 1) : k == 1 ? 1 + i % 2 : 3; st[i] = N.p[4 + i] = k == 2 ? 2 : 1; } r = A.pooling(N.mask, (mt_Pooling_Type)N.p[0], nd, ks, st); break; }
	case BIAS: { int k = vp_choose("bias shape", 4), bc = ch; i32 z[MAXD]; for (int i = 0; i < nd; ++i) z[i] = k == 0 ? 1 : k == 1 ? (i == nd - 1 ? s[i] : 1) : k == 2 ? s[i] : (i == 0 ? s[i] : 1); if (P.count + 1 >= NT) return false; Node<T>& K = P.n[P.count]; K.op = -1; K.nc = 0; K.ignored = false; K.m = leaf<T>("bias", nd, z, bc, 3); ad.attach(K.m); int kb = P.count++; Node<T>& M = P.n[P.count]; M.op = BIAS; M.nc = 2; M.c[0] = a; M.c[1] = kb; M.ignored = ignored; M.p[0] = vp_choose("bias kind", 4); const mt_mat& X = P.n[a].m; r = M.p[0] == 0 ? X.add_bias(K.m) : M.p[0] == 1 ? X.substract_bias(K.m) : M.p[0] == 2 ? X.mul_bias(K.m) : X.div_bias(K.m); M.m = r; if (count(r) > E) return false; ++P.count; return true; }
#ifdef MKL_STAND
	case MUL: case CONV: { int z[MAXD], kc = ch, kb = -1, set[NT], cnt = 0; if (op == MUL && nd != 2) return false; for (int i = 0; i < P.count; ++i) { const mt_mat& m = P.n[i].m; bool fit = m.dim() == nd && (op == MUL ? m.channel() == ch && m.size()[0] == s[1] : m.channel() % ch == 0); if (op == CONV) for (int l = 0; fit && l < nd; ++l) fit = m.size()[l] <= s[l]; if (fit) set[cnt++] = i; }
		int pick = vp_choose("other", cnt + 2); if (pick < cnt) kb = set[pick]; else if (op == MUL) { z[0] = s[1]; z[1] = pick - cnt + 1; } else { for (int i = 0; i < nd; ++i) z[i] = s[i] > 1 && (i == 0 || pick > cnt) ? 2 : 1; kc = ch * (1 + vp_choose("kernels", 2)); }
		if (kb < 0) { if (P.count + 1 >= NT) return false; Node<T>& K = P.n[P.count]; K.op = -1; K.nc = 0; K.ignored = false; K.m = leaf<T>("kernel", nd, z, kc, 3); ad.attach(K.m); kb = P.count++; }
		Node<T>& M = P.n[P.count]; M.op = op; M.nc = 2; M.c[0] = a; M.c[1] = kb; M.ignored = ignored; const mt_mat &X = P.n[a].m, &K = P.n[kb].m; i32 st[MAXD]; bool given = op == CONV && vp_choose("given strides", 2); for (int i = 0; i < nd; ++i) st[i] = M.p[i] = given && s[i] > 1 ? 1 + vp_choose("stride", 2) : 1;
		r = op == MUL ? X.mul(K) : X.conv(K, mt_Conv_Boundary_Type_Valid, mt_Conv_Kernel_Align_Type_Row, given ? st : NULL); M.m = r; if (count(r) > E) return false; ++P.count; return true; }
#endif
	case REPEAT: { i32 t[MAXD]; int k = vp_choose("times", 3); bool any = false; for (int i = 0; i < nd; ++i) { t[i] = k == 0 ? (i == 0 ? 2 : 1) : k == 1 ? (i == nd - 1 ? 2 : 1) : 1; any |= t[i] > 1; } r = A.repeat(nd, t, k == 2 ? 2 : 1); break; }
	case POW: N.k[0] = vp_choose("power", 2) + 2; r = A.pow(N.k[0]); break;
	case EXPO: r = A.exp(); break;
	case LOGA: { int k = vp_choose("base", 3); N.k[0] = k == 0 ? mt_E : k == 1 ? 2 : 10; for (int i = 0; i < count(A); ++i) if (val<T>(A, i) <= 0) return false; r = k == 0 ? A.log() : A.log(N.k[0]); break; }
	case ABSO: r = A.abs(); break;
	case ACT: { static const mt_Activate_Type AT[] = { mt_Activate_Type_Sigmoid, mt_Activate_Type_Linear, mt_Activate_Type_Tanh, mt_Activate_Type_Relu, mt_Activate_Type_Softmax }; N.p[0] = AT[vp_choose("activation", 5)]; N.p[1] = 0; if (N.p[0] == mt_Activate_Type_Softmax && (nd != 2 || ch != 1)) return false; vector<f64> pr; if ((N.p[0] == mt_Activate_Type_Tanh || N.p[0] == mt_Activate_Type_Relu) && vp_choose("parameters", 2)) { N.p[1] = 1; N.k[0] = N.p[0] == mt_Activate_Type_Tanh ? 1.5 : 0.25; N.k[1] = 0.5; pr.push_back(N.k[0]); if (N.p[0] == mt_Activate_Type_Tanh) pr.push_back(N.k[1]); } r = A.activate((mt_Activate_Type)N.p[0], pr); break; }
	case LOSS: { N.p[0] = mt_Loss_Type_Quadratic; if (P.n[a].op == ACT && !P.n[a].ignored && !ignored && nd == 2 && ch == 1 && vp_choose("logarithmic", 2)) { int at = P.n[a].p[0]; if (!((at == mt_Activate_Type_Sigmoid && s[1] == 1) || (at == mt_Activate_Type_Softmax && s[1] > 1))) return false; N.p[0] = mt_Loss_Type_Logarithmic; EXTRA = true; }
		N.extra = mt_mat(nd, s, A.depth_channel()); T* p = (T*)N.extra.data(); int n = count(A); for (int i = 0; i < n; ++i) p[i] = N.p[0] == mt_Loss_Type_Quadratic ? (T)(0.5 * i - 1) : s[1] == 1 ? (T)(i % 2) : (T)(i % s[1] == (i / s[1]) % s[1]); if (vp_choose("missing", 2)) p[N.p[0] == mt_Loss_Type_Quadratic ? n - 1 : n - s[1]] = (T)mt_Infinity; r = A.loss(N.extra, (mt_Loss_Type)N.p[0]); break; }
	default: return false;
	}
	if (count(r) > E) return false;
	N.m = r; ++P.count; return true;
}
template<class T> static void compare(const Prog<T>& P, const mt_mat& res, const int* srcs, int ns, int t, bool sums) {
	static Grad<T> G[NT]; bool dep = false; for (int i = 0; i < ns; ++i) dep |= depends(P, srcs[i], t);
	if (!dep) { vp_assert(res.is_empty(), "nothing is derived for a mat that has no part in the result"); return; }
	const mt_mat& t0 = P.n[t].m; bool shape = !res.is_empty() && res.dim() == t0.dim() && res.channel() == t0.channel(); for (int i = 0; shape && i < t0.dim(); ++i) shape = res.size()[i] == t0.size()[i]; vp_assert(shape, "the derivative has the shape of the target"); if (!shape) vp_end();
	tangents<T>(P, t, G); int q = count(t0); bool ok = true; for (int j = 0; j < q; ++j) { T w = 0; for (int i = 0; i < ns; ++i) { int n = count(P.n[srcs[i]].m); for (int e = 0; e < n; ++e) w += G[srcs[i]].g[e][j]; } ok &= ok_value<T>(val<T>(res, j), w); }
	vp_assert(ok, sums ? "the derivatives of several mats add up" : "each element is the derivative of the sum of the result");
}
template<class T> static void body(bool warm) {
	long long heap0 = vp_heap_bytes(); int cache = vp_param("CACHE", 30), nsteps = vp_param("STEPS", 1), api = vp_param("API", 0);
	{
		Prog<T> P; P.count = 0; EXTRA = false; int mask = vp_param("SHAPES", 1), set[7], c = 0; for (int i = 0; i < 7; ++i) if (mask >> i & 1) set[c++] = i; const int* sh = SH[warm ? set[0] : set[vp_choose("shape", c)]]; int ch = vp_param("CH", 1); VSET = INTS || warm ? 0 : vp_choose("values", vp_param("VSETS", 2));
		mt_auto_derivative* ad = new mt_auto_derivative(cache);
		for (int i = 0; i < 2; ++i) { Node<T>& N = P.n[P.count++]; N.op = -1; N.nc = 0; N.ignored = false; N.m = leaf<T>(i ? "b" : "a", sh[0], sh + 1, ch, i); if (i == 0 || vp_param("BOTH", 1)) ad->attach(N.m); }
		int last = 1, used = -1;
		for (int k = 0; k < nsteps; ++k) {
			char nm[4] = { 'O', (char)('1' + k), 0, 0 }; int op = pick_op("operation", nm); int a = k == 0 ? 0 : vp_param("CHAIN", 0) ? last : pick_child("first operand", P, (const mt_mat*)0, false);
			bool ign = vp_param("IGNORE", 0) == k + 1; if (EXTRA && P.n[a].op == ACT) vp_end();
			if (ign) ad->set_stage(mt_auto_derivative::Stage_Ignore); bool ok = step<T>(P, op, a, *ad, ign, k > 0); if (ign) ad->set_stage(mt_auto_derivative::Stage_Record_Computing); if (!ok) vp_end(); if (ign) ad->attach(P.n[P.count - 1].m);
			last = P.count - 1; for (int i = 0; i < last; ++i) if (P.n[i].m.is_same(P.n[last].m)) vp_end();   // a view that is an earlier mat again: that mat
			if (vp_param("EARLY", 0) && k == 0) { mt_mat r = ad->derivative(P.n[0].m, P.n[last].m); compare<T>(P, r, &last, 1, 0, false); }
		}
		int srcs[2] = { last, last }, t = vp_choose("target", P.count); if (count(P.n[t].m) > TT) vp_end();
		if (EXTRA) { if (t >= last || P.n[t].op == ACT) vp_end(); }   // the logarithmic loss is derived through its activation
		switch (api) {
		case 0: { srcs[0] = vp_param("SRC", 0) ? P.count - 1 - vp_choose("source", P.count - 1) : last; mt_mat r = ad->derivative(P.n[t].m, P.n[srcs[0]].m); compare<T>(P, r, srcs, 1, t, false); vp_assert(ad->stage() == mt_auto_derivative::Stage_Record_Computing, "deriving does not change the stage");
			if (vp_param("TWICE", 0)) { int s2 = P.count - 1 - vp_choose("second source", P.count - 1), t2 = vp_choose("second target", P.count); if (count(P.n[t2].m) > TT) vp_end(); mt_mat r2 = P.n[s2].m.derivative(P.n[t2].m); compare<T>(P, r2, &s2, 1, t2, false); mt_mat r3 = ad->derivative(P.n[t].m, P.n[srcs[0]].m); compare<T>(P, r3, srcs, 1, t, false); } break; }
		case 1: { srcs[0] = last - 1; if (!depends(P, srcs[0], t) || !depends(P, last, t)) vp_end(); vector<mt_mat> sv; sv.push_back(P.n[srcs[0]].m); sv.push_back(P.n[last].m); mt_mat r = ad->derivative(P.n[t].m, sv); compare<T>(P, r, srcs, 2, t, true); mt_mat r1 = ad->derivative(P.n[t].m, P.n[last - 1].m); compare<T>(P, r1, srcs, 1, t, false); break; }
		default: { int t2 = vp_choose("second target", P.count); if (count(P.n[t2].m) > TT) vp_end(); srcs[0] = last - 1; vector<mt_mat> sv, tv; tv.push_back(P.n[t].m); tv.push_back(P.n[t2].m); sv.push_back(P.n[srcs[0]].m); sv.push_back(P.n[last].m); if (api == 2) { vector<mt_mat> r = ad->derivative(tv, P.n[last].m); vp_assert(r.size() == 2, "one derivative for each target"); compare<T>(P, r[0], srcs + 1, 1, t, false); compare<T>(P, r[1], srcs + 1, 1, t2, false); } else { if (!depends(P, srcs[0], t) || !depends(P, last, t) || !depends(P, srcs[0], t2) || !depends(P, last, t2)) vp_end(); vector<mt_mat> r = ad->derivative(tv, sv); vp_assert(r.size() == 2, "one derivative for each target"); compare<T>(P, r[0], srcs, 2, t, true); compare<T>(P, r[1], srcs, 2, t2, true); } break; }
		}
		vp_reach("derived"); if (vp_param("RESET", 0)) { ad->reset(); mt_mat z = P.n[0].m + P.n[1].m; mt_mat r = ad->derivative(P.n[0].m, z); bool one = r.is_same_size(z); for (int i = 0; one && i < count(z); ++i) one = val<T>(r, i) == 1; vp_assert(one, "after reset a new computation is recorded"); }
		delete ad;
	}
	if (!warm) vp_assert(vp_heap_bytes() == heap0, "all memory is released");
}
static void warm_up() {
#ifdef MKL_STAND
	mt_mat w(1, 1, mt_F64C1), k(1, 1, mt_F64C1); w.set(1); k.set(2); mt_mat r = w.conv(k);   // threads keep what their first use allocates
#endif
}
extern "C" void vp_main() { warm_up(); INTS = vp_param("INTS", 0) != 0; BITS = vp_param("BITS", 0); if (INTS) body<i32>(false); else body<double>(false); }
