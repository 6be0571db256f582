// Stand-ins for the parts of Intel MKL that mul and conv call, written from its documentation; they check its preconditions.
#pragma once
#include "mkl/mkl.h"
template <class T> static void gemm(CBLAS_LAYOUT o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, T al, const T* a, int lda, const T* b, int ldb, T be, T* c, int ldc) {
	vp_assert(o == CblasRowMajor && m > 0 && n > 0 && k > 0 && lda >= (ta == CblasNoTrans ? k : m) && ldb >= (tb == CblasNoTrans ? n : k) && ldc >= n, "the product is called with leading dimensions that hold its rows");
	for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { T s = 0; for (int q = 0; q < k; ++q) s += (ta == CblasNoTrans ? a[i * lda + q] : a[q * lda + i]) * (tb == CblasNoTrans ? b[q * ldb + j] : b[j * ldb + q]); T& r = c[i * ldc + j]; r = be == 0 ? al * s : al * s + be * r; }
}
struct Task { int f64, nd, x[MAXD], y[MAXD], z[MAXD], dec[MAXD], st[MAXD]; };
static int TASKS;
static int mk_task(VSLConvTaskPtr* t, int f, int mode, int nd, const int* x, const int* y, const int* z) { Task* k = new Task; __sync_fetch_and_add(&TASKS, 1); k->f64 = f; k->nd = nd; vp_assert(nd > 0 && nd <= 7 && mode >= 0 && mode <= 2, "a convolution has one to seven dimensions"); for (int i = 0; i < nd; ++i) { k->x[i] = x[i]; k->y[i] = y[i]; k->z[i] = z[i]; k->dec[i] = 1; k->st[i] = 0; } *t = k; return 0; }
template <class T> static int exec_(Task* k, int f, const T* x, const int* xs, const T* y, const int* ys, T* z, const int* zs) {
	vp_assert(k->f64 == f, "a convolution runs in the precision it was made for"); int zn = 1, yn = 1; for (int i = 0; i < k->nd; ++i) { zn *= k->z[i]; yn *= k->y[i]; }
	for (int p = 0; p < zn; ++p) { int zi[MAXD], q = p; for (int i = k->nd - 1; i >= 0; --i) { zi[i] = q % k->z[i]; q /= k->z[i]; }
		T s = 0; for (int w = 0; w < yn; ++w) { bool in = true; long xo = 0, yo = 0; q = w; for (int i = k->nd - 1; i >= 0; --i) { int yi = q % k->y[i], xi = k->st[i] + zi[i] * k->dec[i] - yi; q /= k->y[i]; if (xi < 0 || xi >= k->x[i]) in = false; xo += (long)xi * xs[i]; yo += (long)yi * ys[i]; } if (in) s += x[xo] * y[yo]; }
		long zo = 0; for (int i = 0; i < k->nd; ++i) zo += (long)zi[i] * zs[i]; z[zo] = s; }
	return 0;
}
extern "C" {
void cblas_sgemm(CBLAS_LAYOUT o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, float al, const float* a, int lda, const float* b, int ldb, float be, float* c, int ldc) { gemm<float>(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
void cblas_dgemm(CBLAS_LAYOUT o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, double al, const double* a, int lda, const double* b, int ldb, double be, double* c, int ldc) { gemm<double>(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
int vslsConvNewTask(VSLConvTaskPtr* t, int mode, int nd, const int* x, const int* y, const int* z) { return mk_task(t, 0, mode, nd, x, y, z); }
int vsldConvNewTask(VSLConvTaskPtr* t, int mode, int nd, const int* x, const int* y, const int* z) { return mk_task(t, 1, mode, nd, x, y, z); }
int vslConvSetDecimation(VSLConvTaskPtr t, const int* d) { Task* k = (Task*)t; for (int i = 0; i < k->nd; ++i) k->dec[i] = d[i]; return 0; }
int vslConvSetStart(VSLConvTaskPtr t, const int* s) { Task* k = (Task*)t; for (int i = 0; i < k->nd; ++i) k->st[i] = s[i]; return 0; }
int vslsConvExec(VSLConvTaskPtr t, const float* x, const int* xs, const float* y, const int* ys, float* z, const int* zs) { return exec_<float>((Task*)t, 0, x, xs, y, ys, z, zs); }
int vsldConvExec(VSLConvTaskPtr t, const double* x, const int* xs, const double* y, const int* ys, double* z, const int* zs) { return exec_<double>((Task*)t, 1, x, xs, y, ys, z, zs); }
int vslConvDeleteTask(VSLConvTaskPtr* t) { delete (Task*)*t; *t = 0; __sync_fetch_and_add(&TASKS, -1); return 0; }
}
