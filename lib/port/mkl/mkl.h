// Declarations of the parts of Intel MKL that basicmath calls; harness/mat_prod.cpp defines them by their documentation.
#pragma once
enum CBLAS_LAYOUT { CblasRowMajor = 101, CblasColMajor = 102 };
enum CBLAS_TRANSPOSE { CblasNoTrans = 111, CblasTrans = 112, CblasConjTrans = 113 };
enum { VSL_STATUS_OK = 0, VSL_CONV_MODE_FFT = 1, VSL_CONV_MODE_DIRECT = 2, VSL_CONV_MODE_AUTO = 0 };
typedef void* VSLConvTaskPtr;
extern "C" {
void cblas_sgemm(CBLAS_LAYOUT, CBLAS_TRANSPOSE, CBLAS_TRANSPOSE, int, int, int, float, const float*, int, const float*, int, float, float*, int);
void cblas_dgemm(CBLAS_LAYOUT, CBLAS_TRANSPOSE, CBLAS_TRANSPOSE, int, int, int, double, const double*, int, const double*, int, double, double*, int);
int vslsConvNewTask(VSLConvTaskPtr*, int, int, const int*, const int*, const int*);
int vsldConvNewTask(VSLConvTaskPtr*, int, int, const int*, const int*, const int*);
int vslConvSetDecimation(VSLConvTaskPtr, const int*);
int vslConvSetStart(VSLConvTaskPtr, const int*);
int vslsConvExec(VSLConvTaskPtr, const float*, const int*, const float*, const int*, float*, const int*);
int vsldConvExec(VSLConvTaskPtr, const double*, const int*, const double*, const int*, double*, const int*);
int vslConvDeleteTask(VSLConvTaskPtr*);
}
