/* A stand-in for MATLAB or Octave: arrays of exactly their size, errors that leave the mex function at once, and an
   allocator that fails when the simulator says so (which, in a mex function, is such an error). */
#include "mex.h"
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

struct mxArray_tag { mxClassID cls; size_t m, n; void *data; int input; size_t bytes; void *saved; mxArray *next; };
typedef struct Mem { void *p; struct Mem *next; } Mem;
static mxArray *arrays;
static Mem *mems;
static jmp_buf out;
static long nalloc, fail_at = -1, fired;
static char err[300];

static size_t size_of(mxClassID c) {
  switch (c) { case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4;
    case mxINT16_CLASS: case mxUINT16_CLASS: case mxCHAR_CLASS: return 2; default: return 1; }
}
static void oom(void) { if (nalloc++ == fail_at) { fail_at = -1; fired = 1; longjmp(out, 1); } }
static mxArray *mk(size_t m, size_t n, mxClassID c) {
  mxArray *a = calloc(1, sizeof *a);
  a->cls = c; a->m = m; a->n = n; a->bytes = m * n * size_of(c); a->data = calloc(1, a->bytes ? a->bytes : 1); a->next = arrays; arrays = a;
  return a;
}
void *mxGetData(const mxArray *a) { return a->data; }
double *mxGetPr(const mxArray *a) { return a->cls == mxDOUBLE_CLASS ? a->data : NULL; }
double *mxGetDoubles(const mxArray *a) { return mxGetPr(a); }
double mxGetScalar(const mxArray *a) { return a->cls == mxDOUBLE_CLASS ? *(double *)a->data : a->cls == mxINT64_CLASS ? (double)*(int64_t *)a->data : a->cls == mxSINGLE_CLASS ? *(float *)a->data : *(int32_t *)a->data; }
size_t mxGetM(const mxArray *a) { return a->m; }
size_t mxGetN(const mxArray *a) { return a->n; }
size_t mxGetNumberOfElements(const mxArray *a) { return a->m * a->n; }
size_t mxGetElementSize(const mxArray *a) { return size_of(a->cls); }
mxClassID mxGetClassID(const mxArray *a) { return a->cls; }
int mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
int mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
int mxIsInt64(const mxArray *a) { return a->cls == mxINT64_CLASS; }
int mxIsComplex(const mxArray *a) { return 0; }
int mxIsEmpty(const mxArray *a) { return a->m * a->n == 0; }
int mxIsNumeric(const mxArray *a) { return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
void *mxMalloc(size_t n) { oom(); Mem *m = malloc(sizeof *m); m->p = malloc(n ? n : 1); m->next = mems; mems = m; return m->p; }
void *mxCalloc(size_t n, size_t k) { void *p = mxMalloc(n * k); memset(p, 0, n * k); return p; }
void mxFree(void *p) { if (!p) return; for (Mem **m = &mems; *m; m = &(*m)->next) if ((*m)->p == p) { Mem *d = *m; *m = d->next; free(p); free(d); return; } snprintf(err, sizeof err, "mxFree of foreign memory"); }
char *mxArrayToString(const mxArray *a) { if (a->cls != mxCHAR_CLASS) return NULL; size_t n = a->m * a->n; char *s = mxMalloc(n + 1); for (size_t i = 0; i < n; i++) s[i] = (char)((uint16_t *)a->data)[i]; s[n] = 0; return s; }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) { oom(); return mk(m, n, mxDOUBLE_CLASS); }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID k, mxComplexity c) { oom(); return mk(m, n, k); }
mxArray *mxCreateNumericArray(mwSize d, const mwSize *s, mxClassID k, mxComplexity c) { oom(); return mk(s[0], d > 1 ? s[1] : 1, k); }
mxArray *mxCreateDoubleScalar(double v) { oom(); mxArray *a = mk(1, 1, mxDOUBLE_CLASS); *(double *)a->data = v; return a; }
mxArray *mxCreateLogicalScalar(mxLogical v) { oom(); mxArray *a = mk(1, 1, mxLOGICAL_CLASS); *(unsigned char *)a->data = v != 0; return a; }
mxArray *mxCreateString(const char *s) { oom(); size_t n = strlen(s); mxArray *a = mk(n ? 1 : 0, n, mxCHAR_CLASS); for (size_t i = 0; i < n; i++) ((uint16_t *)a->data)[i] = (unsigned char)s[i]; return a; }
void mxDestroyArray(mxArray *a) { if (!a) return; if (a->input) { snprintf(err, sizeof err, "an input is destroyed"); return; } for (mxArray **p = &arrays; *p; p = &(*p)->next) if (*p == a) { *p = a->next; free(a->data); free(a); return; } }
void mexErrMsgIdAndTxt(const char *id, const char *f, ...) { longjmp(out, 2); }
void mexErrMsgTxt(const char *f) { longjmp(out, 2); }
void mexWarnMsgTxt(const char *f) {}
void mexWarnMsgIdAndTxt(const char *id, const char *f, ...) {}
int mexPrintf(const char *f, ...) { return 0; }

/* ---- for the simulator */
void *fm_new(int cls, size_t m, size_t n) { mxArray *a = mk(m, n, (mxClassID)cls); a->input = 1; return a; }
void *fm_string(const char *s) { fail_at = -1; mxArray *a = mxCreateString(s); a->input = 1; return a; }
void *fm_data(void *a) { return ((mxArray *)a)->data; }
int fm_class(void *a) { return ((mxArray *)a)->cls; }
size_t fm_m(void *a) { return ((mxArray *)a)->m; }
size_t fm_n(void *a) { return ((mxArray *)a)->n; }
const char *fm_error(void) { return err; }
/* 0: done, 1: out of memory, 2: error message; +4: misuse */
int fm_call(int nlhs, void **plhs, int nrhs, void **prhs, long fail) {
  nalloc = 0; fail_at = fail; fired = 0; err[0] = 0;
  for (int i = 0; i < nrhs; i++) { mxArray *a = prhs[i]; a->saved = malloc(a->bytes ? a->bytes : 1); memcpy(a->saved, a->data, a->bytes); }
  mxArray **L = calloc((size_t)(nlhs > 0 ? nlhs : 1), sizeof *L), **R = calloc((size_t)(nrhs ? nrhs : 1), sizeof *R);
  for (int i = 0; i < nrhs; i++) R[i] = prhs[i];
  int rc = setjmp(out);
  if (!rc) mexFunction(nlhs, L, nrhs, (const mxArray **)R);
  fail_at = -1;
  for (int i = 0; i < nrhs; i++) { mxArray *a = prhs[i]; if (memcmp(a->saved, a->data, a->bytes)) snprintf(err, sizeof err, "an input is changed"); free(a->saved); a->saved = NULL; }
  for (int i = 0; i < (nlhs > 0 ? nlhs : 1); i++) plhs[i] = rc ? NULL : L[i];
  free(L); free(R);
  while (mems) { Mem *m = mems; mems = m->next; free(m->p); free(m); }
  return rc | (err[0] ? 4 : 0);
}
void fm_clear(void) { while (arrays) { mxArray *a = arrays; arrays = a->next; free(a->data); free(a); } }
