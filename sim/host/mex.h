/* a stand-in for MATLAB's mex.h */
#ifndef FAKE_MEX_H
#define FAKE_MEX_H
#include <stddef.h>
#include <stdint.h>
#include <ctype.h>
typedef struct mxArray_tag mxArray;
typedef size_t mwSize;
typedef size_t mwIndex;
typedef unsigned char mxLogical;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS,
               mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
void *mxGetData(const mxArray *);
double *mxGetPr(const mxArray *);
double *mxGetDoubles(const mxArray *);
double mxGetScalar(const mxArray *);
size_t mxGetM(const mxArray *);
size_t mxGetN(const mxArray *);
size_t mxGetNumberOfElements(const mxArray *);
size_t mxGetElementSize(const mxArray *);
mxClassID mxGetClassID(const mxArray *);
int mxIsDouble(const mxArray *);
int mxIsChar(const mxArray *);
int mxIsInt64(const mxArray *);
int mxIsComplex(const mxArray *);
int mxIsEmpty(const mxArray *);
int mxIsNumeric(const mxArray *);
char *mxArrayToString(const mxArray *);
mxArray *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity);
mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity);
mxArray *mxCreateNumericArray(mwSize, const mwSize *, mxClassID, mxComplexity);
mxArray *mxCreateDoubleScalar(double);
mxArray *mxCreateLogicalScalar(mxLogical);
mxArray *mxCreateString(const char *);
void mxDestroyArray(mxArray *);
void *mxMalloc(size_t);
void *mxCalloc(size_t, size_t);
void mxFree(void *);
void mexErrMsgIdAndTxt(const char *, const char *, ...) __attribute__((noreturn));
void mexErrMsgTxt(const char *) __attribute__((noreturn));
void mexWarnMsgTxt(const char *);
void mexWarnMsgIdAndTxt(const char *, const char *, ...);
int mexPrintf(const char *, ...);
void mexFunction(int, mxArray *[], int, const mxArray *[]);
#endif
