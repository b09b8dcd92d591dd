/* The interface of the host (MATLAB, Octave) as the gateways of /repo/toolbox see it; ../host.c is the simulated host. */
#ifndef SIM_MEX_H
#define SIM_MEX_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#define EXTERN_C extern
#define MWSIZE_MAX 281474976710655UL
#define MWINDEX_MAX 281474976710655UL
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex;
typedef uint16_t mxChar; typedef bool mxLogical;
typedef struct mxArray_tag mxArray;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS, mxOPAQUE_CLASS, mxOBJECT_CLASS } mxClassID;
typedef enum { mxREAL = 0, mxCOMPLEX } mxComplexity;
void *mxMalloc(size_t n); void *mxCalloc(size_t n, size_t s); void *mxRealloc(void *p, size_t n); void mxFree(void *p);
mxClassID mxGetClassID(const mxArray *a); const char *mxGetClassName(const mxArray *a);
void *mxGetData(const mxArray *a); void mxSetData(mxArray *a, void *p); double *mxGetPr(const mxArray *a); void mxSetPr(mxArray *a, double *p); double *mxGetPi(const mxArray *a); void *mxGetImagData(const mxArray *a);
mxLogical *mxGetLogicals(const mxArray *a); mxChar *mxGetChars(const mxArray *a);
size_t mxGetM(const mxArray *a); size_t mxGetN(const mxArray *a); void mxSetM(mxArray *a, mwSize m); void mxSetN(mxArray *a, mwSize n);
mwSize mxGetNumberOfDimensions(const mxArray *a); const mwSize *mxGetDimensions(const mxArray *a); int mxSetDimensions(mxArray *a, const mwSize *d, mwSize n);
size_t mxGetNumberOfElements(const mxArray *a); size_t mxGetElementSize(const mxArray *a); double mxGetScalar(const mxArray *a);
bool mxIsNumeric(const mxArray *a); bool mxIsComplex(const mxArray *a); bool mxIsSparse(const mxArray *a); bool mxIsChar(const mxArray *a); bool mxIsDouble(const mxArray *a); bool mxIsSingle(const mxArray *a); bool mxIsStruct(const mxArray *a); bool mxIsCell(const mxArray *a); bool mxIsLogical(const mxArray *a); bool mxIsLogicalScalar(const mxArray *a); bool mxIsLogicalScalarTrue(const mxArray *a); bool mxIsEmpty(const mxArray *a); bool mxIsClass(const mxArray *a, const char *n);
bool mxIsInt8(const mxArray *a); bool mxIsUint8(const mxArray *a); bool mxIsInt16(const mxArray *a); bool mxIsUint16(const mxArray *a); bool mxIsInt32(const mxArray *a); bool mxIsUint32(const mxArray *a); bool mxIsInt64(const mxArray *a); bool mxIsUint64(const mxArray *a); bool mxIsFunctionHandle(const mxArray *a);
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f); mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity f); mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f); mxArray *mxCreateDoubleScalar(double v); mxArray *mxCreateLogicalScalar(mxLogical v); mxArray *mxCreateLogicalMatrix(mwSize m, mwSize n);
mxArray *mxCreateString(const char *s); mxArray *mxCreateCellMatrix(mwSize m, mwSize n); mxArray *mxCreateCellArray(mwSize nd, const mwSize *d); mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **f); mxArray *mxCreateStructArray(mwSize nd, const mwSize *d, int nf, const char **f);
mxArray *mxDuplicateArray(const mxArray *a); void mxDestroyArray(mxArray *a);
mxArray *mxGetField(const mxArray *a, mwIndex i, const char *f); void mxSetField(mxArray *a, mwIndex i, const char *f, mxArray *v); void mxSetFieldByNumber(mxArray *a, mwIndex i, int f, mxArray *v); mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex i, int f); int mxGetFieldNumber(const mxArray *a, const char *f); int mxGetNumberOfFields(const mxArray *a); const char *mxGetFieldNameByNumber(const mxArray *a, int f); int mxAddField(mxArray *a, const char *f);
mxArray *mxGetCell(const mxArray *a, mwIndex i); void mxSetCell(mxArray *a, mwIndex i, mxArray *v);
int mxGetString(const mxArray *a, char *b, mwSize n); char *mxArrayToString(const mxArray *a);
mwIndex *mxGetIr(const mxArray *a); mwIndex *mxGetJc(const mxArray *a); mwSize mxGetNzmax(const mxArray *a);
double mxGetInf(void); double mxGetNaN(void); double mxGetEps(void); bool mxIsNaN(double v); bool mxIsInf(double v); bool mxIsFinite(double v);
int mexPrintf(const char *f, ...); void mexErrMsgTxt(const char *m) __attribute__((noreturn)); void mexErrMsgIdAndTxt(const char *id, const char *f, ...) __attribute__((noreturn)); void mexWarnMsgTxt(const char *m); void mexWarnMsgIdAndTxt(const char *id, const char *f, ...);
int mexCallMATLAB(int nlhs, mxArray *plhs[], int nrhs, mxArray *prhs[], const char *fn); int mexEvalString(const char *s); int mexAtExit(void (*f)(void)); void mexLock(void); void mexUnlock(void); void mexMakeArrayPersistent(mxArray *a); void mexMakeMemoryPersistent(void *p); const char *mexFunctionName(void);
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
#define printf mexPrintf
#endif
