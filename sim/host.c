/* The simulated host (MATLAB, Octave) in which the gateways of /repo/toolbox run: see host.h. */
#define _GNU_SOURCE
#include "host.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <float.h>
#define MAGIC 0x6d784172u
struct mxArray_tag { u32 magic; int cls, cplx, sparse; int nd; mwSize *dims; void *data, *imag; mwIndex *ir, *jc; mwSize nzmax; int nf; char **fn; mxArray **sub; int where /* 0 of the running call, 1 of the workspace, 2 destroyed */; mxArray *owner; int seen; };
static mxArray **temps; static size_t ntemps, ctemps;
static jmp_buf *call_jmp; static int call_fault; static u64 call_at; static int in_workspace = 1; static const char *call_name = "";
u64 host_requests, host_messages, host_callbacks, host_fault_fired; char host_error[1200];
static const size_t esz[] = {0, 8, 8, 1, 2, 0, 8, 4, 1, 1, 2, 2, 4, 4, 8, 8, 0, 0, 0};
static const char *cname[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle", "opaque", "object"};
static void raise_(int how) { if (!call_jmp) sim_harness_error("host: error outside a call: %s", host_error); longjmp(*call_jmp, how); }
#define CK(a, what) do { if (!(a)) sim_violation("null-array", "%s: %s of no array", call_name, what); if ((a)->magic != MAGIC) sim_violation("bad-array", "%s: %s of something that is not an array", call_name, what); if ((a)->where == 2) sim_violation("destroyed-array", "%s: %s of an array that was destroyed", call_name, what); } while (0)
static void request(void) {
  if (in_workspace) return;
  host_requests++;
  if (call_fault == HF_MEMORY && host_requests == call_at) { host_fault_fired++; snprintf(host_error, sizeof host_error, "Out of memory."); raise_(H_REFUSED); }
}
static void message(void) { host_messages++; if (call_fault == HF_STOP && host_messages == call_at) { host_fault_fired++; snprintf(host_error, sizeof host_error, "Operation terminated by user."); raise_(H_INTERRUPT); } }
static int own_now(void) { return in_workspace ? OWN_USER : OWN_A; }
static void *take(size_t n, int zero) {
  void *p = mem_alloc(n, own_now(), zero);
  if (!p) { if (in_workspace) sim_harness_error("host: no memory for the workspace"); snprintf(host_error, sizeof host_error, "Out of memory."); raise_(H_ERROR); }
  return p;
}
/* ---- memory ---- */
void *mxMalloc(size_t n) { request(); return take(n, 0); }
void *mxCalloc(size_t n, size_t s) { request(); if (s && n > MEM_HUGE / s) { snprintf(host_error, sizeof host_error, "Out of memory."); raise_(H_ERROR); } return take(n * s, 1); }
void *mxRealloc(void *p, size_t n) { request(); if (!p) return take(n, 0); void *q = mem_realloc_own(p, n, own_now()); if (!q) { snprintf(host_error, sizeof host_error, "Out of memory."); raise_(H_ERROR); } return q; }
void mxFree(void *p) { mem_free_own(p, own_now()); }
/* ---- arrays ---- */
static size_t nel(const mxArray *a) { size_t n = 1; for (int i = 0; i < a->nd; i++) n *= a->dims[i]; return n; }
static mxArray *fresh(int cls, int nd, const mwSize *d, int cplx) {
  request();
  mxArray *a = calloc(1, sizeof *a); a->magic = MAGIC; a->cls = cls; a->cplx = cplx;
  int k = nd < 2 ? 2 : nd; while (k > 2 && d[k - 1] == 1) k--; /* trailing singletons go */
  a->nd = k; a->dims = mem_alloc(sizeof(mwSize) * (size_t)k, OWN_USER, 0);
  for (int i = 0; i < k; i++) a->dims[i] = i < nd ? d[i] : 1;
  a->where = in_workspace;
  if (!in_workspace) { if (ntemps == ctemps) { ctemps = ctemps ? 2 * ctemps : 64; temps = realloc(temps, ctemps * sizeof *temps); } temps[ntemps++] = a; }
  double need = 1; for (int i = 0; i < k; i++) need *= (double)a->dims[i];
  if (need * 8 > (double)MEM_HUGE) { snprintf(host_error, sizeof host_error, "Out of memory."); if (in_workspace) sim_harness_error("host: huge array"); raise_(H_ERROR); }
  size_t n = nel(a);
  if (cls == mxCELL_CLASS) a->sub = calloc(n + 1, sizeof *a->sub);
  else if (cls != mxSTRUCT_CLASS && cls != mxFUNCTION_CLASS && n) { a->data = take(n * esz[cls], 1); if (cplx) a->imag = take(n * esz[cls], 1); }
  return a;
}
static void free_dims(mxArray *a) { if (a->dims) mem_free_own(a->dims, OWN_USER); a->dims = 0; }
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity f) { if (c < mxDOUBLE_CLASS || c > mxUINT64_CLASS) { if (c != mxLOGICAL_CLASS && c != mxCHAR_CLASS) { snprintf(host_error, sizeof host_error, "Invalid class."); raise_(H_ERROR); } } if (nd > 1000) sim_violation("bad-array", "%s: an array of %zu dimensions", call_name, (size_t)nd); return fresh((int)c, (int)nd, d, f == mxCOMPLEX); }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f) { mwSize d[2] = {m, n}; return mxCreateNumericArray(2, d, c, f); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, f); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL); *(double *)a->data = v; return a; }
mxArray *mxCreateLogicalMatrix(mwSize m, mwSize n) { mwSize d[2] = {m, n}; return fresh(mxLOGICAL_CLASS, 2, d, 0); }
mxArray *mxCreateLogicalScalar(mxLogical v) { mxArray *a = mxCreateLogicalMatrix(1, 1); *(mxLogical *)a->data = v; return a; }
mxArray *mxCreateString(const char *s) { size_t n = strlen(s); mwSize d[2] = {n ? 1 : 0, n}; mxArray *a = fresh(mxCHAR_CLASS, 2, d, 0); for (size_t i = 0; i < n; i++) ((mxChar *)a->data)[i] = (u8)s[i]; return a; }
mxArray *mxCreateCellArray(mwSize nd, const mwSize *d) { return fresh(mxCELL_CLASS, (int)nd, d, 0); }
mxArray *mxCreateCellMatrix(mwSize m, mwSize n) { mwSize d[2] = {m, n}; return mxCreateCellArray(2, d); }
mxArray *mxCreateStructArray(mwSize nd, const mwSize *d, int nf, const char **f) { mxArray *a = fresh(mxSTRUCT_CLASS, (int)nd, d, 0); a->nf = nf; a->fn = calloc((size_t)nf + 1, sizeof *a->fn); for (int i = 0; i < nf; i++) a->fn[i] = strdup(f[i]); a->sub = calloc(nel(a) * (size_t)nf + 1, sizeof *a->sub); return a; }
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **f) { mwSize d[2] = {m, n}; return mxCreateStructArray(2, d, nf, f); }
static size_t nsub(const mxArray *a) { return a->cls == mxCELL_CLASS ? nel(a) : a->cls == mxSTRUCT_CLASS ? nel(a) * (size_t)a->nf : 0; }
mxArray *mxDuplicateArray(const mxArray *a) {
  CK(a, "duplicate"); mxArray *b = fresh(a->cls, a->nd, a->dims, a->cplx); size_t n = nel(a);
  if (a->data && b->data) memcpy(b->data, a->data, n * esz[a->cls]); if (a->imag && b->imag) memcpy(b->imag, a->imag, n * esz[a->cls]);
  if (a->cls == mxSTRUCT_CLASS) { b->nf = a->nf; b->fn = calloc((size_t)a->nf + 1, sizeof *b->fn); for (int i = 0; i < a->nf; i++) b->fn[i] = strdup(a->fn[i]); b->sub = calloc(n * (size_t)a->nf + 1, sizeof *b->sub); }
  for (size_t i = 0; i < nsub(a); i++) if (a->sub[i]) { b->sub[i] = mxDuplicateArray(a->sub[i]); b->sub[i]->owner = b; }
  return b;
}
void mxDestroyArray(mxArray *a) {
  if (!a) return; CK(a, "destruction");
  if (a->where == 1 && !in_workspace) sim_violation("input-destroyed", "%s destroyed one of its arguments", call_name);
  if (a->owner && a->owner->where != 2 && a->owner->seen != -1) sim_violation("part-destroyed", "%s destroyed an array that is part of another", call_name);
  a->seen = -1;
  for (size_t i = 0; i < nsub(a); i++) if (a->sub[i]) mxDestroyArray(a->sub[i]);
  int own = a->where == 1 ? OWN_USER : OWN_A; mem_free_own(a->data, own); mem_free_own(a->imag, own); free_dims(a); a->where = 2;
}
mxClassID mxGetClassID(const mxArray *a) { CK(a, "the class"); return (mxClassID)a->cls; }
const char *mxGetClassName(const mxArray *a) { CK(a, "the class"); return cname[a->cls]; }
void *mxGetData(const mxArray *a) { CK(a, "the data"); return a->data; }
double *mxGetPr(const mxArray *a) { CK(a, "the data"); return a->data; }
double *mxGetPi(const mxArray *a) { CK(a, "the data"); return a->imag; }
void *mxGetImagData(const mxArray *a) { CK(a, "the data"); return a->imag; }
mxLogical *mxGetLogicals(const mxArray *a) { CK(a, "the data"); return a->cls == mxLOGICAL_CLASS ? a->data : 0; }
mxChar *mxGetChars(const mxArray *a) { CK(a, "the data"); return a->cls == mxCHAR_CLASS ? a->data : 0; }
static void writable(mxArray *a, const char *what) { CK(a, what); if (a->where == 1 && !in_workspace) sim_violation("input-changed", "%s: %s of one of its arguments", call_name, what); }
void mxSetData(mxArray *a, void *p) { writable(a, "setting the data"); a->data = p; }
void mxSetPr(mxArray *a, double *p) { mxSetData(a, p); }
static void redim(mxArray *a, int nd, const mwSize *d) { mwSize *q = mem_alloc(sizeof(mwSize) * (size_t)nd, OWN_USER, 0); memcpy(q, d, sizeof(mwSize) * (size_t)nd); free_dims(a); a->dims = q; a->nd = nd; }
int mxSetDimensions(mxArray *a, const mwSize *d, mwSize n) { writable(a, "setting the size"); int k = (int)n; while (k > 2 && d[k - 1] == 1) k--; redim(a, k, d); return 0; }
void mxSetM(mxArray *a, mwSize m) { writable(a, "setting the size"); a->dims[0] = m; }
void mxSetN(mxArray *a, mwSize n) { writable(a, "setting the size"); mwSize d[2] = {a->dims[0], n}; redim(a, 2, d); }
size_t mxGetM(const mxArray *a) { CK(a, "the size"); return a->dims[0]; }
size_t mxGetN(const mxArray *a) { CK(a, "the size"); size_t n = 1; for (int i = 1; i < a->nd; i++) n *= a->dims[i]; return n; }
mwSize mxGetNumberOfDimensions(const mxArray *a) { CK(a, "the size"); return (mwSize)a->nd; }
const mwSize *mxGetDimensions(const mxArray *a) { CK(a, "the size"); return a->dims; }
size_t mxGetNumberOfElements(const mxArray *a) { CK(a, "the size"); return nel(a); }
size_t mxGetElementSize(const mxArray *a) { CK(a, "the class"); return esz[a->cls]; }
static double at_(const mxArray *a, size_t i) {
  switch (a->cls) {
    case mxLOGICAL_CLASS: case mxUINT8_CLASS: return ((u8 *)a->data)[i]; case mxINT8_CLASS: return ((int8_t *)a->data)[i]; case mxCHAR_CLASS: case mxUINT16_CLASS: return ((uint16_t *)a->data)[i]; case mxINT16_CLASS: return ((int16_t *)a->data)[i];
    case mxINT32_CLASS: return ((int32_t *)a->data)[i]; case mxUINT32_CLASS: return ((u32 *)a->data)[i]; case mxINT64_CLASS: return (double)((i64 *)a->data)[i]; case mxUINT64_CLASS: return (double)((u64 *)a->data)[i];
    case mxSINGLE_CLASS: return ((float *)a->data)[i]; case mxDOUBLE_CLASS: return ((double *)a->data)[i]; }
  return 0;
}
double mxGetScalar(const mxArray *a) { CK(a, "the value"); if (!a->data || !nel(a)) sim_violation("no-value", "%s takes the value of an array that has none", call_name); return at_(a, 0); }
bool mxIsNumeric(const mxArray *a) { CK(a, "the class"); return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
bool mxIsComplex(const mxArray *a) { CK(a, "the class"); return a->cplx; }
bool mxIsSparse(const mxArray *a) { CK(a, "the class"); return a->sparse; }
#define IS(N, C) bool mxIs##N(const mxArray *a) { CK(a, "the class"); return a->cls == mx##C##_CLASS; }
IS(Char, CHAR) IS(Double, DOUBLE) IS(Single, SINGLE) IS(Struct, STRUCT) IS(Cell, CELL) IS(Logical, LOGICAL) IS(Int8, INT8) IS(Uint8, UINT8) IS(Int16, INT16) IS(Uint16, UINT16) IS(Int32, INT32) IS(Uint32, UINT32) IS(Int64, INT64) IS(Uint64, UINT64) IS(FunctionHandle, FUNCTION)
bool mxIsLogicalScalar(const mxArray *a) { CK(a, "the class"); return a->cls == mxLOGICAL_CLASS && nel(a) == 1; }
bool mxIsLogicalScalarTrue(const mxArray *a) { return mxIsLogicalScalar(a) && *(u8 *)a->data; }
bool mxIsEmpty(const mxArray *a) { CK(a, "the size"); return nel(a) == 0; }
bool mxIsClass(const mxArray *a, const char *n) { CK(a, "the class"); return !strcmp(cname[a->cls], n) || (!strcmp(n, "numeric") && mxIsNumeric(a)); }
int mxGetNumberOfFields(const mxArray *a) { CK(a, "the fields"); return a->cls == mxSTRUCT_CLASS ? a->nf : 0; }
const char *mxGetFieldNameByNumber(const mxArray *a, int f) { CK(a, "the fields"); return a->cls == mxSTRUCT_CLASS && f >= 0 && f < a->nf ? a->fn[f] : 0; }
int mxGetFieldNumber(const mxArray *a, const char *f) { CK(a, "the fields"); if (a->cls != mxSTRUCT_CLASS) return -1; for (int i = 0; i < a->nf; i++) if (!strcmp(a->fn[i], f)) return i; return -1; }
mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex i, int f) { CK(a, "a field"); if (a->cls != mxSTRUCT_CLASS || f < 0 || f >= a->nf || i >= nel(a)) return 0; return a->sub[i * (size_t)a->nf + (size_t)f]; }
mxArray *mxGetField(const mxArray *a, mwIndex i, const char *f) { return mxGetFieldByNumber(a, i, mxGetFieldNumber(a, f)); }
static void attach(mxArray *a, size_t k, mxArray *v) {
  if (v) { CK(v, "storing"); if (v->where == 1 && !in_workspace) sim_violation("input-shared", "%s stores one of its arguments in another array", call_name); if (v->owner) sim_violation("input-shared", "%s stores an array that is part of another", call_name); v->owner = a; }
  if (a->sub[k]) a->sub[k]->owner = 0; /* the caller's to destroy */
  a->sub[k] = v;
}
void mxSetFieldByNumber(mxArray *a, mwIndex i, int f, mxArray *v) { writable(a, "setting a field"); if (a->cls != mxSTRUCT_CLASS || f < 0 || f >= a->nf || i >= nel(a)) sim_violation("no-such-field", "%s sets a field that the array does not have", call_name); attach(a, i * (size_t)a->nf + (size_t)f, v); }
void mxSetField(mxArray *a, mwIndex i, const char *f, mxArray *v) { writable(a, "setting a field"); int k = mxGetFieldNumber(a, f); if (k < 0 || i >= nel(a)) sim_violation("no-such-field", "%s sets the field %.40s, which the array does not have", call_name, f); mxSetFieldByNumber(a, i, k, v); }
int mxAddField(mxArray *a, const char *f) {
  writable(a, "adding a field"); int k = mxGetFieldNumber(a, f); if (k >= 0) return k; size_t n = nel(a);
  mxArray **s = calloc(n * (size_t)(a->nf + 1) + 1, sizeof *s); for (size_t i = 0; i < n; i++) for (int j = 0; j < a->nf; j++) s[i * (size_t)(a->nf + 1) + (size_t)j] = a->sub[i * (size_t)a->nf + (size_t)j];
  a->sub = s; a->fn = realloc(a->fn, (size_t)(a->nf + 2) * sizeof *a->fn); a->fn[a->nf] = strdup(f); return a->nf++;
}
mxArray *mxGetCell(const mxArray *a, mwIndex i) { CK(a, "a cell"); if (a->cls != mxCELL_CLASS || i >= nel(a)) return 0; return a->sub[i]; }
void mxSetCell(mxArray *a, mwIndex i, mxArray *v) { writable(a, "setting a cell"); if (a->cls != mxCELL_CLASS || i >= nel(a)) sim_violation("no-such-field", "%s sets a cell that the array does not have", call_name); attach(a, i, v); }
int mxGetString(const mxArray *a, char *b, mwSize n) { CK(a, "the text"); if (n) b[0] = 0; if (a->cls != mxCHAR_CLASS || !n) return 1; size_t m = nel(a), i; for (i = 0; i < m && i + 1 < n; i++) b[i] = (char)((mxChar *)a->data)[i]; b[i] = 0; return m + 1 > n; }
char *mxArrayToString(const mxArray *a) { CK(a, "the text"); if (a->cls != mxCHAR_CLASS) return 0; size_t n = nel(a); char *s = mxMalloc(n + 1); mxGetString(a, s, n + 1); return s; }
mwIndex *mxGetIr(const mxArray *a) { CK(a, "the data"); return a->ir; }
mwIndex *mxGetJc(const mxArray *a) { CK(a, "the data"); return a->jc; }
mwSize mxGetNzmax(const mxArray *a) { CK(a, "the data"); return a->nzmax; }
double mxGetInf(void) { return INFINITY; } double mxGetNaN(void) { return NAN; } double mxGetEps(void) { return DBL_EPSILON; }
bool mxIsNaN(double v) { return isnan(v); } bool mxIsInf(double v) { return isinf(v); } bool mxIsFinite(double v) { return isfinite(v); }
/* ---- messages, errors, callbacks ---- */
int mexPrintf(const char *f, ...) { char b[2048]; va_list ap; va_start(ap, f); int k = vsnprintf(b, sizeof b, f, ap); va_end(ap); message(); return k; }
void mexWarnMsgTxt(const char *m) { (void)strlen(m); message(); }
void mexWarnMsgIdAndTxt(const char *id, const char *f, ...) { (void)id; char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); message(); }
void mexErrMsgTxt(const char *m) { snprintf(host_error, sizeof host_error, "%s", m); raise_(H_ERROR); abort(); }
void mexErrMsgIdAndTxt(const char *id, const char *f, ...) {
  if (!id || strncmp(id, "vl:", 3)) sim_violation("error-identifier", "%s: an error with the identifier %.60s", call_name, id ? id : "(none)");
  va_list ap; va_start(ap, f); vsnprintf(host_error, sizeof host_error, f, ap); va_end(ap); raise_(H_ERROR); abort();
}
int mexCallMATLAB(int nlhs, mxArray *plhs[], int nrhs, mxArray *prhs[], const char *fn) {
  (void)plhs; host_callbacks++; for (int i = 0; i < nrhs; i++) { CK(prhs[i], "a callback's argument"); sim_event(ws_hash(prhs[i], 3)); }
  if (nlhs || strcmp(fn, "feval")) sim_harness_error("host: callback of %s", fn);
  if (call_fault == HF_CALLBACK && host_callbacks == call_at) { host_fault_fired++; snprintf(host_error, sizeof host_error, "Error in the callback."); raise_(H_INTERRUPT); }
  return 0;
}
int mexEvalString(const char *s) { (void)s; sim_harness_error("mexEvalString"); } int mexAtExit(void (*f)(void)) { (void)f; return 0; } void mexLock(void) {} void mexUnlock(void) {}
void mexMakeArrayPersistent(mxArray *a) { (void)a; sim_harness_error("mexMakeArrayPersistent"); } void mexMakeMemoryPersistent(void *p) { (void)p; sim_harness_error("mexMakeMemoryPersistent"); }
const char *mexFunctionName(void) { return call_name; }
/* ---- the call ---- */
static void check_result(mxArray *a, const char *what, int depth) {
  if (a->magic != MAGIC) sim_violation("bad-result", "%s: %s is not an array", call_name, what);
  if (a->where == 1) sim_violation("input-returned", "%s: %s is one of the arguments", call_name, what);
  if (a->where == 2) sim_violation("bad-result", "%s: %s was destroyed", call_name, what);
  if (a->seen) sim_violation("bad-result", "%s: %s is part of the results twice", call_name, what);
  a->seen = 1;
  if (a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS) { for (size_t i = 0; i < nsub(a); i++) if (a->sub[i]) check_result(a->sub[i], "part of a result", depth + 1); return; }
  size_t need = nel(a) * esz[a->cls], off, size; int live; u64 ser;
  for (int k = 0; k < 2; k++) { void *p = k ? a->imag : a->data; if (!p) { if (need && !k) sim_violation("bad-result", "%s: %s of %zu elements has no data", call_name, what, nel(a)); continue; }
    int own; if (!mem_is_live(p, &own, &ser) || own != OWN_A) sim_violation("bad-result", "%s: the data of %s is not memory of the host", call_name, what);
    mem_find(p, &live, &ser, &off, &size); if (size < need) sim_violation("bad-result", "%s: %s takes %zu bytes and has %zu", call_name, what, need, size); }
}
static void keep(mxArray *a) { /* a result becomes an array of the workspace */
  size_t n = nel(a) * esz[a->cls]; if (a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS || !n) a->data = a->imag = 0;
  if (a->data) { void *p = mem_alloc(n, OWN_USER, 0); memcpy(p, a->data, n); a->data = p; } if (a->imag) { void *p = mem_alloc(n, OWN_USER, 0); memcpy(p, a->imag, n); a->imag = p; }
  a->where = 1; a->seen = 0; for (size_t i = 0; i < nsub(a); i++) if (a->sub[i]) keep(a->sub[i]);
}
void host_abort(void); void host_abort(void) { sim_violation("abort", "%s ends the host", call_name); }
int host_call(const char *name, MexFn fn, int nlhs, mxArray **out, int nin, mxArray **in, int fault, u64 at) {
  jmp_buf jb; volatile int st = 0; size_t no = nlhs > 1 ? (size_t)nlhs : 1; u64 mark = mem_mark();
  mxArray **po = mem_alloc(no * sizeof *po, OWN_USER, 1); const mxArray **pi = mem_alloc((size_t)nin * sizeof *pi, OWN_USER, 0); /* as long as the call, as in Octave */
  u64 h0 = 1; for (int i = 0; i < nin; i++) { pi[i] = in[i]; h0 = ws_hash(in[i], h0); }
  call_name = name; call_fault = fault; call_at = at; host_requests = host_messages = host_callbacks = host_fault_fired = 0; host_error[0] = 0; ntemps = 0;
  call_jmp = &jb; st = setjmp(jb);
  if (!st) { in_workspace = 0; paint_stack(); fn(nlhs, po, nin, pi); }
  call_jmp = 0; call_fault = 0;
  u64 h1 = 1; for (int i = 0; i < nin; i++) h1 = ws_hash(in[i], h1);
  if (h0 != h1) sim_violation("input-changed", "%s changed its arguments", name);
  for (int i = 0; i < nin; i++) if (st == 0 && pi[i] != in[i]) sim_violation("input-changed", "%s changed its list of arguments", name);
  if (!st) for (int i = 0; i < nlhs; i++) if (!po[i]) { st = H_ERROR; snprintf(host_error, sizeof host_error, "Output argument %d is not assigned.", i + 1); break; }
  for (size_t i = 0; i < no; i++) { out[i] = 0; if (!st && po[i]) { check_result(po[i], "a result", 0); } }
  for (size_t i = 0; i < no; i++) if (!st && po[i]) { keep(po[i]); out[i] = po[i]; }
  in_workspace = 1;
  for (size_t i = 0; i < ntemps; i++) if (temps[i]->where == 0) { temps[i]->where = 2; free_dims(temps[i]); }
  ntemps = 0; mem_release_all_since(OWN_A, mark);
  if (mem_live_since(OWN_RAW, mark)) { char d[300]; mem_describe_live(OWN_RAW, mark, d, sizeof d); sim_violation("leak", "%s: %zu block(s) taken from the C library are not returned: %s", name, mem_live_since(OWN_RAW, mark), d); }
  mem_free_own(po, OWN_USER); mem_free_own((void *)pi, OWN_USER);
  return st;
}
/* ---- arrays of the workspace ---- */
mxArray *ws_num(int cls, int nd, const size_t *d) { return fresh(cls, nd, d, 0); }
mxArray *ws_2(int cls, size_t m, size_t n) { size_t d[2] = {m, n}; return fresh(cls, 2, d, 0); }
mxArray *ws_3(int cls, size_t a, size_t b, size_t c) { size_t d[3] = {a, b, c}; return fresh(cls, 3, d, 0); }
mxArray *ws_d(double v) { mxArray *a = ws_2(mxDOUBLE_CLASS, 1, 1); *(double *)a->data = v; return a; }
mxArray *ws_str(const char *s) { return mxCreateString(s); }
mxArray *ws_fn(void) { size_t d[2] = {1, 1}; return fresh(mxFUNCTION_CLASS, 2, d, 0); }
mxArray *ws_struct(int nf, const char **f) { return mxCreateStructMatrix(1, 1, nf, f); }
void ws_set(mxArray *a, int f, mxArray *v) { attach(a, (size_t)f, v); }
mxArray *ws_cell(size_t n) { return mxCreateCellMatrix(1, n); }
size_t ws_n(const mxArray *a) { return nel(a); }
double ws_at(const mxArray *a, size_t i) { return at_(a, i); }
void ws_put(mxArray *a, size_t i, double v) {
  switch (a->cls) {
    case mxLOGICAL_CLASS: ((u8 *)a->data)[i] = v != 0; break; case mxUINT8_CLASS: ((u8 *)a->data)[i] = (u8)(i64)v; break; case mxINT8_CLASS: ((int8_t *)a->data)[i] = (int8_t)(i64)v; break; case mxCHAR_CLASS: case mxUINT16_CLASS: ((uint16_t *)a->data)[i] = (uint16_t)(i64)v; break; case mxINT16_CLASS: ((int16_t *)a->data)[i] = (int16_t)(i64)v; break;
    case mxINT32_CLASS: ((int32_t *)a->data)[i] = (int32_t)(i64)v; break; case mxUINT32_CLASS: ((u32 *)a->data)[i] = (u32)(i64)v; break; case mxINT64_CLASS: ((i64 *)a->data)[i] = (i64)v; break; case mxUINT64_CLASS: ((u64 *)a->data)[i] = (u64)(i64)v; break;
    case mxSINGLE_CLASS: ((float *)a->data)[i] = (float)v; break; default: ((double *)a->data)[i] = v; }
}
mxArray *ws_convert(const mxArray *a, int cls) { mxArray *b = fresh(cls, a->nd, a->dims, 0); if (a->data && cls == (int)a->cls) memcpy(b->data, a->data, nel(a) * esz[cls]); else if (a->data) for (size_t i = 0; i < nel(a); i++) { double v = at_(a, i); ws_put(b, i, fabs(v) < 1e9 ? v : 0); } return b; }
mxArray *ws_resize(const mxArray *a, int nd, const size_t *d) { mxArray *b = fresh(a->cls, nd, d, 0); size_t n = nel(b), m = nel(a); if (a->data && m) for (size_t i = 0; i < n; i++) ws_put(b, i, at_(a, i % m)); return b; }
mxArray *ws_complex(const mxArray *a) { mxArray *b = fresh(a->cls, a->nd, a->dims, 1); if (a->data) memcpy(b->data, a->data, nel(a) * esz[a->cls]); return b; }
mxArray *ws_sparse(const mxArray *a) { mxArray *b = fresh(mxDOUBLE_CLASS, 2, a->dims, 0); b->sparse = 1; mem_free_own(b->data, OWN_USER); b->data = mem_alloc(8, OWN_USER, 1); b->ir = mem_alloc(8, OWN_USER, 1); b->jc = mem_alloc(8 * (a->dims[1] + 1), OWN_USER, 1); b->nzmax = 1; return b; }
u64 ws_hash(const mxArray *a, u64 h) {
  if (!a) return mix64(h, 99); h = mix64(h, (u64)a->cls * 64 + (u64)a->cplx * 2 + (u64)a->sparse); for (int i = 0; i < a->nd; i++) h = mix64(h, a->dims[i]);
  if (a->sparse) return h; size_t n = nel(a) * esz[a->cls];
  if (a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS) { for (int i = 0; i < a->nf; i++) h = hash_bytes(a->fn[i], strlen(a->fn[i]), h); for (size_t i = 0; i < nsub(a); i++) h = ws_hash(a->sub[i], h); return h; }
  if (a->data) h = hash_bytes(a->data, n, h); if (a->imag) h = hash_bytes(a->imag, n, h); return h;
}
void ws_out(Out *o, const char *label, const mxArray *a) {
  if (!a) { out_i(o, "no array", 0); return; } out_i(o, "class", a->cls); out_i(o, "dimensions", a->nd); for (int i = 0; i < a->nd; i++) out_i(o, "size", (i64)a->dims[i]);
  if (a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS) { for (size_t i = 0; i < nsub(a); i++) ws_out(o, label, a->sub[i]); return; }
  if (!a->data) return; size_t n = nel(a);
  switch (a->cls) { case mxDOUBLE_CLASS: out_d(o, label, a->data, n); break; case mxSINGLE_CLASS: out_f(o, label, a->data, n); break; default: out_u8(o, label, a->data, n * esz[a->cls]); }
}
