/* The simulated host of the toolbox gateways: arrays, memory that goes back at the end of a call, errors that leave the gateway, callbacks. */
#ifndef HOST_H
#define HOST_H
#include "host/mex.h"
#undef printf
#include "sim.h"
typedef void (*MexFn)(int, mxArray **, int, const mxArray **);
enum { H_OK = 0, H_ERROR /* raised by the gateway */, H_REFUSED /* the host had no memory */, H_INTERRUPT /* the user stopped it */ };
enum { HF_NONE = 0, HF_MEMORY, HF_STOP, HF_CALLBACK };
/* calls a gateway: out[] receives workspace arrays; fault: at the at-th request/message/callback */
int host_call(const char *name, MexFn fn, int nlhs, mxArray **out, int nin, mxArray **in, int fault, u64 at);
extern u64 host_requests, host_messages, host_callbacks; /* of the last call */
extern char host_error[1200];
extern u64 host_fault_fired;
/* arrays of the workspace */
mxArray *ws_num(int cls, int nd, const size_t *dims);
mxArray *ws_2(int cls, size_t m, size_t n); mxArray *ws_3(int cls, size_t a, size_t b, size_t c); mxArray *ws_d(double v); mxArray *ws_str(const char *s); mxArray *ws_fn(void);
mxArray *ws_struct(int nf, const char **f); void ws_set(mxArray *a, int f, mxArray *v); mxArray *ws_cell(size_t n);
void ws_put(mxArray *a, size_t i, double v); double ws_at(const mxArray *a, size_t i); size_t ws_n(const mxArray *a);
mxArray *ws_convert(const mxArray *a, int cls);            /* the same numbers in another class */
mxArray *ws_resize(const mxArray *a, int nd, const size_t *d); /* the same data as far as it goes in another shape */
mxArray *ws_complex(const mxArray *a); mxArray *ws_sparse(const mxArray *a);
void ws_out(Out *o, const char *label, const mxArray *a);
u64 ws_hash(const mxArray *a, u64 h);
#endif
