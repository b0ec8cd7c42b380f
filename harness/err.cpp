// Extraction unit: wrappers that only call the real ErrNum / Error members (include/error.h), so that their code is emitted.
#include <error.h>
extern "C" {
int32_t w_pair(int set, int msg) { return (int32_t)ErrNum(set, msg); }
int32_t w_int(int32_t v) { return (int32_t)ErrNum(v); }
int32_t w_none() { return (int32_t)ErrNum(); }
int w_set(int set, int msg) { ErrNum e(set, msg); return e.set(); }
int w_msg(int set, int msg) { ErrNum e(set, msg); return e.msg(); }
int w_set_i(int32_t v) { ErrNum e(v); return e.set(); }
int w_msg_i(int32_t v) { ErrNum e(v); return e.msg(); }
int32_t w_copy(int32_t v) { ErrNum e(v); ErrNum f(e); ErrNum g; g = f; return (int32_t)g; }
bool w_eq(int32_t a, int32_t b) { ErrNum x(a), y(b); return x == y; }
bool w_ne(int32_t a, int32_t b) { ErrNum x(a), y(b); return x != y; }
bool w_eqi(int32_t a, int b) { ErrNum x(a); return x == b; }
bool w_lti(int32_t a, int b) { ErrNum x(a); return x < b; }
bool w_gti(int32_t a, int b) { ErrNum x(a); return x > b; }
int32_t w_flag() { return ErrNum::ERR_FLAG; }
int32_t w_cust() { return ErrNum::ERR_CUST; }
// Error: the number, text and parameters travel with copies and assignments
int32_t w_err_num(int32_t v, const char* d, const void* p) { Error e(v, d, p); Error f(e); Error g; g = f; { Error h(v+1, 0, 0); h = g; e = h; } ErrNum n = e; return (int32_t)n; }
int32_t w_err_int(int32_t v, const char* d, const void* p) { Error e(v, d, p); Error f(e); Error g; g = f; return (int32_t)g; }
const char* w_err_text(int32_t v, const char* d, const void* p) { Error e(v, d, p); Error f; f = e; e = Error(); return f.default_text(); }
const void* w_err_parm(int32_t v, const char* d, const void* p) { Error e(v, d, p); Error f; f = e; e = Error(); return f.parameters(); }
int32_t w_err_none() { Error e; ErrNum n = e; return (int32_t)n; }
const char* w_err_none_text() { Error e; return e.default_text(); }
}
