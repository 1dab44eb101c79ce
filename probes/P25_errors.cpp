// Error reporting: the macro, the mapping and the exception object
#include "probe_std.h"
static const char* vp_here;
static int vp_thrown, vp_code, vp_errno, vp_fun, vp_file; static unsigned vp_line; static double vp_val;
static inline bool same(const char* a, const char* b) { unsigned i = 0; for(; a[i] && a[i] == b[i]; i++); return a[i] == b[i]; }
struct vp_sink {};
#ifdef MODE_THROW
#define THEORETICA_THROW_EXCEPTIONS
#endif
#ifdef MODE_ONLY
#define THEORETICA_ONLY_EXCEPTIONS
#endif
#include "core/error.h"
using namespace theoretica;
#if defined(MODE_THROW) || defined(MODE_ONLY)
static inline void operator<<(vp_sink, const math_exception& e) { vp_thrown++; vp_code = e.err_code(); vp_line = e.get_line_number(); vp_val = e.get_value(); vp_errno = errno; vp_fun = same(e.get_function_name().c_str(), "some function"); vp_file = same(e.get_file_name().c_str(), vp_here); }
#define throw vp_sink() <<
#endif
#define CODES(X) X(NO_ERROR, 0) X(DIV_BY_ZERO, ERANGE) X(OUT_OF_DOMAIN, EDOM) X(OUT_OF_RANGE, ERANGE) X(IMPOSSIBLE_OPERATION, EDOM) X(NO_ALGO_CONVERGENCE, ERANGE) X(INVALID_ARGUMENT, EINVAL)
// --- mapping | src/core/error.h | every error code maps to its errno value
#define X(C, N) EQI(#C, th_errcode_to_errno(C), N);
CODES(X)
#undef X
EQI("unknown", th_errcode_to_errno(MATH_ERRCODE(0x40)), 0); EQI("codes", NO_ERROR == 0 && DIV_BY_ZERO == 1 && OUT_OF_DOMAIN == 2 && OUT_OF_RANGE == 4 && IMPOSSIBLE_OPERATION == 8 && NO_ALGO_CONVERGENCE == 16 && INVALID_ARGUMENT == 32, 1);
// --- nan | src/core/error.h | NaN and infinity are recognised and nothing else is
{ const double x = IN(0); ISNAN("nan", nan()); EQI("is nan", is_nan(nan()), 1); EQI("finite is not nan", is_nan(x), 0); EQI("inf is not nan", is_nan(inf()), 0); EQI("inf", is_inf(inf()), 1); EQI("minus inf", is_inf(-inf()), 1); EQI("finite is not inf", is_inf(x), 0); EQI("nan is not inf", is_inf(nan()), 0); EQI("inf positive", inf() > x, 1); EQI("integer", is_nan(5), 0); }
// --- errno_mode | src/core/error.h | by default a report sets errno and nothing else
#define X(C, N) { errno = 77; TH_MATH_ERROR("f", IN(0), C); EQI(#C, errno, N); }
CODES(X)
#undef X
// --- throw_mode | src/core/error.h | with exceptions enabled a report sets errno and throws the error with its origin | def=MODE_THROW
#define X(C, N) { errno = 77; vp_thrown = 0; vp_here = __FILE__; const unsigned l = __LINE__; TH_MATH_ERROR("some function", IN(0), C); EQI(#C " errno", errno, N); EQI(#C " errno before throw", vp_errno, N); EQI(#C " thrown", vp_thrown, 1); EQI(#C " code", vp_code, C); EQI(#C " line", vp_line, l); EQ(#C " value", vp_val, IN(0)); EQI(#C " function", vp_fun, 1); EQI(#C " file", vp_file, 1); }
CODES(X)
#undef X
// --- only_mode | src/core/error.h | with exceptions only a report throws and leaves errno alone | def=MODE_ONLY
#define X(C, N) { errno = 77; vp_thrown = 0; vp_here = __FILE__; const unsigned l = __LINE__; TH_MATH_ERROR("some function", IN(0), C); EQI(#C " errno", errno, 77); EQI(#C " thrown", vp_thrown, 1); EQI(#C " code", vp_code, C); EQI(#C " line", vp_line, l); EQ(#C " value", vp_val, IN(0)); EQI(#C " function", vp_fun, 1); EQI(#C " file", vp_file, 1); }
CODES(X)
#undef X
// --- exception | src/core/error.h | the exception carries the code, function, file, line and value it was built with | def=MODE_THROW
#define X(C, N) { const math_exception e(C, "a function", "file.h", 1234 + (unsigned) C, IN(C)); EQI(#C " code", e.err_code(), C); EQI(#C " line", e.get_line_number(), 1234 + (unsigned) C); EQ(#C " value", e.get_value(), IN(C)); EQI(#C " function", same(e.get_function_name().c_str(), "a function"), 1); EQI(#C " file", same(e.get_file_name().c_str(), "file.h"), 1); }
CODES(X)
#undef X
// --- what | src/core/error.h | every error has its own description | def=MODE_THROW
{ const char* t[8]; int n = 0;
#define X(C, N) { const math_exception e(C, "f", "g", 1, 0); t[n] = e.what(); n++; }
CODES(X)
#undef X
for(int i = 0; i < 7; i++) for(int j = i + 1; j < 7; j++) EQI("distinct", same(t[i], t[j]), 0); EQI("no error", same(t[0], "No error"), 1); EQI("division", same(t[1], "Division by zero"), 1); EQI("domain", same(t[2], "An argument was out of the domain of the called function"), 1); EQI("range", same(t[3], "The result would be out of range"), 1); EQI("impossible", same(t[4], "A mathematically impossible operation was requested"), 1); EQI("convergence", same(t[5], "The algorithm did not converge"), 1); EQI("argument", same(t[6], "Invalid argument size or value"), 1); }
