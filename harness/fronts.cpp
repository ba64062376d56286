// One function per front end and priority (compiled to LLVM IR, never run): what does it pass to the constructor of the stream?
// vroot_<PRIORITY>_<kind>: kinds ending in "0" use channel 0, category 0, identify 0.
#include "fn_log.h"
#define F(NAME) extern "C" __attribute__((used)) void vroot_##NAME(int ch, int cat, long long id, int a)
#define LEVEL(P, S, L, LV, FM, FS) \
F(P##_stream) { Log##S##Stream(ch, cat, id) << a; } \
F(P##_stream0) { Log##S() << a; } \
F(P##_pack) { Log##S##Pack(ch, cat, id, a, "x"); } \
F(P##_pack0) { Pack##S(a, "x"); } \
F(P##_macro) { LOG_##P(ch, cat, id, a << "x"); } \
F(P##_macro0) { LOG##L(a << "x"); } \
F(P##_format) { LOGFMT_##P(ch, cat, id, "%d", a); } \
F(P##_format0) { LOGFMT##L("%d", a); }
LEVEL(TRACE, Trace, T, , , )
LEVEL(DEBUG, Debug, D, , , )
LEVEL(INFO, Info, I, , , )
LEVEL(WARN, Warn, W, , , )
LEVEL(ERROR, Error, E, , , )
LEVEL(ALARM, Alarm, A, , , )
LEVEL(FATAL, Fatal, F, , , )
