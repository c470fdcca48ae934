#include "amsym.h"
#include <math.h>
#include <string.h>
#include "compat/stdcxx.cpp"
// The C library's functions: any function of their operands. Each records what it was given and gives an arbitrary result.
template <typename T> static uint64_t bits(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof v); return r; }
enum Fn { POW, ATAN2, LOG, ACOS, ASIN, NONE };
static Fn gFn;
static bool gFloat;
static uint64_t gX, gY, gResult;
static int gCalls;
template <typename T> static T call(Fn f, T x, T y) {
    CHECKM(f == gFn && (sizeof(T) == 4) == gFloat, "the corresponding function is called");
    CHECKM(bits(x) == gX && (f > ATAN2 || bits(y) == gY), "the operands are passed in order");
    gCalls++;
    T r;
    memcpy(&r, &gResult, sizeof r);
    return r;
}
extern "C" double __wrap_pow(double x, double y) { return call(POW, x, y); }
extern "C" double __wrap_atan2(double x, double y) { return call(ATAN2, x, y); }
extern "C" double __wrap_log(double x) { return call(LOG, x, x); }
extern "C" double __wrap_acos(double x) { return call(ACOS, x, x); }
extern "C" double __wrap_asin(double x) { return call(ASIN, x, x); }
extern "C" float __wrap_powf(float x, float y) { return call(POW, x, y); }
extern "C" float __wrap_atan2f(float x, float y) { return call(ATAN2, x, y); }
extern "C" float __wrap_logf(float x) { return call(LOG, x, x); }
extern "C" float __wrap_acosf(float x) { return call(ACOS, x, x); }
extern "C" float __wrap_asinf(float x) { return call(ASIN, x, x); }
template <typename T> static void one(Fn f, T (*binary)(T, T), T (*unary)(T)) {
    T x = amsym_any<T>("x"), y = amsym_any<T>("y");
    gFn = f;
    gFloat = sizeof(T) == 4;
    gX = bits(x);
    gY = bits(y);
    T r0 = amsym_any<T>("result");
    gResult = bits(r0);
    gCalls = 0;
    T r = binary ? binary(x, y) : unary(x);
    CHECKM(bits(r) == gResult, "the symbol returns what the library function returns");
    CHECK(gCalls >= 1);
}
ENTRY(shims) {
    switch (amsym_choice(10, "symbol")) {
    case 0: one<double>(POW, __pow_finite, nullptr); break;
    case 1: one<double>(ATAN2, __atan2_finite, nullptr); break;
    case 2: one<double>(LOG, nullptr, __log_finite); break;
    case 3: one<double>(ACOS, nullptr, __acos_finite); break;
    case 4: one<double>(ASIN, nullptr, __asin_finite); break;
    case 5: one<float>(POW, __powf_finite, nullptr); break;
    case 6: one<float>(ATAN2, __atan2f_finite, nullptr); break;
    case 7: one<float>(LOG, nullptr, __logf_finite); break;
    case 8: one<float>(ACOS, nullptr, __acosf_finite); break;
    default: one<float>(ASIN, nullptr, __asinf_finite); break;
    }
    COVER("end");
}
