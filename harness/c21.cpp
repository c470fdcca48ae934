#include "amsym.h"
#include <string.h>
#include <amtl/am-float.h>
template <typename T, typename B> static T fromBits(B b) { T v; memcpy(&v, &b, sizeof v); return v; }
template <typename T, typename B> static B toBits(T v) { B b; memcpy(&b, &v, sizeof b); return b; }
ENTRY(classify32) {
    uint32_t b = amsym_any<uint32_t>("bits");
    float f = fromBits<float>(b);
    uint32_t e = b >> 23 & 0xff, m = b & 0x7fffff;
    CHECKM(ke::IsInfinite(f) == (e == 0xff && m == 0), "IsInfinite is true exactly for the infinities");
    CHECKM(ke::IsNaN(f) == (e == 0xff && m != 0), "IsNaN is true exactly for NaNs");
    COVER("end");
}
ENTRY(classify64) {
    uint64_t b = amsym_any<uint64_t>("bits");
    double f = fromBits<double>(b);
    uint64_t e = b >> 52 & 0x7ff, m = b & 0xfffffffffffffull;
    CHECKM(ke::IsInfinite(f) == (e == 0x7ff && m == 0), "IsInfinite is true exactly for the infinities");
    CHECKM(ke::IsNaN(f) == (e == 0x7ff && m != 0), "IsNaN is true exactly for NaNs");
    COVER("end");
}
// The C library's remainder, as an unknown function: whatever it returns for (left, right) is what must come back.
static uint64_t gLeft, gRight, gResult;     // as doubles
static double remainderOf(double l, double r) {
    uint64_t lb = toBits<double, uint64_t>(l), rb = toBits<double, uint64_t>(r);
    CHECKM(lb == gLeft || l != l, "the left operand is passed first, unchanged");
    CHECKM(rb == gRight || r != r, "the right operand is passed second, unchanged");
    return fromBits<double>(gResult);
}
extern "C" double __wrap_fmod(double l, double r) { return remainderOf(l, r); }
extern "C" float __wrap_fmodf(float l, float r) { return (float)remainderOf(l, r); }
// Other remainders: unknown too, and not what is asked for.
extern "C" double __real_remainder(double, double);
extern "C" float __real_remainderf(float, float);
extern "C" double __wrap_remainder(double l, double r) { return amsym_any<double>("ieee remainder"); }
extern "C" float __wrap_remainderf(float l, float r) { return amsym_any<float>("ieee remainder"); }
// What the C standard (Annex F) fixes of fmod, independent of the library.
template <typename T> static void contract(T l, T r, T want) {
    T inf = (T)__builtin_inf();
    if (l != l || r != r || l == inf || l == -inf || r == 0) amsym_assume(want != want);
    else if (r == inf || r == -inf || l == 0) amsym_assume(!memcmp(&want, &l, sizeof l));
    else amsym_assume(want == want);
}
template <typename T, typename B> static bool same(T a, T b) { return toBits<T, B>(a) == toBits<T, B>(b) || (a != a && b != b); }
ENTRY(modulo64) {
    gLeft = amsym_any<uint64_t>("left");
    gRight = amsym_any<uint64_t>("right");
    gResult = amsym_any<uint64_t>("result");
    double l = fromBits<double>(gLeft), r = fromBits<double>(gRight), want = fromBits<double>(gResult);
    contract(l, r, want);
    double got = ke::FloatModulo(l, r);
    bool ok = same<double, uint64_t>(got, want);
    CHECKM(ok, "the C library's remainder is returned unchanged");
    COVER("end");
}
ENTRY(modulo32) {
    float l = fromBits<float>(amsym_any<uint32_t>("left")), r = fromBits<float>(amsym_any<uint32_t>("right")), want = fromBits<float>(amsym_any<uint32_t>("result"));
    gLeft = toBits<double, uint64_t>(l);
    gRight = toBits<double, uint64_t>(r);
    gResult = toBits<double, uint64_t>(want);
    contract(l, r, want);
    float got = ke::FloatModulo(l, r);
    bool ok = same<float, uint32_t>(got, want);
    CHECKM(ok, "the C library's remainder is returned unchanged");
    COVER("end");
}
