#include "amsym.h"
#include <type_traits>
#include <amtl/am-flags.h>
#include <amtl/am-enum.h>
#define KIND(N, I)                                                              \
    enum class F##N : I { zero = 0, one = 1, top = (I)((I)1 << (sizeof(I) * 8 - 2)) }; \
    enum class E##N : I { zero = 0, one = 1 };                                  \
    KE_DEFINE_ENUM_OPERATORS(E##N)                                              \
    KE_DEFINE_ENUM_COMPARATORS(E##N, I)
KIND(U8, uint8_t) KIND(S8, int8_t) KIND(U16, uint16_t) KIND(S16, int16_t) KIND(U32, uint32_t) KIND(S32, int32_t) KIND(U64, uint64_t) KIND(S64, int64_t)
enum Plain { kA = 1, kB = 2, kHigh = 0x7fffffff, kLow = -0x7fffffff - 1 };
template <typename T> static T mk(uint64_t v) { return static_cast<T>(static_cast<typename ke::enum_integral_type<T>::type>(v)); }
// The bits of a value, and nothing above its width.
template <typename I> static uint64_t low(I i) { typedef typename std::make_unsigned<I>::type U; return (uint64_t)(U)i; }
template <typename T> static void flags() {
    typedef ke::Flags<T> F;
    typedef typename F::IntType I;
    static_assert(sizeof(I) == sizeof(T) && std::is_same<I, typename std::underlying_type<T>::type>::value, "the integer type is the underlying one");
    const uint64_t mask = sizeof(I) == 8 ? ~0ull : (1ull << (sizeof(I) * 8)) - 1;
    uint64_t a = amsym_any<I>("a") & mask, b = amsym_any<I>("b") & mask;
    const F x(mk<T>(a)), y = mk<T>(b);
    const T ty = mk<T>(b);
    auto bits = [](const F& f) { return low(f.bits()); };
    CHECK(bits(x) == a && bits(y) == b && low(static_cast<I>(x.get())) == a);
    CHECK(x.bits() == static_cast<I>(mk<T>(a)));
    CHECK((bool)x == (a != 0) && !x == (a == 0));
    CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x == ty) == (a == b) && (x != ty) == (a != b));
    CHECK(bits(x + y) == (a | b) && bits(x | y) == (a | b) && bits(x + ty) == (a | b) && bits(x | ty) == (a | b));
    CHECK(bits(x & y) == (a & b) && bits(x & ty) == (a & b));
    CHECK(bits(x ^ y) == (a ^ b) && bits(x ^ ty) == (a ^ b));
    CHECKM(bits(x - y) == (a & ~b) && bits(x - ty) == (a & ~b), "difference keeps exactly the bits not in the other set");
    F z(x), w;
    CHECK(!w && bits(w) == 0 && w.bits() == 0);
    F& r1 = (z += y); CHECK(&r1 == &z && bits(z) == (a | b));
    z = x; F& r2 = (z -= y); CHECK(&r2 == &z && bits(z) == (a & ~b));
    z = x; F& r3 = (z |= y); CHECK(&r3 == &z && bits(z) == (a | b));
    z = x; F& r4 = (z &= y); CHECK(&r4 == &z && bits(z) == (a & b));
    z = x; F& r5 = (z ^= y); CHECK(&r5 == &z && bits(z) == (a ^ b));
    z = x; z += z; CHECK(bits(z) == a);
    z -= z; CHECK(bits(z) == 0 && !z);
    z = x; z ^= z; CHECK(bits(z) == 0);
    z = x; z &= z; CHECK(bits(z) == a);
    w = z; CHECK(w == x && bits(x) == a && bits(y) == b);
    w = ty; CHECK(w == y);
    w -= ty; CHECK(!w);
    CHECK(sizeof(F) == sizeof(T));
}
template <typename T, typename I> static void ops() {
    const uint64_t mask = sizeof(I) == 8 ? ~0ull : (1ull << (sizeof(I) * 8)) - 1;
    I a = amsym_any<I>("a"), b = amsym_any<I>("b");
    uint64_t ua = low(a), ub = low(b);
    const T x = T(a), y = T(b);
    auto bits = [](T t) { return low(static_cast<I>(t)); };
    CHECK(bits(x | y) == (ua | ub));
    CHECK(bits(x & y) == (ua & ub));
    CHECK(bits(x ^ y) == (ua ^ ub));
    CHECKM(bits(~x) == (~ua & mask), "complement flips exactly the bits of the width");
    CHECK(!x == (ua == 0));
    T z = x;
    T& r1 = (z |= y); CHECK(&r1 == &z && bits(z) == (ua | ub));
    z = x; T& r2 = (z &= y); CHECK(&r2 == &z && bits(z) == (ua & ub));
    z = x; T& r3 = (z ^= y); CHECK(&r3 == &z && bits(z) == (ua ^ ub));
    z = x; z |= z; CHECK(z == x);
    z ^= z; CHECK(!z);
    CHECK((x == b) == (a == b) && (b == x) == (a == b));
    CHECK((x != b) == (a != b) && (b != x) == (a != b));
    CHECK(bits(x & ~y) == (ua & ~ub));
}
ENTRY(flags8) { flags<FU8>(); flags<FS8>(); COVER("end"); }
ENTRY(flags16) { flags<FU16>(); flags<FS16>(); COVER("end"); }
ENTRY(flags32) { flags<FU32>(); flags<FS32>(); flags<Plain>(); COVER("end"); }
ENTRY(flags64) { flags<FU64>(); flags<FS64>(); COVER("end"); }
ENTRY(flags_with_operators) { flags<EU8>(); flags<ES32>(); flags<EU64>(); COVER("end"); }
ENTRY(enum8) { ops<EU8, uint8_t>(); ops<ES8, int8_t>(); COVER("end"); }
ENTRY(enum16) { ops<EU16, uint16_t>(); ops<ES16, int16_t>(); COVER("end"); }
ENTRY(enum32) { ops<EU32, uint32_t>(); ops<ES32, int32_t>(); COVER("end"); }
ENTRY(enum64) { ops<EU64, uint64_t>(); ops<ES64, int64_t>(); COVER("end"); }
