#include "amsym.h"
#include <amtl/am-platform.h>
#include <amtl/am-bits.h>
#include <amtl/am-arithmetic.h>
typedef unsigned __int128 u128;
// The oracle computes sums and products in 128 bits, where they are exact.
template <typename T> static bool fits(u128 v) { return v <= (u128)(T)~T(0); }

template <typename T> static void add_generic() {
    T a = amsym_any<T>("a"), b = amsym_any<T>("b");
    bool r = ke::IsUintAddSafe<T>(a, b);
    CHECK(r == fits<T>((u128)a + b));
    amsym_observe(r);
}
template <typename T> static void mul_generic() {
    T a = amsym_any<T>("a"), b = amsym_any<T>("b");
    bool r = ke::IsUintMultiplySafe<T>(a, b);
    CHECK(r == fits<T>((u128)a * b));
    amsym_observe(r);
}
ENTRY(add_safe8) { add_generic<uint8_t>(); COVER("end"); }
ENTRY(add_safe16) { add_generic<uint16_t>(); COVER("end"); }
ENTRY(mul_safe8) { mul_generic<uint8_t>(); COVER("end"); }
ENTRY(mul_safe16) { mul_generic<uint16_t>(); COVER("end"); }
ENTRY(add_safe32) {
    uint32_t a = amsym_any<uint32_t>("a"), b = amsym_any<uint32_t>("b");
    bool r = ke::IsUint32AddSafe(a, b);
    CHECK(r == fits<uint32_t>((u128)a + b));
    CHECK(ke::IsUintAddSafe<uint32_t>(a, b) == r);
    amsym_observe(r);
    COVER("end");
}
ENTRY(add_safe64) {
    uint64_t a = amsym_any<uint64_t>("a"), b = amsym_any<uint64_t>("b");
    bool r = ke::IsUint64AddSafe(a, b);
    CHECK(r == fits<uint64_t>((u128)a + b));
    CHECK(ke::IsUintAddSafe<uint64_t>(a, b) == r);
    CHECK(ke::IsUintPtrAddSafe(a, b) == r);
    amsym_observe(r);
    COVER("end");
}
ENTRY(mul_safe32) {
    uint32_t a = amsym_any<uint32_t>("a"), b = amsym_any<uint32_t>("b");
    bool r = ke::IsUint32MultiplySafe(a, b);
    CHECK(r == fits<uint32_t>((u128)a * b));
    amsym_observe(r);
    COVER("end");
}
ENTRY(mul_safe64) {
    uint64_t a = amsym_any<uint64_t>("a"), b = amsym_any<uint64_t>("b");
    bool r = ke::IsUint64MultiplySafe(a, b);
    CHECK(r == fits<uint64_t>((u128)a * b));
    amsym_observe(r);
    COVER("end");
}
ENTRY(mul_safeptr) {
    uint64_t a = amsym_any<uint64_t>("a"), b = amsym_any<uint64_t>("b");
    bool r = ke::IsUintPtrMultiplySafe(a, b);
    CHECK(r == fits<uint64_t>((u128)a * b));
    amsym_observe(r);
    COVER("end");
}
ENTRY(try_add32) {
    uint32_t a = amsym_any<uint32_t>("a"), b = amsym_any<uint32_t>("b"), out = amsym_any<uint32_t>("out"), old = out;
    bool r = ke::TryUint32Add(a, b, &out);
    CHECK(r == fits<uint32_t>((u128)a + b));
    if (r) CHECK((u128)out == (u128)a + b);
    else CHECK(out == old);
    amsym_observe(r); amsym_observe(out);
    COVER("end");
}
ENTRY(try_add64) {
    uint64_t a = amsym_any<uint64_t>("a"), b = amsym_any<uint64_t>("b"), out = amsym_any<uint64_t>("out"), old = out;
    bool r = ke::TryUint64Add(a, b, &out);
    CHECK(r == fits<uint64_t>((u128)a + b));
    if (r) CHECK((u128)out == (u128)a + b);
    else CHECK(out == old);
    amsym_observe(r); amsym_observe(out);
    COVER("end");
}
ENTRY(try_mul64) {
    uint64_t a = amsym_any<uint64_t>("a"), b = amsym_any<uint64_t>("b"), out = amsym_any<uint64_t>("out"), old = out;
    bool r = ke::TryUint64Multiply(a, b, &out);
    CHECK(r == fits<uint64_t>((u128)a * b));
    if (r) CHECK(out == a * b);
    else CHECK(out == old);
    amsym_observe(r);
    COVER("end");
}
// Aliased output: the result may be stored over an operand.
ENTRY(try_alias) {
    uint64_t a = amsym_any<uint64_t>("a"), b = amsym_any<uint64_t>("b"), x = a;
    bool r = ke::TryUint64Add(x, b, &x);
    CHECK(x == (r ? a + b : a));
    COVER("end");
}
