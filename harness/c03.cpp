#include "amsym.h"
#include <amtl/am-bits.h>
ENTRY(align) {
    unsigned k = amsym_choice(64, "log2(alignment)");
    size_t a = size_t(1) << k;
    size_t n = amsym_any<size_t>("count");
    // The smallest multiple of a not below n exists in 64 bits.
    amsym_assume(n <= size_t(0) - a);
    size_t r = ke::Align(n, a);
    CHECK(r >= n);
    CHECK(r - n < a);
    CHECK((r & (a - 1)) == 0);
    amsym_observe(r);
    COVER("end");
}
ENTRY(align_sym) {
    // The alignment itself is symbolic: any power of two.
    uint64_t k = amsym_range(0, 64, "log2(alignment)");
    uint32_t n32 = amsym_any<uint32_t>("count");
    size_t a = size_t(1) << k, n = n32;
    amsym_assume(k < 32);
    size_t r = ke::Align(n, a);
    CHECK(r >= n);
    CHECK(r - n < a);
    CHECK((r & (a - 1)) == 0);
    COVER("end");
}
ENTRY(aligned_base) {
    uint64_t k = amsym_range(0, 64, "log2(alignment)");
    size_t a = size_t(1) << k;
    uintptr_t p = amsym_any<uintptr_t>("addr");
    uintptr_t r = (uintptr_t)ke::AlignedBase((void*)p, a);
    CHECK(r <= p);
    CHECK(p - r < a);
    CHECK((r & (a - 1)) == 0);
    amsym_observe(r);
    COVER("end");
}
ENTRY(is_aligned) {
    uint64_t k = amsym_range(0, 64, "log2(alignment)");
    size_t a = size_t(1) << k;
    uintptr_t p = amsym_any<uintptr_t>("addr");
    bool expect = ((p >> k) << k) == p;
    CHECK(ke::IsAligned(p, a) == expect);
    CHECK(ke::IsAligned((char*)p, a) == expect);
    CHECK(ke::IsAligned((uint32_t)p, a) == (k >= 32 ? (uint32_t)p == 0 : ((uint32_t(p) >> k) << k) == uint32_t(p)));
    amsym_observe(expect);
    COVER("end");
}
template <unsigned N, typename T> static void bits() {
    uintptr_t p = amsym_any<uintptr_t>("ptr");
    uintptr_t mask = (uintptr_t(1) << N) - 1;
    amsym_assume((p & mask) == 0);
    uintptr_t tag = amsym_range(0, uintptr_t(1) << N, "tag");
    T* orig = (T*)p;
    T* tagged = ke::SetPointerBits(orig, tag);
    CHECK(ke::GetPointerBits<N>((void*)tagged) == tag);
    CHECK(ke::ClearPointerBits<N>(tagged) == orig);
    CHECK(ke::GetPointerBits<N>((void*)orig) == 0);
    CHECK(ke::ClearPointerBits<N>(orig) == orig);
    // A second tag can be added without disturbing the pointer.
    uintptr_t tag2 = amsym_range(0, uintptr_t(1) << N, "tag2");
    T* twice = ke::SetPointerBits(tagged, tag2);
    CHECK(ke::GetPointerBits<N>((void*)twice) == (tag | tag2));
    CHECK(ke::ClearPointerBits<N>(twice) == orig);
    amsym_observe((uintptr_t)tagged);
}
ENTRY(tags1) { bits<1, int>(); COVER("end"); }
ENTRY(tags2) { bits<2, int>(); COVER("end"); }
ENTRY(tags3) { bits<3, double>(); COVER("end"); }
ENTRY(tags4) { bits<4, char>(); COVER("end"); }
ENTRY(tags5) { bits<5, char>(); COVER("end"); }
ENTRY(tags12) { bits<12, void*>(); COVER("end"); }
ENTRY(tags30) { bits<30, void*>(); COVER("end"); }
