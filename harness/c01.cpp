#include "amsym.h"
#include <amtl/am-bits.h>
// Oracles state the definition of "highest/lowest set bit" directly rather than recomputing it.
ENTRY(leftmost32) {
    uint32_t v = amsym_any<uint32_t>("v");
    amsym_assume(v != 0);
    uint64_t i = ke::FindLeftmostBit32(v);
    CHECK(i < 32);
    CHECK((v >> i) == 1);
    amsym_observe(i);
    COVER("end");
}
ENTRY(leftmost64) {
    uint64_t v = amsym_any<uint64_t>("v");
    amsym_assume(v != 0);
    uint64_t i = ke::FindLeftmostBit64(v);
    CHECK(i < 64);
    CHECK((v >> i) == 1);
    amsym_observe(i);
    COVER("end");
}
ENTRY(log2) {
    size_t v = amsym_any<size_t>("v");
    amsym_assume(v != 0);
    size_t i = ke::Log2(v);
    CHECK(i < 64);
    CHECK((v >> i) == 1);
    amsym_observe(i);
    COVER("end");
}
ENTRY(rightmost) {
    size_t v = amsym_any<size_t>("v");
    amsym_assume(v != 0);
    size_t i = ke::FindRightmostBit(v);
    CHECK(i < 64);
    CHECK((v >> i) & 1);
    CHECK((v & ((size_t(1) << i) - 1)) == 0);
    amsym_observe(i);
    COVER("end");
}
ENTRY(poweroftwo) {
    size_t v = amsym_any<size_t>("v");
    bool one = false;
    for (int i = 0; i < 64; i++) one |= v == (size_t(1) << i);
    bool r = ke::IsPowerOfTwo(v);
    CHECK(r == one);
    amsym_observe(r);
    COVER("end");
}
