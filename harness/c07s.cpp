#include "amsym.h"
#include <stdlib.h>
#include <stdint.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-fixedarray.h>
// The default allocator policy: the program is stopped at the request that cannot be met.
static int gLeft = -1;            // requests still granted; -1: all
static bool gRefused;
extern "C" void* __wrap_malloc(size_t n) {
    if (gLeft == 0) { gRefused = true; return nullptr; }
    if (gLeft > 0) gLeft--;
    return aligned_alloc(16, (n + 15) & ~(size_t)15);
}
static bool gOverflow;
extern "C" void __wrap_abort() {
    CHECKM(gRefused || gOverflow, "the program is stopped only when a request cannot be met");
    if (gRefused) COVER("refused"); else COVER("overflow");
    amsym_finish();
}
struct Policy { static uint32_t hash(int k) { return (uint32_t)k * 0x144cbc89u; } static bool matches(int a, int b) { return a == b; } };
static void goesOn() { CHECKM(!gRefused, "the program does not go on after a request that cannot be met"); }
ENTRY(tables) {
    gRefused = gOverflow = false;
    gLeft = amsym_choice(6, "granted") - 1;
    int v = amsym_any<int>("v");
    if (amsym_bool("map")) {
        ke::HashMap<int, int, Policy> map;
        CHECK(map.init());
        goesOn();
        for (int k = 0; k < 30; k++) {
            auto p = map.findForAdd(k);
            CHECK(map.add(p, k, v));
            goesOn();
            CHECK(map.find(k).found() && map.find(k)->value == v);
        }
        for (int k = 0; k < 29; k++) map.removeIfExists(k);
        for (int k = 40; k < 80; k++) { auto p = map.findForAdd(k); CHECK(map.add(p, k, v)); goesOn(); }
        CHECK(map.elements() == 41);
    } else {
        ke::HashSet<int, Policy> set;
        CHECK(set.init());
        goesOn();
        for (int k = 0; k < 30; k++) { auto p = set.findForAdd(k); CHECK(set.add(p, k)); goesOn(); CHECK(set.has(k)); }
    }
    COVER("served");
}
ENTRY(arrays) {
    gRefused = gOverflow = false;
    gLeft = amsym_choice(4, "granted") - 1;
    uint64_t n = amsym_any<uint64_t>("n");
    amsym_assume(n == 3 || n > (uint64_t)1 << 61);
    gOverflow = n > 3;          // such sizes have no representation in bytes
    ke::FixedArray<uint64_t> a(n);
    goesOn();
    CHECKM(n == 3, "the program does not go on with a size that has no representation");
    CHECK(a.initialize() && a.size() == 3 && a[2] == 0);
    ke::FixedArray<uint64_t> b(a);
    goesOn();
    ke::FixedArray<uint64_t> c;
    c = b;
    goesOn();
    CHECK(c == a && b == a);
    COVER("served");
}
