#include "amsym.h"
#include <stdlib.h>
#include <string.h>
#include <amtl/am-assert.h>
#include <amtl/am-linking.h>
static bool gMayStop;
static int gEvaluated, gAfter;
static void stopped() {
    CHECKM(gMayStop, "the program is stopped only when the condition is false");
    CHECKM(gEvaluated == 1, "the condition is evaluated exactly once");
    CHECKM(gAfter == 0, "nothing after a failing assertion runs");
    amsym_finish();
}
extern "C" void __wrap_abort() { stopped(); }
extern "C" void __wrap___assert_fail(const char*, const char*, unsigned, const char*) { stopped(); }
template <typename T> static T eval(T v) { gEvaluated++; return v; }
template <typename T> static void check(T v, bool truth) {
    gEvaluated = gAfter = 0;
    gMayStop = !truth;
    KE_RELEASE_ASSERT(eval(v));
    gAfter = 1;
    CHECKM(truth, "a false condition stops the program");
    CHECKM(gEvaluated == 1, "the condition is evaluated exactly once");
}
ENTRY(conditions) {
    switch (amsym_choice(5, "type")) {
    case 0: { bool v = amsym_any<uint8_t>("v") & 1; check(v, v); COVER("bool"); break; }
    case 1: { int v = amsym_any<int>("v"); check(v, v != 0); COVER("int"); break; }
    case 2: { uint64_t v = amsym_any<uint64_t>("v"); check(v, v != 0); COVER("wide"); break; }
    case 3: { void* v = (void*)amsym_any<uintptr_t>("v"); check(v, v != nullptr); COVER("pointer"); break; }
    default: { int a = amsym_any<int>("a"), b = amsym_any<int>("b"); gEvaluated = gAfter = 0; gMayStop = !(a < b || a == 7); KE_RELEASE_ASSERT(eval(a) < b || a == 7); CHECK(gEvaluated == 1 && (a < b || a == 7)); COVER("expression"); break; }
    }
}
ENTRY(fractions) {
    int n = amsym_any<int>("n");
    double v = n / 4294967296.0;
    check(v, n != 0);
    COVER("end");
}
struct Truth { int v; explicit operator bool() const { return (v & 6) != 0; } operator int() const = delete; };
ENTRY(convertible) {
    int n = amsym_any<int>("n");
    check(Truth{n}, (n & 6) != 0);
    COVER("end");
}
// As a statement: it must not swallow an else, nor end a loop.
ENTRY(statement) {
    int a = amsym_any<int>("a"), v = amsym_any<int>("v"), other = 0;
    gEvaluated = gAfter = 0;
    gMayStop = a > 0 && v == 0;
    if (a > 0)
        KE_RELEASE_ASSERT(eval(v));
    else
        other = 1;
    CHECKM(other == (a > 0 ? 0 : 1), "an assertion is a single statement");
    CHECKM(gEvaluated == (a > 0 ? 1 : 0), "an assertion that is not reached is not evaluated");
    CHECKM(a <= 0 || v != 0, "a false condition stops the program");
    int n = 0;
    for (int i = 0; i < 3; i++) { gEvaluated = 0; gMayStop = false; KE_RELEASE_ASSERT(eval(i + 1)); n++; }
    CHECK(n == 3);
    COVER("end");
}
ENTRY(sequence) {
    bool v[3];
    for (int i = 0; i < 3; i++) v[i] = amsym_any<uint8_t>("v") & 1;
    for (int i = 0; i < 3; i++) check(v[i], v[i]);
    CHECK(v[0] && v[1] && v[2]);
    COVER("end");
}
