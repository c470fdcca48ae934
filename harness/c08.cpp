#include "amsym.h"
#include <stdlib.h>
#include <string.h>
#include <amtl/am-hashmap.h>
// Reference definitions, written independently of the header.
// Bob Jenkins' one-at-a-time hash; characters enter as the platform's (signed) char.
static uint32_t refOaat(const char* s, size_t n) {
    uint32_t h = 0;
    for (size_t i = 0; i != n; ++i) {
        h = h + (uint32_t)(int32_t)(signed char)s[i];
        h = h + h * 1024u;
        h = h ^ (h / 64u);
    }
    h = h + h * 8u;
    h = h ^ (h / 2048u);
    h = h + h * 32768u;
    return h;
}
static uint32_t refSdbm(const char* s, size_t n) {
    uint32_t h = 0;
    for (size_t i = 0; i != n; ++i) h = h * 65599u + (uint32_t)(int32_t)(signed char)s[i];
    return h;
}
static uint32_t refInt32(uint32_t a) {       // Thomas Wang, via burtleburtle.net/bob/hash/integer.html
    a = (a ^ 61u) ^ (a / 65536u);
    a = a * 9u;
    a = a ^ (a / 16u);
    a = a * 0x27d4eb2du;
    a = a ^ (a / 32768u);
    return a;
}
static uint32_t refInt64(uint64_t k) {       // Thomas Wang's 64-to-32-bit hash, hash6432shift
    k = (k * 262144u) - k - 1;
    k = k ^ (k / 2147483648u);
    k = (k + k * 4) + k * 16;
    k = k ^ (k / 2048u);
    k = k + k * 64;
    k = k ^ (k / 4194304u);
    return (uint32_t)k;
}
ENTRY(char_hashes) {
    unsigned maxlen = amsym_param("len", 10);
    unsigned n = amsym_choice(maxlen + 1, "n");
    // Two copies at different places and alignments.
    char* a = (char*)malloc(n + 1);
    char* b = (char*)malloc(n + 4);
    amsym_symbolic(a, n, "bytes");
    for (unsigned i = 0; i < n; i++) b[i + 3] = a[i];
    uint32_t want = refOaat(a, n);
    CHECK(ke::HashCharSequence(a, n) == want);
    CHECK(ke::HashCharSequence(b + 3, n) == want);
    uint32_t fast = refSdbm(a, n);
    CHECK(ke::FastHashCharSequence(a, n) == fast);
    CHECK(ke::FastHashCharSequence(b + 3, n) == fast);
    // The stream, split anywhere.
    unsigned cut = n ? amsym_choice(n + 1, "cut") : 0;
    ke::CharacterStreamHasher h;
    h.add(a, cut);
    if (amsym_bool("bytewise")) { for (unsigned i = cut; i < n; i++) h.add(b[3 + i]); COVER("bytewise"); }
    else { h.add(b + 3 + cut, n - cut); h.add(a, 0); }
    CHECK(h.result() == want);
    free(a);
    free(b);
    COVER("end");
}
ENTRY(int32_hash) {
    int32_t v = amsym_any<int32_t>("v");
    CHECK(ke::HashInt32(v) == refInt32((uint32_t)v));
    CHECK(ke::HashInteger<4>((uintptr_t)(uint32_t)v) == refInt32((uint32_t)v));
    COVER("end");
}
ENTRY(int64_hash) {
    int64_t v = amsym_any<int64_t>("v");
    CHECK(ke::HashInt64(v) == refInt64((uint64_t)v));
    CHECK(ke::HashInteger<8>((uintptr_t)v) == refInt64((uint64_t)v));
    COVER("end");
}
ENTRY(pointer_hash) {
    uintptr_t v = amsym_any<uintptr_t>("v");
    const void* p = (const void*)v;
    CHECK(ke::HashPointer(p) == refInt64(v));
    typedef ke::PointerPolicy<int> P;
    CHECK(P::hash((int*)v) == refInt64(v));
    uintptr_t w = amsym_any<uintptr_t>("w");
    CHECK(P::matches((int*)v, (int*)w) == (v == w));
    if (P::matches((int*)v, (int*)w)) { CHECK(P::hash((int*)v) == P::hash((int*)w)); COVER("match"); }
    COVER("end");
}
ENTRY(combine) {
    uint32_t a = amsym_any<uint32_t>("a"), b = amsym_any<uint32_t>("b");
    CHECK(ke::HashCombine(a, b) == (a ^ (b + 2654435769u + a * 64u + b / 4u)));
    COVER("end");
}
// Long strings, with arbitrary bytes at both ends.
ENTRY(long_strings) {
    static const unsigned kLen[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1024, 4096, 5000};
    unsigned n = kLen[amsym_choice(sizeof kLen / sizeof kLen[0], "n")];
    char* a = (char*)malloc(n);
    for (unsigned i = 0; i < n; i++) a[i] = (char)(i * 37 + (i >> 3) + 11);
    a[0] = amsym_any<char>("first");
    a[n - 1] = amsym_any<char>("last");
    CHECK(ke::HashCharSequence(a, n) == refOaat(a, n));
    CHECK(ke::FastHashCharSequence(a, n) == refSdbm(a, n));
    ke::CharacterStreamHasher h;
    unsigned cut = amsym_choice(3, "cut") * (n / 2);
    h.add(a, cut);
    h.add(a + cut, n - cut);
    CHECK(h.result() == refOaat(a, n));
    free(a);
    COVER("end");
}
// Longer than 16 bits count.
ENTRY(huge_strings) {
    unsigned n = 65535 + amsym_choice(3, "n") * 2500;
    char* a = (char*)malloc(n);
    for (unsigned i = 0; i < n; i++) a[i] = (char)(i * 37 + (i >> 3) + 11);
    a[n - 1] = amsym_any<char>("last");
    CHECK(ke::HashCharSequence(a, n) == refOaat(a, n));
    CHECK(ke::FastHashCharSequence(a, n) == refSdbm(a, n));
    ke::CharacterStreamHasher h;
    h.add(a, n - 1);
    h.add(a[n - 1]);
    CHECK(h.result() == refOaat(a, n));
    free(a);
    COVER("end");
}
