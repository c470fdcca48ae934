#include "amsym.h"
#include <stdlib.h>
#include <string.h>
#include <amtl/am-string.h>
// A source string of exactly len arbitrary non-zero bytes, in a block that ends with its terminator.
static char* source(size_t len, const char* name) {
    char* s = (char*)malloc(len + 1);
    for (size_t i = 0; i < len; i++) { s[i] = amsym_any<char>(name); amsym_assume(s[i] != 0); }
    s[len] = 0;
    return s;
}
// A destination of exactly size bytes with arbitrary contents, so that a write beyond it is seen.
static char* destination(size_t size) {
    char* d = (char*)malloc(size ? size : 1);
    for (size_t i = 0; i < size; i++) d[i] = amsym_any<char>("old");
    if (!size) { free(d); d = (char*)malloc(0); }
    return d;
}
static void expect(const char* d, size_t max, const char* src, size_t n, size_t got) {
    size_t want = n < max ? n : max ? max - 1 : 0;
    CHECKM(got == want, "the resulting length is returned");
    if (!max) return;
    for (size_t i = 0; i < want; i++) CHECKM(d[i] == src[i], "the longest prefix that fits is stored");
    CHECKM(d[want] == 0, "the destination is terminated");
}
ENTRY(copy) {
    size_t len = amsym_choice((int)amsym_param("len", 6), "len");
    size_t max = amsym_choice((int)amsym_param("max", 8), "max");
    char* s = source(len, "src");
    char* d = destination(max);
    size_t got = ke::SafeStrcpy(d, max, s);
    expect(d, max, s, len, got);
    if (len >= max) COVER("truncated"); else COVER("fits");
    CHECK(ke::SafeStrcpy(nullptr, max, s) == 0);
    free(d);
    free(s);
}
ENTRY(copy_n) {
    size_t len = amsym_choice((int)amsym_param("len", 6), "len");
    size_t max = amsym_choice((int)amsym_param("max", 8), "max");
    size_t n = amsym_any<size_t>("n");
    char* s = source(len, "src");
    char* d = destination(max);
    size_t got = ke::SafeStrcpyN(d, max, s, n);
    expect(d, max, s, n < len ? n : len, got);
    if (n < len) COVER("counted");
    if (n == 0) COVER("none");
    if (n > len) COVER("all");
    CHECK(ke::SafeStrcpyN(nullptr, max, s, n) == 0);
    free(d);
    free(s);
}
// The counted form may be given bytes that are not a string: only the first n are read.
ENTRY(copy_n_unterminated) {
    size_t n = amsym_choice(6, "n");
    size_t max = amsym_choice(8, "max");
    char* s = (char*)malloc(n ? n : 1);
    for (size_t i = 0; i < n; i++) { s[i] = amsym_any<char>("src"); amsym_assume(s[i] != 0); }
    if (!n) s[0] = 'x';
    char* d = destination(max);
    size_t got = ke::SafeStrcpyN(d, max, s, n);
    expect(d, max, s, n, got);
    free(d);
    free(s);
    COVER("end");
}
ENTRY(append) {
    size_t len = amsym_choice((int)amsym_param("len", 6), "len");
    size_t max = amsym_choice((int)amsym_param("max", 7), "max") + 1;
    size_t had = amsym_choice((int)max, "had");
    char* s = source(len, "src");
    char* d = destination(max);
    char* all = (char*)malloc(had + len + 1);
    for (size_t i = 0; i < had; i++) { amsym_assume(d[i] != 0); all[i] = d[i]; }
    for (size_t i = 0; i <= len; i++) all[had + i] = s[i];
    d[had] = 0;
    size_t got = ke::SafeStrcat(d, max, s);
    expect(d, max, all, had + len, got);
    if (had + len >= max) COVER("truncated"); else COVER("fits");
    free(all);
    free(d);
    free(s);
}
// What lies behind the stated size stays as it was, also when the block is larger.
ENTRY(beyond_untouched) {
    size_t len = amsym_choice(5, "len");
    size_t max = amsym_choice(5, "max");
    char d[8], old[8];
    amsym_symbolic(old, sizeof old, "old");
    memcpy(d, old, sizeof d);
    char* s = source(len, "src");
    switch (amsym_choice(3, "which")) {
    case 0: ke::SafeStrcpy(d, max, s); break;
    case 1: ke::SafeStrcpyN(d, max, s, amsym_any<size_t>("n")); break;
    default:
        if (!max) return;
        { size_t had = amsym_choice((int)max, "had"); for (size_t i = 0; i < had; i++) amsym_assume(d[i] != 0); d[had] = old[had] = 0; }
        ke::SafeStrcat(d, max, s);
        COVER("append");
    }
    for (size_t i = max; i < sizeof d; i++) CHECKM(d[i] == old[i], "bytes beyond the stated size are untouched");
    free(s);
    COVER("end");
}
// Longer strings, around the sizes where an implementation might change its ways: known bytes with a few arbitrary ones.
ENTRY(long_copy) {
    static const unsigned kLen[] = {15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 32768, 65536, 70000};
    size_t len = kLen[amsym_choice(18, "len")];
    char* s = (char*)malloc(len + 1);
    for (size_t i = 0; i < len; i++) s[i] = (char)('a' + i % 26);
    size_t at[3] = {0, len / 2, len - 1};
    for (size_t i : at) { s[i] = amsym_any<char>("src"); amsym_assume(s[i] != 0); }
    s[len] = 0;
    size_t max;
    switch (amsym_choice(6, "max")) {
    case 0: max = len - 1; break;
    case 1: max = len; break;
    case 2: max = len + 1; break;
    case 3: max = len + 2; break;
    case 4: max = len / 2; break;
    default: max = 2 * len; break;
    }
    char* d = (char*)malloc(max + 1);
    memset(d, 'z', max + 1);
    size_t n = len, had = 0;
    size_t got;
    switch (amsym_choice(3, "which")) {
    case 0: got = ke::SafeStrcpy(d, max, s); break;
    case 1:
        switch (amsym_choice(4, "n")) {
        case 0: n = len - 1; break;
        case 1: n = len; break;
        case 2: n = len + 1; break;
        default: n = (size_t)-1; break;
        }
        got = ke::SafeStrcpyN(d, max, s, n);
        if (n > len) n = len;
        break;
    default:
        had = amsym_bool("little") ? 1 : max / 2;
        if (had >= max) return;
        memset(d, 'q', had);
        d[had] = 0;
        got = ke::SafeStrcat(d, max, s);
        COVER("append");
        break;
    }
    size_t want = had + n < max ? had + n : max - 1;
    CHECKM(got == want, "the resulting length is returned");
    for (size_t i = 0; i < want; i++) CHECKM(d[i] == (i < had ? 'q' : s[i - had]), "the longest prefix that fits is stored");
    CHECKM(d[want] == 0, "the destination is terminated");
    CHECKM(d[max] == 'z', "bytes beyond the stated size are untouched");
    free(d);
    free(s);
    COVER("end");
}
