#include "amsym.h"
#include <ctype.h>
#include <stdlib.h>
#include <string.h>
#include <amtl/am-string.h>
static const unsigned MAXLEN = 8;
struct Str { char* c; unsigned n; ~Str() { free(c); } };
static void any(Str& s, unsigned max, const char* name) {
    s.n = amsym_choice(max + 1, "length");
    s.c = (char*)malloc(s.n + 1);        // exactly the string: reading past its end is seen
    for (unsigned i = 0; i < s.n; i++) { s.c[i] = amsym_any<char>(name); amsym_assume(s.c[i] != 0); }
    s.c[s.n] = 0;
}
static unsigned char up(unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static unsigned char low(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
// The C library's mapping is the C locale's, or that of a locale which also pairs two other characters.
static unsigned char gUpper, gLower;
extern "C" int __wrap_toupper(int c) { amsym_assert(c >= -1 && c <= 255, "toupper is given a byte value"); return gLower && c == gLower ? gUpper : c >= 'a' && c <= 'z' ? c - 32 : c; }
extern "C" int __wrap_tolower(int c) { amsym_assert(c >= -1 && c <= 255, "tolower is given a byte value"); return gUpper && c == gUpper ? gLower : c >= 'A' && c <= 'Z' ? c + 32 : c; }
// ... whichever way the headers have it looked up.
extern "C" const int** __wrap___ctype_toupper_loc() { static int t[384]; static const int* p = t + 128; for (int c = -128; c < 256; c++) t[c + 128] = c < -1 ? c : __wrap_toupper(c); return &p; }
extern "C" const int** __wrap___ctype_tolower_loc() { static int t[384]; static const int* p = t + 128; for (int c = -128; c < 256; c++) t[c + 128] = c < -1 ? c : __wrap_tolower(c); return &p; }
ENTRY(cases) {
    Str s;
    any(s, (unsigned)amsym_param("len", 5), "char");
    std::string u = ke::Uppercase(s.c), l = ke::Lowercase(s.c);
    CHECKM(u.size() == s.n && l.size() == s.n, "casing keeps the length");
    for (unsigned i = 0; i < s.n; i++) {
        CHECKM((unsigned char)u[i] == up(s.c[i]), "each character is mapped as toupper does");
        CHECKM((unsigned char)l[i] == low(s.c[i]), "each character is mapped as tolower does");
        CHECK((unsigned char)u[i] == (unsigned char)toupper((unsigned char)s.c[i]));
    }
    COVER("end");
}
ENTRY(other_locale) {
    gUpper = amsym_any<unsigned char>("upper");
    gLower = amsym_any<unsigned char>("lower");
    amsym_assume(gUpper >= 128 && gLower >= 128 && gUpper != gLower);
    Str s;
    any(s, (unsigned)amsym_param("len", 3), "char");
    std::string u = ke::Uppercase(s.c), l = ke::Lowercase(s.c);
    CHECK(u.size() == s.n && l.size() == s.n);
    for (unsigned i = 0; i < s.n; i++) {
        unsigned char c = s.c[i];
        CHECKM((unsigned char)u[i] == (c == gLower ? gUpper : up(c)), "each character is mapped as the C library does");
        CHECKM((unsigned char)l[i] == (c == gUpper ? gLower : low(c)), "each character is mapped as the C library does");
    }
    COVER("end");
}
ENTRY(starts) {
    Str s, p;
    any(s, (unsigned)amsym_param("len", 4), "str");
    any(p, (unsigned)amsym_param("plen", 4), "prefix");
    bool want = p.n <= s.n;
    for (unsigned i = 0; want && i < p.n; i++) if (s.c[i] != p.c[i]) want = false;
    CHECKM(ke::StartsWith(s.c, p.c) == want, "StartsWith is true exactly for prefixes");
    CHECKM(ke::StartsWith(std::string(s.c), p.c) == want, "StartsWith is true exactly for prefixes");
    if (want) COVER("yes"); else COVER("no");
}
ENTRY(ends) {
    Str s, p;
    any(s, (unsigned)amsym_param("len", 4), "str");
    any(p, (unsigned)amsym_param("plen", 4), "suffix");
    bool want = p.n <= s.n;
    for (unsigned i = 0; want && i < p.n; i++) if (s.c[s.n - p.n + i] != p.c[i]) want = false;
    CHECKM(ke::EndsWith(s.c, p.c) == want, "EndsWith is true exactly for suffixes");
    // Embedded zero bytes are characters like any other here.
    std::string zs("a\0b", 3), zp("\0b", 2);
    CHECK(ke::EndsWith(zs, zp) && !ke::EndsWith(zp, zs));
    if (want) COVER("yes"); else COVER("no");
}
// Zero bytes are characters of a std::string like any other.
ENTRY(embedded) {
    std::string s, p;
    unsigned n = amsym_choice(5, "length"), k = amsym_choice(5, "affix length");
    for (unsigned i = 0; i < n; i++) s += amsym_any<char>("str");
    for (unsigned i = 0; i < k; i++) p += amsym_any<char>("affix");
    bool want = k <= n;
    for (unsigned i = 0; want && i < k; i++) if (s[n - k + i] != p[i]) want = false;
    CHECKM(ke::EndsWith(s, p) == want, "EndsWith is true exactly for suffixes");
    if (want) COVER("suffix"); else COVER("no suffix");
    const char* c = p.c_str();
    unsigned m = 0;
    while (c[m]) m++;
    bool starts = m <= n;
    for (unsigned i = 0; starts && i < m; i++) if (s[i] != c[i]) starts = false;
    CHECKM(ke::StartsWith(s, c) == starts, "StartsWith is true exactly for prefixes");
    if (starts) COVER("prefix"); else COVER("no prefix");
}
ENTRY(caseless) {
    Str a, b;
    any(a, (unsigned)amsym_param("len", 3), "a");
    any(b, (unsigned)amsym_param("len", 3), "b");
    bool same = a.n == b.n;
    for (unsigned i = 0; same && i < a.n; i++) if (low(a.c[i]) != low(b.c[i])) same = false;
    int r = ke::StrCaseCmp(a.c, b.c);
    CHECKM((r == 0) == same, "zero exactly for strings equal up to letter case");
    int q = ke::StrCaseCmp(b.c, a.c);
    CHECKM((r < 0) == (q > 0) && (r > 0) == (q < 0), "the comparison is antisymmetric");
    if (same) COVER("same"); else COVER("different");
}
// Longer strings: known bytes with a few arbitrary ones, at the ends and in the middle.
static const unsigned kLong[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 200, 256, 300, 4096, 65536, 70000};
static void longer(Str& s, const char* name) {
    s.n = kLong[amsym_choice(15, "length")];
    s.c = (char*)malloc(s.n + 1);
    for (unsigned i = 0; i < s.n; i++) s.c[i] = (char)((i & 1 ? 'a' : 'A') + i % 26);
    unsigned at[3] = {0, s.n / 2, s.n - 1};
    for (unsigned i : at)
        if (s.n < 4096 || i == s.n - 1) { s.c[i] = amsym_any<char>(name); amsym_assume(s.c[i] != 0); }
    s.c[s.n] = 0;
}
ENTRY(long_cases) {
    Str s;
    longer(s, "char");
    std::string u = ke::Uppercase(s.c), l = ke::Lowercase(s.c);
    CHECKM(u.size() == s.n && l.size() == s.n, "casing keeps the length");
    for (unsigned i = 0; i < s.n; i++) {
        CHECKM((unsigned char)u[i] == up(s.c[i]), "each character is mapped as toupper does");
        CHECKM((unsigned char)l[i] == low(s.c[i]), "each character is mapped as tolower does");
    }
    COVER("end");
}
ENTRY(long_affixes) {
    Str s, p;
    longer(s, "str");
    unsigned cut = amsym_choice(4, "cut");          // the affix is the string without its last or first few characters, one of them changed
    bool ends = amsym_bool("suffix");
    p.n = s.n - cut;
    p.c = (char*)malloc(p.n + 1);
    memcpy(p.c, s.c + (ends ? cut : 0), p.n);
    p.c[p.n] = 0;
    unsigned at = amsym_bool("first") ? 0 : amsym_bool("last") ? p.n - 1 : p.n / 3;
    char c = amsym_any<char>("affix");
    amsym_assume(c != 0);
    bool want = c == p.c[at];
    p.c[at] = c;
    if (ends) { CHECKM(ke::EndsWith(s.c, p.c) == want, "EndsWith is true exactly for suffixes"); COVER("ends"); }
    else {
        CHECKM(ke::StartsWith(s.c, p.c) == want, "StartsWith is true exactly for prefixes");
        CHECKM(ke::StartsWith(std::string(s.c), p.c) == want, "StartsWith is true exactly for prefixes");
        COVER("starts");
    }
    // One character more than the string has is no affix of it.
    char* q = (char*)malloc(s.n + 2);
    memcpy(q + ends, s.c, s.n);
    q[ends ? 0 : s.n] = 'x';
    q[s.n + 1] = 0;
    if (ends) CHECK(!ke::EndsWith(s.c, q)); else CHECK(!ke::StartsWith(s.c, q));
    free(q);
}
ENTRY(long_caseless) {
    Str a;
    longer(a, "a");
    char* b = (char*)malloc(a.n + 1);
    for (unsigned i = 0; i <= a.n; i++) b[i] = (char)(i & 2 ? low(a.c[i]) : up(a.c[i]));
    unsigned at = amsym_bool("first") ? 0 : amsym_bool("last") ? a.n - 1 : a.n / 3;
    b[at] = amsym_any<char>("b");
    bool same = low(b[at]) == low(a.c[at]);
    int r = ke::StrCaseCmp(a.c, b), q = ke::StrCaseCmp(b, a.c);
    CHECKM((r == 0) == same, "zero exactly for strings equal up to letter case");
    CHECKM((r < 0) == (q > 0) && (r > 0) == (q < 0), "the comparison is antisymmetric");
    free(b);
    if (same) COVER("same"); else COVER("different");
}
