#include "amsym.h"
#include <stdlib.h>
#include <string.h>
#include <amtl/am-string.h>
static const unsigned MAXLEN = 8, MAXSEP = 3;
struct Str { char c[MAXLEN + 1]; unsigned n; };
// Bytes are arbitrary, zero excluded.
static Str any(unsigned min, unsigned max, const char* lenName, const char* name) {
    Str s;
    s.n = min + amsym_choice(max - min + 1, lenName);
    for (unsigned i = 0; i < s.n; i++) { s.c[i] = amsym_any<char>(name); amsym_assume(s.c[i] != 0); }
    s.c[s.n] = 0;
    return s;
}
static bool at(const Str& s, unsigned i, const Str& sep) {
    if (i + sep.n > s.n) return false;
    for (unsigned k = 0; k < sep.n; k++) if (s.c[i + k] != sep.c[k]) return false;
    return true;
}
// The pieces are the leftmost non-overlapping fields: [from, to) ranges of the string.
static unsigned fields(const Str& s, const Str& sep, unsigned* from, unsigned* to) {
    unsigned n = 0, start = 0, i = 0;
    if (!s.n) return 0;
    while (i + sep.n <= s.n) {
        if (at(s, i, sep)) { from[n] = start; to[n++] = i; i += sep.n; start = i; }
        else i++;
    }
    from[n] = start;
    to[n++] = s.n;
    return n;
}
static void check(const std::vector<std::string>& p, const Str& s, const Str& sep) {
    unsigned from[MAXLEN + 1], to[MAXLEN + 1];
    unsigned n = fields(s, sep, from, to);
    CHECKM(p.size() == n, "the pieces are the leftmost non-overlapping fields");
    for (unsigned i = 0; i < n; i++) {
        CHECKM(p[i].size() == to[i] - from[i], "the pieces are the leftmost non-overlapping fields");
        for (unsigned k = from[i]; k < to[i]; k++) CHECKM(p[i][k - from[i]] == s.c[k], "the pieces are the leftmost non-overlapping fields");
    }
    std::string j = ke::Join(p, sep.c);
    CHECKM(j.size() == s.n, "joining the pieces gives the string back");
    for (unsigned k = 0; k < s.n; k++) CHECKM(j[k] == s.c[k], "joining the pieces gives the string back");
}
static void split(unsigned sepLen, unsigned maxLen) {
    amsym_mark_heap();
    {
        Str sep = any(sepLen, sepLen, "sep length", "sep");
        Str s = any(0, maxLen, "length", "str");
        std::vector<std::string> p = amsym_bool("string") ? ke::Split(std::string(s.c), sep.c) : ke::Split(s.c, sep.c);
        check(p, s, sep);
    }
    amsym_check_leaks();
}
// A std::string may hold zero bytes as well.
ENTRY(split_zeros) {
    amsym_mark_heap();
    {
        Str sep = any(1, 2, "sep length", "sep"), s;
        s.n = amsym_choice((unsigned)amsym_param("lenz", 4) + 1, "length");
        for (unsigned i = 0; i < s.n; i++) s.c[i] = amsym_any<char>("str");
        s.c[s.n] = 0;
        check(ke::Split(std::string(s.c, s.n), sep.c), s, sep);
    }
    amsym_check_leaks();
    COVER("end");
}
ENTRY(split1) { split(1, (unsigned)amsym_param("len1", 5)); COVER("end"); }
ENTRY(split2) { split(2, (unsigned)amsym_param("len2", 5)); COVER("end"); }
ENTRY(split3) { split(3, (unsigned)amsym_param("len3", 6)); COVER("end"); }
// Joining any list, with any separator (also an empty one), embedded zero bytes kept.
ENTRY(join) {
    amsym_mark_heap();
    {
        unsigned n = amsym_choice(4, "pieces");
        Str sep = any(0, 2, "sep length", "sep");
        std::vector<std::string> v;
        char want[32];
        unsigned w = 0;
        for (unsigned i = 0; i < n; i++) {
            unsigned len = amsym_choice(3, "length");
            std::string s;
            for (unsigned k = 0; k < len; k++) { char c = amsym_any<char>("piece"); s.push_back(c); want[w++] = c; }
            v.push_back(s);
            if (i + 1 < n) for (unsigned k = 0; k < sep.n; k++) want[w++] = sep.c[k];
        }
        std::string j = ke::Join(v, sep.c);
        CHECKM(j.size() == w, "the pieces with the separator between consecutive ones only");
        for (unsigned k = 0; k < w; k++) CHECKM(j[k] == want[k], "the pieces with the separator between consecutive ones only");
        CHECK(v.size() == n);
    }
    amsym_check_leaks();
    COVER("end");
}
// Pieces longer than a short string's inline buffer.
ENTRY(long_pieces) {
    amsym_mark_heap();
    {
        char buf[64];
        unsigned cut = amsym_choice(4, "cut") * 13;   // 0 13 26 39
        char c = amsym_any<char>("c");
        amsym_assume(c != 0 && c != ',');
        for (unsigned i = 0; i < 40; i++) buf[i] = i == cut ? ',' : i == 20 ? c : 'a' + i % 26;
        buf[40] = 0;
        auto p = ke::Split(buf, ",");
        CHECK(p.size() == 2 && p[0].size() == cut && p[1].size() == 39 - cut);
        CHECK(p[0].compare(0, std::string::npos, buf, cut) == 0 && p[1] == buf + cut + 1);
        CHECK(ke::Join(p, ",") == buf);
        CHECK(ke::Join(p, "").size() == 39);
    }
    amsym_check_leaks();
    COVER("end");
}
// Pieces, separators and counts around the sizes where an implementation might change its ways.
ENTRY(many_pieces) {
    static const unsigned kCount[] = {2, 15, 16, 17, 64, 255, 256, 257, 300}, kPiece[] = {0, 1, 15, 16, 17, 100}, kSep[] = {1, 2, 15, 16, 17, 40, 70000};
    amsym_mark_heap();
    {
        unsigned n = 2, piece = 3, sep = 1, total;
        switch (amsym_choice(4, "large")) {
        case 0: n = kCount[amsym_choice(9, "count")]; COVER("count"); break;
        case 1: piece = kPiece[amsym_choice(6, "piece")]; COVER("piece"); break;
        case 2: sep = kSep[amsym_choice(7, "sep")]; COVER("separator"); break;
        default: if (amsym_bool("many")) { n = 66000; piece = 1; } else piece = 33000; COVER("huge");
        }
        total = n * piece + (n - 1) * sep;
        char* s = (char*)malloc(total + 1), *b = (char*)malloc(sep + 1), *e = s;
        memset(b, '-', sep);
        b[sep - 1] = '|';
        b[sep] = 0;
        char c = amsym_any<char>("c");
        amsym_assume(c != 0 && c != '-' && c != '|');
        for (unsigned i = 0; i < n; i++) {
            if (i) { memcpy(e, b, sep); e += sep; }
            for (unsigned k = 0; k < piece; k++) *e++ = i + 1 == n && k == piece / 2 ? c : (char)('a' + (i + k) % 26);
        }
        *e = 0;
        CHECK(e == s + total);
        auto p = amsym_bool("string") ? ke::Split(std::string(s, total), b) : ke::Split(s, b);
        CHECKM(p.size() == (piece || n > 1 ? n : 0), "as many pieces as there are separators, and one");
        for (unsigned i = 0; i < p.size(); i++) {
            CHECK(p[i].size() == piece);
            CHECKM(!memcmp(p[i].data(), s + i * (piece + sep), piece), "each piece is what stood between separators");
        }
        std::string j = ke::Join(p, b);
        CHECK(j.size() == total);
        CHECKM(!memcmp(j.data(), s, total), "joining what was split restores the string");
        CHECK(ke::Join(p, "").size() == n * piece);
        free(s);
        free(b);
    }
    amsym_check_leaks();
    COVER("end");
}
