#include "amsym.h"
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <amtl/am-string.h>
#include <amtl/os/am-path.h>
#include <amtl/os/am-system-errors.h>
// The formatter is a stand-in: for the harness's own format it produces an arbitrary text of gLen bytes (any byte, zero
// included, as %c can), after checking that it was given the harness's format and arguments from the start.
static const char kFormat[] = "%d|%s";
static const char kArg2[] = "two";
static char gText[70010];
static int gLen, gArg1, gFailAt;       // gFailAt: which call reports an error (0: none)
static int gCalls;
extern "C" int __real_vsnprintf(char*, size_t, const char*, va_list);
extern "C" int __wrap_vsnprintf(char* b, size_t n, const char* f, va_list ap) {
    if (f != kFormat) return __real_vsnprintf(b, n, f, ap);
    gCalls++;
    CHECKM(va_arg(ap, int) == gArg1, "the first argument reaches the formatter");
    CHECKM(va_arg(ap, const char*) == kArg2, "the second argument reaches the formatter");
    if (gCalls == gFailAt) return -1;
    if (n) {
        size_t k = (size_t)gLen < n ? gLen : n - 1;
        memcpy(b, gText, k);
        b[k] = 0;
    }
    return gLen;
}
static void setup(unsigned max) {
    gLen = amsym_choice(max, "text length");
    for (int i = 0; i < gLen; i++) gText[i] = amsym_any<char>("text");
    gText[gLen] = 0;
    gArg1 = amsym_any<int>("arg");
    gCalls = gFailAt = 0;
}
template <typename F> static auto va(F f, ...) {
    va_list ap;
    va_start(ap, f);
    auto r = f(ap);
    va_end(ap);
    return r;
}
static void is(const char* d, int n, size_t got, const char* m) {
    CHECKM(got == (size_t)n, m);
    for (int i = 0; i < n; i++) CHECKM(d[i] == gText[i], m);
}
static void buffer(int which) {
    setup((unsigned)amsym_param("len", 7));
    size_t max = amsym_choice((int)amsym_param("max", 9), "max");
    char* d = (char*)malloc(max + 2);
    char old[2];
    for (size_t i = 0; i < max + 2; i++) d[i] = amsym_any<char>("old");
    old[0] = d[max];
    old[1] = d[max + 1];
    size_t got;
    switch (which) {
    case 0: got = ke::SafeSprintf(d, max, kFormat, gArg1, kArg2); break;
    case 1: got = va([=](va_list ap) { return ke::SafeVsprintf(d, max, kFormat, ap); }, gArg1, kArg2); break;
    case 2: got = ke::path::Format(d, max, kFormat, gArg1, kArg2); break;
    default: got = va([=](va_list ap) { return ke::path::FormatVa(d, max, kFormat, ap); }, gArg1, kArg2); break;
    }
    size_t want = (size_t)gLen < max ? gLen : max ? max - 1 : 0;
    CHECKM(got == want, "the stored length is returned");
    for (size_t i = 0; i < want; i++) {
        char c = gText[i];
        if (which >= 2 && c == '\\') c = '/';
        CHECKM(d[i] == c, which >= 2 ? "the longest fitting prefix is stored with native separators" : "the longest fitting prefix is stored");
    }
    if (max) CHECKM(d[want] == 0, "the text is terminated");
    CHECKM(d[max] == old[0] && d[max + 1] == old[1], "nothing is written beyond the stated size");
    free(d);
    if ((size_t)gLen >= max) COVER("truncated"); else COVER("fits");
}
ENTRY(allocating) {
    amsym_mark_heap();
    setup((unsigned)amsym_param("len", 7));
    {
        std::string s = ke::StringPrintf(kFormat, gArg1, kArg2);
        is(s.data(), gLen, s.size(), "StringPrintf returns exactly the formatted text");
        CHECK(s.c_str()[gLen] == 0);
        std::string t = va([](va_list ap) { return ke::StringPrintfVa(kFormat, ap); }, gArg1, kArg2);
        is(t.data(), gLen, t.size(), "StringPrintfVa returns exactly the formatted text");
        std::unique_ptr<char[]> p = ke::Sprintf(kFormat, gArg1, kArg2);
        CHECK(!!p);
        is(p.get(), gLen, gLen, "Sprintf returns exactly the formatted text");
        CHECKM(p[gLen] == 0, "Sprintf terminates the text");
        std::unique_ptr<char[]> q = va([](va_list ap) { return ke::SprintfArgs(kFormat, ap); }, gArg1, kArg2);
        CHECK(!!q && q[gLen] == 0);
        is(q.get(), gLen, gLen, "SprintfArgs returns exactly the formatted text");
        if (!gLen) COVER("empty"); else COVER("text");
    }
    amsym_check_leaks();
}
// A formatter error: no text, and nothing is leaked or read.
ENTRY(formatter_error) {
    amsym_mark_heap();
    setup(3);
    gFailAt = 1 + amsym_choice(2, "fail");
    {
        if (amsym_bool("string")) {
            std::string s = ke::StringPrintf(kFormat, gArg1, kArg2);
            CHECK(s.empty() || (gFailAt > gCalls && s.size() == (size_t)gLen));
            COVER("string");
        } else {
            std::unique_ptr<char[]> p = ke::Sprintf(kFormat, gArg1, kArg2);
            CHECK(!p || gFailAt > gCalls);
            COVER("block");
        }
    }
    amsym_check_leaks();
}
ENTRY(buffer_form) { buffer(amsym_choice(2, "va")); COVER("end"); }
ENTRY(path_form) { buffer(2 + amsym_choice(2, "va")); COVER("end"); }
// Formatter error into a buffer: bounded and terminated all the same.
ENTRY(buffer_error) {
    setup(3);
    gFailAt = 1;
    size_t max = amsym_choice(4, "max");
    char d[5];
    memset(d, 'z', sizeof d);
    size_t got = ke::SafeSprintf(d, max, kFormat, gArg1, kArg2);
    CHECK(max ? got < max : got == 0);
    bool term = !max;
    for (size_t i = 0; i < max; i++) term |= d[i] == 0;
    CHECKM(term, "the buffer is terminated");
    for (size_t i = max; i < sizeof d; i++) CHECK(d[i] == 'z');
    COVER("end");
}
// The library's real formatter (the engine's model of it), for the conversions the headers use.
ENTRY(real_formatter) {
    amsym_mark_heap();
    {
        int v = amsym_any<int>("v");
        amsym_assume(v >= -99 && v <= 999);
        char s[4];
        amsym_symbolic(s, 3, "s");
        s[3] = 0;
        std::string a = ke::StringPrintf("<%s:%d>", s, v);
        size_t n = strlen(s);
        CHECK(a[0] == '<' && a.compare(1, n, s) == 0 && a[n + 1] == ':' && a[a.size() - 1] == '>');
        CHECK(atoi(a.c_str() + n + 2) == v);
        auto p = ke::Sprintf("<%s:%d>", s, v);
        CHECK(a == p.get());
        char d[6];
        size_t k = ke::SafeSprintf(d, sizeof d, "<%s:%d>", s, v);
        CHECK(k == (a.size() < 5 ? a.size() : 5) && strlen(d) == k && a.compare(0, k, d) == 0);
    }
    amsym_check_leaks();
    COVER("end");
}
// The system's message for a code is arbitrary, and comes back in either of the two ways the GNU function may use.
static char gMsg[80];
static int gMsgLen, gCode;
static bool gInBuffer;
static bool gAsked;
extern "C" char* __real_strerror_r(int, char*, size_t);
extern "C" char* __wrap_strerror_r(int code, char* buf, size_t n) {
    CHECKM(code == gCode, "the message of the given code is asked for");
    gAsked = true;
    if (!gInBuffer) return gMsg;
    if (n) {
        size_t k = (size_t)gMsgLen < n ? gMsgLen : n - 1;
        memcpy(buf, gMsg, k);
        buf[k] = 0;
    }
    return buf;
}
ENTRY(system_error) {
    gCode = amsym_any<int>("code");
    gMsgLen = amsym_choice(6, "message length");
    for (int i = 0; i < gMsgLen; i++) { gMsg[i] = amsym_any<char>("message"); amsym_assume(gMsg[i] != 0); }
    gMsg[gMsgLen] = 0;
    gInBuffer = amsym_bool("in buffer");
    gAsked = false;
    size_t max = amsym_choice(8, "max");
    char* d = (char*)malloc(max + 1);
    for (size_t i = 0; i <= max; i++) d[i] = amsym_any<char>("old");
    char last = d[max];
    if (amsym_bool("errno")) { errno = gCode; ke::FormatSystemError(d, max); COVER("errno"); }
    else { ke::FormatSystemErrorCode(gCode, d, max); COVER("code"); }
    CHECK(gAsked || !max);
    if (max) {
        size_t want = (size_t)gMsgLen < max ? gMsgLen : max - 1;
        for (size_t i = 0; i < want; i++) CHECKM(d[i] == gMsg[i], "the system's message is stored, truncated to the buffer");
        CHECKM(d[want] == 0, "the message is terminated");
    }
    CHECKM(d[max] == last, "nothing is written beyond the stated size");
    free(d);
    COVER("end");
}
// Longer messages, larger buffers.
ENTRY(system_error_large) {
    static const int kMessage[] = {0, 3, 31, 49, 63};     // as long as a system makes them
    static const size_t kMax[] = {64, 127, 128, 255, 256, 257, 1024, 4096, 65535, 65536, 65537, 70000, 131072};
    gCode = amsym_any<int>("code");
    gMsgLen = kMessage[amsym_choice(5, "message length")];
    for (int i = 0; i < gMsgLen; i++) gMsg[i] = (char)('a' + i % 26);
    if (gMsgLen) {
        gMsg[gMsgLen - 1] = amsym_any<char>("last");
        amsym_assume(gMsg[gMsgLen - 1] != 0);
    }
    gMsg[gMsgLen] = 0;
    gInBuffer = amsym_bool("in buffer");
    gAsked = false;
    size_t max = kMax[amsym_choice(13, "max")];
    char* d = (char*)malloc(max + 1);
    memset(d, 'Z', max + 1);
    if (amsym_bool("errno")) { errno = gCode; ke::FormatSystemError(d, max); COVER("errno"); }
    else { ke::FormatSystemErrorCode(gCode, d, max); COVER("code"); }
    CHECK(gAsked);
    size_t want = (size_t)gMsgLen < max ? gMsgLen : max - 1;
    CHECKM(memcmp(d, gMsg, want) == 0, "the system's message is stored, truncated to the buffer");
    CHECKM(d[want] == 0, "the message is terminated");
    CHECKM(d[max] == 'Z', "nothing is written beyond the stated size");
    free(d);
    COVER("end");
}
// Longer texts, around the sizes where an implementation might change its ways: known bytes with a few arbitrary ones.
static int longText() {
    static const int kLen[] = {15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 32768, 65535, 65536, 70000};
    gLen = kLen[amsym_choice(26, "text length")];
    for (int i = 0; i < gLen; i++) gText[i] = (char)('a' + i % 26);
    gText[0] = amsym_any<char>("text");
    gText[gLen / 2] = amsym_any<char>("text");
    gText[gLen - 1] = amsym_any<char>("text");
    gText[gLen] = 0;
    gArg1 = amsym_any<int>("arg");
    gCalls = gFailAt = 0;
    return gLen;
}
ENTRY(long_allocating) {
    amsym_mark_heap();
    longText();
    switch (amsym_choice(4, "form")) {
    case 0: { std::string s = ke::StringPrintf(kFormat, gArg1, kArg2); is(s.data(), gLen, s.size(), "StringPrintf returns exactly the formatted text"); break; }
    case 1: {
        std::string s = va([](va_list ap) { return ke::StringPrintfVa(kFormat, ap); }, gArg1, kArg2);
        is(s.data(), gLen, s.size(), "StringPrintfVa returns exactly the formatted text");
        break;
    }
    case 2: {
        std::unique_ptr<char[]> p = ke::Sprintf(kFormat, gArg1, kArg2);
        CHECK(!!p);
        is(p.get(), gLen, gLen, "Sprintf returns exactly the formatted text");
        CHECKM(p[gLen] == 0, "Sprintf terminates the text");
        break;
    }
    default: {
        std::unique_ptr<char[]> p = va([](va_list ap) { return ke::SprintfArgs(kFormat, ap); }, gArg1, kArg2);
        CHECK(!!p);
        is(p.get(), gLen, gLen, "SprintfArgs returns exactly the formatted text");
        CHECKM(p[gLen] == 0, "SprintfArgs terminates the text");
    }
    }
    amsym_check_leaks();
    COVER("end");
}
ENTRY(long_buffer) {
    longText();
    int path = amsym_choice(2, "path");
    size_t max = (size_t)(gLen - 1) + amsym_choice(4, "max");
    char* d = (char*)malloc(max + 1);
    memset(d, 'z', max + 1);
    size_t got = path ? ke::path::Format(d, max, kFormat, gArg1, kArg2) : ke::SafeSprintf(d, max, kFormat, gArg1, kArg2);
    size_t want = (size_t)gLen < max ? gLen : max - 1;
    CHECKM(got == want, "the stored length is returned");
    for (size_t i = 0; i < want; i++) {
        char c = gText[i];
        if (path && c == '\\') c = '/';
        CHECKM(d[i] == c, "the longest fitting prefix is stored");
    }
    CHECKM(d[want] == 0 && d[max] == 'z', "the text is terminated within the stated size");
    free(d);
    if (path) COVER("path"); else COVER("plain");
}
