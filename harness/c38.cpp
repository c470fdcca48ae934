#include "amsym.h"
#include <amtl/am-time.h>
#include <string.h>
// What the standard facility writes for the same arguments.
static std::string reference(const struct tm& t, const char* fmt) {
    std::ostringstream ss;
    ss << std::put_time(&t, fmt);
    return ss.str();
}
static void setField(int& f, const char* name, int lo, int hi) {
    f = (int)amsym_range(0, hi - lo, name) + lo;
}
static struct tm anyTm() {
    struct tm t;
    memset(&t, 0, sizeof t);
    setField(t.tm_sec, "sec", 0, 62);
    setField(t.tm_min, "min", 0, 61);
    setField(t.tm_hour, "hour", 0, 25);
    setField(t.tm_mday, "mday", 0, 33);
    setField(t.tm_mon, "mon", 0, 13);
    setField(t.tm_year, "year", -2900, 9000);
    setField(t.tm_wday, "wday", 0, 8);
    setField(t.tm_yday, "yday", 0, 367);
    t.tm_isdst = (int)amsym_range(0, 3, "dst") - 1;
    t.tm_gmtoff = 3600;
    t.tm_zone = "UTC";
    return t;
}
// Fields whose texts all have the same length.
static struct tm plainTm() {
    struct tm t;
    memset(&t, 0, sizeof t);
    setField(t.tm_mday, "mday", 1, 32);
    setField(t.tm_year, "year", -900, 8100);
    t.tm_wday = 3;
    t.tm_hour = 13;
    t.tm_zone = "UTC";
    return t;
}
static bool sameTm(const struct tm& a, const struct tm& b) {
    return a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon && a.tm_year == b.tm_year &&
           a.tm_wday == b.tm_wday && a.tm_yday == b.tm_yday && a.tm_isdst == b.tm_isdst && a.tm_gmtoff == b.tm_gmtoff && a.tm_zone == b.tm_zone;
}
static void same(const std::string& got, const std::string& want) {
    CHECKM(got.size() == want.size(), "the text has the length of the standard rendering");
    bool eq = true;
    for (size_t i = 0; i < want.size(); i++) eq &= got[i] == want[i];
    CHECKM(eq, "the text is the standard rendering");
    CHECKM(strlen(got.c_str()) <= got.size() && got.c_str()[got.size()] == 0, "the text is terminated");
}
static const char kConv[] = "YmdHMSjyweIpaAbBhntDTRFxX%";
static char anyConv() { return kConv[amsym_choice(sizeof kConv - 1, "conversion")]; }
static char anyLiteral() { char c = amsym_any<char>("literal"); amsym_assume((c != 0) & (c != '%')); return c; }
ENTRY(one_conversion) {
    struct tm t = anyTm(), before = t;
    char f[6] = {'%', anyConv(), 0};
    std::string got = ke::FormatTime(t, f);
    CHECKM(sameTm(t, before), "the time is left alone");
    same(got, reference(t, f));
    same(ke::FormatTime(t, std::string(f)), got);
    COVER("end");
}
ENTRY(formats) {
    struct tm t = plainTm();
    char f[16];
    int n = 0, k = (int)amsym_choice((int)amsym_param("tokens", 3) + 1, "tokens");
    static const char few[] = "Yd%ap";
    for (int i = 0; i < k; i++) {
        if (amsym_choice(2, "kind")) { f[n++] = anyLiteral(); continue; }
        f[n++] = '%';
        int m = amsym_choice(3, "modifier");
        if (m == 1) f[n++] = 'E';
        if (m == 2) f[n++] = 'O';
        f[n++] = m == 1 ? 'Y' : m == 2 ? 'd' : few[amsym_choice(sizeof few - 1, "conversion")];
    }
    f[n] = 0;
    std::string got = ke::FormatTime(t, f);
    same(got, reference(t, f));
    CHECKM(got.empty() == (k == 0), "only the empty format gives the empty text here");
    std::string again = ke::FormatTime(t, std::string(f, n));
    same(again, got);
    COVER("end");
}
// Times that are no dates of the calendar, and fields that contradict each other, are written as they are.
ENTRY(odd_times) {
    struct tm t;
    memset(&t, 0, sizeof t);
    t.tm_year = 101;
    t.tm_mday = 15;
    t.tm_zone = "UTC";
    switch (amsym_choice(12, "odd")) {
    case 0: t.tm_sec = 60; break;
    case 1: t.tm_sec = 75; break;
    case 2: t.tm_min = 60; break;
    case 3: t.tm_hour = 24; break;
    case 4: t.tm_mday = 0; break;
    case 5: t.tm_mon = 1; t.tm_mday = 30; break;
    case 6: t.tm_mon = 12; break;
    case 7: t.tm_wday = 3; break;
    case 8: t.tm_yday = 200; break;
    case 9: t.tm_isdst = 1; break;
    case 10: t.tm_zone = "NONE"; t.tm_gmtoff = -7200; break;
    default: t.tm_year = -1900; t.tm_mday = 99; break;
    }
    const char* f = "%Y-%m-%d %H:%M:%S %a %j %Z";
    struct tm before = t;
    std::string got = ke::FormatTime(t, f);
    CHECKM(sameTm(t, before), "the time is left alone");
    same(got, reference(t, f));
    same(ke::FormatTime(t, std::string(f)), got);
    COVER("end");
}
// Names of zones.
ENTRY(zones) {
    struct tm t = plainTm();
    char zone[4];
    amsym_symbolic(zone, 3, "zone");
    zone[3] = 0;
    t.tm_zone = zone;
    char f[8] = "%Z";
    if (amsym_choice(2, "more")) { f[2] = anyLiteral(); f[3] = 0; }
    std::string got = ke::FormatTime(t, f);
    if (!zone[0]) { same(got, reference(t, f)); return; }
    size_t zl = strlen(zone), extra = strlen(f) - 2;
    CHECKM(got.size() == zl + extra, "the text has the zone's length");
    for (size_t i = 0; i < zl; i++) CHECKM(got[i] == zone[i], "the zone's name is in the text");
    if (extra) CHECKM(got[zl] == f[2], "the literal follows");
    COVER("end");
}
// Long formats and long texts, around the sizes of any buffer one might choose.
ENTRY(long_formats) {
    static const int kLens[] = {14, 15, 16, 31, 32, 63, 64, 99, 100, 126, 127, 128, 129, 199, 200, 254, 255, 256, 257, 400, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 5000, 70000};
    int from = (int)amsym_param("from", 0), to = (int)amsym_param("to", 23);
    int len = kLens[from + amsym_choice(to - from, "length")];
    struct tm t = plainTm();
    std::string f;
    for (int i = 0; i < len; i++) f += (char)('a' + i % 26);
    f[0] = anyLiteral();
    f[len - 1] = anyLiteral();
    std::string want = f;
    bool conv = amsym_bool("conversion at the end");
    if (conv) { f += "%d"; want += reference(t, "%d"); }
    same(ke::FormatTime(t, f.c_str()), want);
    same(ke::FormatTime(t, f), want);
    COVER("end");
}
// Texts that are much longer than their format.
ENTRY(long_texts) {
    int n = (int)amsym_param("repeat", 60);
    struct tm t = plainTm();
    t.tm_wday = amsym_choice(7, "day");
    std::string f, day = reference(t, "%A"), want;
    for (int i = 0; i < n; i++) { f += "%A"; want += day; }
    same(ke::FormatTime(t, f.c_str()), want);
    same(ke::FormatTime(t, f), want);
    COVER("end");
}
// Each call has a text of its own.
ENTRY(independent) {
    struct tm t = plainTm(), u = plainTm();
    amsym_assume(t.tm_mday != u.tm_mday);
    std::string a = ke::FormatTime(t, "%d"), a2 = a;
    std::string b = ke::FormatTime(u, std::string("%d"));
    CHECKM(a == a2 && a != b, "an earlier text stays as it was");
    same(b, reference(u, "%d"));
    same(a, reference(t, "%d"));
    std::string e = ke::FormatTime(t, "");
    CHECKM(e.empty() && ke::FormatTime(u, std::string()).empty(), "nothing is written for the empty format");
    COVER("end");
}
