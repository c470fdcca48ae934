// The part of libstdc++'s streams and locales that is not in headers, for symbolic execution: one locale ("C"), whose
// facets are those that formatted output needs. Everything else is the library's own template code, instantiated here.
// Linked only into programs that use streams.
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "amsym.h"
#include <iomanip>
#include <limits.h>
#include <locale>
#include <sstream>
#include <string.h>
#include <time.h>
#define RT __attribute__((used))

// strftime in the C locale, for the conversions below.
static char* str(char* o, const char* s) { while (*s) *o++ = *s++; *o = 0; return o; }
static char* num(char* o, int v, int width, char pad) {
    if (width == 2 && pad == '0' && v >= 0 && v <= 99) { *o++ = (char)('0' + v / 10); *o++ = (char)('0' + v % 10); *o = 0; return o; }
    if (v >= 1000 && v <= 9999) { *o++ = (char)('0' + v / 1000); *o++ = (char)('0' + v / 100 % 10); *o++ = (char)('0' + v / 10 % 10); *o++ = (char)('0' + v % 10); *o = 0; return o; }
    char t[16];
    int n = 0;
    unsigned u = v < 0 ? 0u - (unsigned)v : (unsigned)v;
    do { t[n++] = (char)('0' + u % 10); u /= 10; } while (u);
    if (v < 0) *o++ = '-', width--;
    for (int i = n; i < width; i++) *o++ = pad;
    while (n) *o++ = t[--n];
    *o = 0;
    return o;
}
static char* one(char* o, char c, const struct tm* t) {
    static const char days[] = "SundayMondayTuesdayWednesdayThursdayFridaySaturday";
    static const unsigned char dayAt[] = {0, 6, 12, 19, 28, 36, 42, 50};
    static const char months[] = "JanuaryFebruaryMarchAprilMayJuneJulyAugustSeptemberOctoberNovemberDecember";
    static const unsigned char monthAt[] = {0, 7, 15, 20, 25, 28, 32, 36, 42, 51, 58, 66, 74};
    switch (c) {
    case '%': *o++ = '%'; *o = 0; return o;
    case 'n': *o++ = '\n'; *o = 0; return o;
    case 't': *o++ = '\t'; *o = 0; return o;
    case 'd': return num(o, t->tm_mday, 2, '0');
    case 'e': return num(o, t->tm_mday, 2, ' ');
    case 'H': return num(o, t->tm_hour, 2, '0');
    case 'I': { int h = t->tm_hour; if (h > 12) h -= 12; else if (h == 0) h = 12; return num(o, h, 2, '0'); }
    case 'M': return num(o, t->tm_min, 2, '0');
    case 'S': return num(o, t->tm_sec, 2, '0');
    case 'm': return num(o, (int)(1u + t->tm_mon), 2, '0');
    case 'j': return num(o, (int)(1u + t->tm_yday), 3, '0');
    case 'Y': amsym_assert(t->tm_year <= INT_MAX - 1900, "strftime year outside the model"); return num(o, t->tm_year + 1900, 1, '0');
    case 'y': { int y = t->tm_year % 100; if (y < 0) y = t->tm_year < -1900 ? -y : y + 100; return num(o, y, 2, '0'); }
    case 'w': return num(o, t->tm_wday, 1, '0');
    case 'p': return str(o, t->tm_hour > 11 ? "PM" : "AM");
    case 'a': case 'A': {
        int d = t->tm_wday;
        if (d < 0 || d > 6) return str(o, "?");
        int n = c == 'a' ? 3 : dayAt[d + 1] - dayAt[d];
        for (int i = 0; i < n; i++) *o++ = days[dayAt[d] + i];
        *o = 0;
        return o;
    }
    case 'b': case 'h': case 'B': {
        int m = t->tm_mon;
        if (m < 0 || m > 11) return str(o, "?");
        int n = c != 'B' ? 3 : monthAt[m + 1] - monthAt[m];
        for (int i = 0; i < n; i++) *o++ = months[monthAt[m] + i];
        *o = 0;
        return o;
    }
    case 'R': o = one(o, 'H', t); *o++ = ':'; return one(o, 'M', t);
    case 'T': case 'X': o = one(o, 'R', t); *o++ = ':'; return one(o, 'S', t);
    case 'D': case 'x': o = one(o, 'm', t); *o++ = '/'; o = one(o, 'd', t); *o++ = '/'; return one(o, 'y', t);
    case 'F': o = one(o, 'Y', t); *o++ = '-'; o = one(o, 'm', t); *o++ = '-'; return one(o, 'd', t);
    case 'Z': return o;             // written by the caller
    default: amsym_assert(0, "strftime conversion outside the model"); return o;
    }
}
extern "C" {
RT size_t strftime(char* b, size_t cap, const char* f, const struct tm* t) {
    size_t n = 0;
    for (; *f; f++) {
        char tmp[96];
        const char* s = tmp;
        size_t len = 1;
        if (*f != '%') { tmp[0] = *f; }
        else {
            f++;
            if (*f == 'E' || *f == 'O') f++;
            if (*f == 'Z') { s = t->tm_zone && *t->tm_zone ? t->tm_zone : "GMT"; len = strlen(s); }
            else len = one(tmp, *f, t) - tmp;
        }
        if (len >= cap - n) return 0;
        for (size_t i = 0; i < len; i++) b[n++] = s[i];
    }
    if (!cap) return 0;
    b[n] = 0;
    return n;
}
// Calendar arithmetic, in UTC.
static long long daysBefore(long long y, unsigned m) {   // days from 1970-01-01 to the first of month m (0..11) of year y
    static const unsigned short cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    long long p = y - 1;
    long long leaps = (p >= 0 ? p / 4 - p / 100 + p / 400 : -((3 - p) / 4) + (99 - p) / 100 - (399 - p) / 400);
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    return (y - 1970) * 365 + leaps - 477 + cum[m] + (m > 1 && leap);
}
RT struct tm* gmtime_r(const time_t* t, struct tm* r) {
    long long days = *t / 86400, rem = *t % 86400;
    if (rem < 0) { rem += 86400; days--; }
    long long y = 1970 + days / 366;
    if (days < 0) y--;
    while (daysBefore(y + 1, 0) <= days) y++;
    while (daysBefore(y, 0) > days) y--;
    unsigned m = 0;
    while (m < 11 && daysBefore(y, m + 1) <= days) m++;
    r->tm_sec = rem % 60; r->tm_min = rem / 60 % 60; r->tm_hour = rem / 3600;
    r->tm_mday = days - daysBefore(y, m) + 1; r->tm_mon = m; r->tm_year = y - 1900;
    r->tm_yday = days - daysBefore(y, 0);
    r->tm_wday = ((days + 4) % 7 + 7) % 7;
    r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "GMT";
    return r;
}
RT time_t timegm(struct tm* t) {
    long long mon = t->tm_mon, y = t->tm_year + 1900ll + mon / 12;
    mon %= 12;
    if (mon < 0) { mon += 12; y--; }
    time_t r = (daysBefore(y, (unsigned)mon) + t->tm_mday - 1) * 86400 + t->tm_hour * 3600ll + t->tm_min * 60ll + t->tm_sec;
    gmtime_r(&r, t);
    return r;
}
RT time_t mktime(struct tm* t) { time_t r = timegm(t); t->tm_zone = "UTC"; return r; }
RT struct tm* localtime_r(const time_t* t, struct tm* r) { gmtime_r(t, r); r->tm_zone = "UTC"; return r; }
RT struct tm* gmtime(const time_t* t) { static struct tm r; return gmtime_r(t, &r); }
RT struct tm* localtime(const time_t* t) { static struct tm r; return localtime_r(t, &r); }
RT size_t strftime_l(char* b, size_t cap, const char* f, const struct tm* t, locale_t) { return strftime(b, cap, f, t); }
RT size_t __strftime_l(char* b, size_t cap, const char* f, const struct tm* t, locale_t) { return strftime(b, cap, f, t); }
}

namespace std {
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
namespace __cxx11 {
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
}
template <> void __timepunct<char>::_M_put(char* s, size_t maxlen, const char* f, const tm* t) const throw() { if (!strftime(s, maxlen, f, t)) s[0] = 0; }
template <> void __timepunct<char>::_M_initialize_timepunct(__c_locale) { _M_data = nullptr; }
template <> __timepunct<char>::~__timepunct() {}
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
    static char data[sizeof(__numpunct_cache<char>)];
    auto* c = (__numpunct_cache<char>*)data;
    c->_M_grouping = "";
    c->_M_grouping_size = 0;
    c->_M_use_grouping = false;
    c->_M_decimal_point = '.';
    c->_M_thousands_sep = ',';
    c->_M_truename = "true"; c->_M_truename_size = 4;
    c->_M_falsename = "false"; c->_M_falsename_size = 5;
    for (size_t i = 0; i < __num_base::_S_oend; i++) c->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
    for (size_t i = 0; i < __num_base::_S_iend; i++) c->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
    _M_data = c;
}
template <> numpunct<char>::~numpunct() {}
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
template class time_put<char>;
template class num_put<char>;
template class __timepunct<char>;
template class numpunct<char>;
bool uncaught_exception() noexcept { return false; }
int uncaught_exceptions() noexcept { return 0; }
void __throw_ios_failure(const char*) { __builtin_trap(); }
void __throw_bad_cast() { __builtin_trap(); }

locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
const char* locale::facet::_S_get_c_name() throw() { return "C"; }
size_t locale::id::_M_id() const throw() {
    static size_t n;
    if (!_M_index) _M_index = ++n;
    return _M_index - 1;
}
locale::id ctype<char>::id;

void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; i++) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }
ctype<char>::ctype(const mask* t, bool, size_t refs) : facet(refs), _M_c_locale_ctype(), _M_del(false), _M_toupper(), _M_tolower(), _M_table(t) { _M_widen_init(); _M_narrow_init(); }
ctype<char>::~ctype() {}
extern "C" int toupper(int);
extern "C" int tolower(int);
char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; a++) *a = do_toupper(*a); return b; }
char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; a++) *a = do_tolower(*a); return b; }

namespace {
enum { kFacets = 12 };
alignas(16) char theImpl[sizeof(locale::_Impl)];
const locale::facet* theFacets[kFacets];
const locale::facet* theCaches[kFacets];
bool ready;
template <typename F> void install(void* at) { theFacets[F::id._M_id()] = new (at) F(size_t(1)); }
locale::_Impl* theLocale() {
    locale::_Impl* impl = (locale::_Impl*)theImpl;
    if (ready) return impl;
    ready = true;
    impl->_M_refcount = 1;
    impl->_M_facets = theFacets;
    impl->_M_facets_size = kFacets;
    impl->_M_caches = theCaches;
    alignas(16) static char a[sizeof(ctype<char>)], b[sizeof(time_put<char>)], c[sizeof(__timepunct<char>)], d[sizeof(num_put<char>)], e[sizeof(numpunct<char>)];
    theFacets[ctype<char>::id._M_id()] = new (a) ctype<char>(nullptr, false, 1);
    install<time_put<char>>(b);
    install<__timepunct<char>>(c);
    install<num_put<char>>(d);
    install<numpunct<char>>(e);
    return impl;
}
}
void locale::_Impl::_M_install_cache(const facet* f, size_t i) { theCaches[i] = f; }
locale::locale() throw() : _M_impl(theLocale()) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
const locale& locale::classic() { static locale::_Impl* p; p = theLocale(); return *(const locale*)&p; }
locale locale::global(const locale& l) { return l; }

ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_size(_S_local_word_size), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() {
    _M_precision = 6;
    _M_width = 0;
    _M_flags = skipws | dec;
    _M_ios_locale = locale();
}
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw() { locale old = _M_ios_locale; _M_ios_locale = l; return old; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
}
