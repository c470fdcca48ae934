// Models of C and C++ library functions for symbolic execution (linked as bitcode, replaced by the real ones natively).
#include "amsym.h"
#include <stdarg.h>
#include <errno.h>
#include <limits.h>
#include <list>
#include <thread>
#include <pthread.h>
#include <stdio.h>
#undef errno
#define RT __attribute__((used))
extern "C" {
static int g_errno[16];
RT int* __errno_location() { return &g_errno[amsym_thread_self()]; }
// mode: 0 toward zero, 1 down, 2 up, 3 half away from zero, 4 half to even
}
template <typename T, typename B, int M> static T roundTo(T v, int mode) {
    const int E = sizeof(B) * 8 - 1 - M;
    B b;
    __builtin_memcpy(&b, &v, sizeof b);
    bool neg = b >> (sizeof(B) * 8 - 1);
    int e = (int)(b >> M & (((B)1 << E) - 1)) - ((1 << (E - 1)) - 1);
    if (e >= M) return v;
    B sign = (B)1 << (sizeof(B) * 8 - 1), frac, whole, half;
    if (e < 0) { frac = (b & ~sign) != 0; whole = b & sign; }
    else { B m = ((B)1 << (M - e)) - 1; frac = b & m; whole = b & ~m; }
    bool up = false;
    if (e < -1) half = frac ? 1 : 0;                                                      // 0 none, 1 below, 2 half, 3 above
    else if (e == -1) half = (b & (((B)1 << M) - 1)) ? 3 : 2;
    else { B h = (B)1 << (M - e - 1); half = frac == 0 ? 0 : frac < h ? 1 : frac == h ? 2 : 3; }
    bool odd = e >= 0 && (e == 0 || (b >> (M - e) & 1));
    switch (mode) {
    case 1: up = neg && half; break;
    case 2: up = !neg && half; break;
    case 3: up = half >= 2; break;
    case 4: up = half == 3 || (half == 2 && odd); break;
    }
    T w;
    __builtin_memcpy(&w, &whole, sizeof w);
    if (!up) return w;
    if (e < 0) return neg ? (T)-1 : (T)1;
    B next = whole + ((B)1 << (M - e));
    __builtin_memcpy(&w, &next, sizeof w);
    return w;
}
extern "C" {
#define ROUND(N, MODE) RT double N(double v) { return roundTo<double, uint64_t, 52>(v, MODE); } RT float N##f(float v) { return roundTo<float, uint32_t, 23>(v, MODE); }
ROUND(trunc, 0) ROUND(floor, 1) ROUND(ceil, 2) ROUND(round, 3) ROUND(rint, 4) ROUND(nearbyint, 4)
RT size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
RT size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
RT int memcmp(const void* a, const void* b, size_t n) {
    const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return (int)p[i] - (int)q[i];
    return 0;
}
RT int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
RT void* memchr(const void* a, int c, size_t n) {
    const unsigned char* p = (const unsigned char*)a;
    for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i);
    return nullptr;
}
RT int strcmp(const char* a, const char* b) {
    for (size_t i = 0;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return (int)x - (int)y; if (!x) return 0; }
}
RT int strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return (int)x - (int)y; if (!x) return 0; }
    return 0;
}
#define LOWER(c) ((c) + (((unsigned)((c) - 'A') < 26u) << 5))
#define UPPER(c) ((c) - (((unsigned)((c) - 'a') < 26u) << 5))
RT int tolower(int c) { return LOWER(c); }
RT int toupper(int c) { return UPPER(c); }
RT int isdigit(int c) { return (unsigned)(c - '0') < 10u; }
RT int isspace(int c) { return (int)((c == ' ') | ((unsigned)(c - 9) < 5u)); }
RT int isalpha(int c) { return (unsigned)((c | 32) - 'a') < 26u; }
RT int isalnum(int c) { return (int)(((unsigned)((c | 32) - 'a') < 26u) | ((unsigned)(c - '0') < 10u)); }
RT int isupper(int c) { return (unsigned)(c - 'A') < 26u; }
RT int islower(int c) { return (unsigned)(c - 'a') < 26u; }
RT int isprint(int c) { return (unsigned)(c - 32) < 95u; }
RT int isxdigit(int c) { return (int)(((unsigned)(c - '0') < 10u) | ((unsigned)((c | 32) - 'a') < 6u)); }
RT int ispunct(int c) { return (int)(((unsigned)(c - 33) < 94u) & !(((unsigned)((c | 32) - 'a') < 26u) | ((unsigned)(c - '0') < 10u))); }
RT int strcasecmp(const char* a, const char* b) {
    for (size_t i = 0;; i++) { int x = (unsigned char)a[i], y = (unsigned char)b[i]; int lx = LOWER(x), ly = LOWER(y); if (lx != ly) return lx - ly; if (!x) return 0; }
}
RT int strncasecmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) { int x = (unsigned char)a[i], y = (unsigned char)b[i]; int lx = LOWER(x), ly = LOWER(y); if (lx != ly) return lx - ly; if (!x) return 0; }
    return 0;
}
RT char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
RT char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
RT char* strstr(const char* h, const char* n) {
    size_t l = strlen(n);
    for (;; h++) { if (strncmp(h, n, l) == 0) return (char*)h; if (!*h) return nullptr; }
}
RT char* strpbrk(const char* s, const char* a) { for (; *s; s++) for (const char* p = a; *p; p++) if (*p == *s) return (char*)s; return nullptr; }
RT size_t strspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
RT size_t strcspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
RT char* strcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
RT char* stpcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
RT char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
RT char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
RT char* strncat(char* d, const char* s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
RT void* malloc(size_t);
RT char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }

static unsigned long long conv(const char* s, char** end, int base, bool isSigned, int bits) {
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false;
    if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0, lim = isSigned ? (1ull << (bits - 1)) - (neg ? 0 : 1) : bits == 64 ? ~0ull : (1ull << bits) - 1;
    bool any = false, over = false;
    int small = base <= 10 && bits == 64 ? 18 : 0;     // this many digits cannot overflow
    for (;; p++) {
        int c = (unsigned char)*p;
        int d;
        if ((unsigned)(c - '0') < 10u) d = c - '0';
        else if ((unsigned)((c | 32) - 'a') < 26u) d = (c | 32) - 'a' + 10;
        else break;
        if (d >= base) break;
        any = true;
        if (over) continue;
        if (--small < 0 && v > (lim - d) / base) { over = true; continue; }
        v = v * base + d;
    }
    if (end) *end = (char*)(any ? p : s);
    if (over) { *__errno_location() = ERANGE; return isSigned ? (neg ? 0 - (1ull << (bits - 1)) : (1ull << (bits - 1)) - 1) : lim; }
    return neg ? 0 - v : v;
}
RT long strtol(const char* s, char** e, int b) { return (long)conv(s, e, b, true, 64); }
RT long long strtoll(const char* s, char** e, int b) { return (long long)conv(s, e, b, true, 64); }
RT unsigned long strtoul(const char* s, char** e, int b) { return conv(s, e, b, false, 64); }
RT unsigned long long strtoull(const char* s, char** e, int b) { return conv(s, e, b, false, 64); }
RT long __isoc23_strtol(const char* s, char** e, int b) { return (long)conv(s, e, b, true, 64); }
RT long long __isoc23_strtoll(const char* s, char** e, int b) { return (long long)conv(s, e, b, true, 64); }
RT unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return conv(s, e, b, false, 64); }
RT unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return conv(s, e, b, false, 64); }
RT int atoi(const char* s) { return (int)conv(s, nullptr, 10, true, 64); }
RT long atol(const char* s) { return (long)conv(s, nullptr, 10, true, 64); }

// A subset of printf: d i u x X c s p % with flags 0 - , width, precision, h l ll z.
static void put(char* b, size_t cap, size_t& n, char c) { if (n < cap) b[n] = c; n++; }
RT int vsnprintf(char* b, size_t cap0, const char* f, va_list ap) {
    size_t n = 0, cap = cap0 ? cap0 - 1 : 0;
    for (; *f; f++) {
        if (*f != '%') { put(b, cap, n, *f); continue; }
        f++;
        bool left = false, zero = false, plus = false;
        for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else break; }
        int width = 0, prec = -1;
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; }
        else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        int l = 0;
        for (;; f++) { if (*f == 'l') l++; else if (*f == 'z' || *f == 'j' || *f == 't') l = 2; else if (*f == 'h') {} else break; }
        char tmp[32];
        const char* s = tmp;
        size_t len = 0;
        bool neg = false, num = false;
        switch (*f) {
        case '%': put(b, cap, n, '%'); continue;
        case 'c': tmp[0] = (char)va_arg(ap, int); len = 1; break;
        case 's': s = va_arg(ap, const char*); if (!s) s = "(null)"; while ((prec < 0 || len < (size_t)prec) && s[len]) len++; break;
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': {
            unsigned long long v;
            unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : 10;
            if (*f == 'd' || *f == 'i') { long long x = l ? va_arg(ap, long long) : (long long)va_arg(ap, int); neg = x < 0; v = neg ? 0 - (unsigned long long)x : x; }
            else v = (l || *f == 'p') ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
            char* e = tmp + sizeof tmp;
            char* q = e;
            do { unsigned d = v % base; *--q = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); v /= base; } while (v);
            if (*f == 'p') { *--q = 'x'; *--q = '0'; }
            s = q;
            len = e - q;
            num = true;
            break;
        }
        default: amsym_assert(0, "printf conversion outside the model"); return -1;
        }
        size_t tot = len + (neg || (num && plus));
        char sign = neg ? '-' : plus && num ? '+' : 0;
        if (num && zero && !left && sign) { put(b, cap, n, sign); sign = 0; }
        if (!left) for (size_t i = tot; i < (size_t)width; i++) put(b, cap, n, zero && num ? '0' : ' ');
        if (sign) put(b, cap, n, sign);
        for (size_t i = 0; i < len; i++) put(b, cap, n, s[i]);
        if (left) for (size_t i = tot; i < (size_t)width; i++) put(b, cap, n, ' ');
    }
    if (cap0) b[n < cap ? n : cap] = 0;
    return (int)n;
}
RT int snprintf(char* b, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, cap, f, ap); va_end(ap); return r; }
RT int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, INT_MAX, f, ap); }
RT int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, INT_MAX, f, ap); va_end(ap); return r; }

// Output streams: everything written is appended to one buffer, a larger one once the first is full.
static char amsym_out_small[8192], amsym_out_large[1 << 19];
static char* amsym_out = amsym_out_small;
static size_t amsym_out_len, amsym_out_cap = sizeof amsym_out_small;
static bool out_grow() {
    if (amsym_out == amsym_out_large) return false;
    for (size_t i = 0; i <= amsym_out_len; i++) amsym_out_large[i] = amsym_out[i];
    amsym_out = amsym_out_large;
    amsym_out_cap = sizeof amsym_out_large;
    return true;
}
static void outc(char c) { if (amsym_out_len + 1 < amsym_out_cap || out_grow()) { amsym_out[amsym_out_len++] = c; amsym_out[amsym_out_len] = 0; } }
RT FILE* amsym_out_open() { amsym_out_len = 0; amsym_out[0] = 0; return (FILE*)amsym_out_small; }
RT const char* amsym_out_text(FILE*) { return amsym_out; }
RT void amsym_out_close(FILE*) {}
RT int vfprintf(FILE*, const char* f, va_list ap) {
    for (;;) {
        va_list again;
        va_copy(again, ap);
        size_t room = amsym_out_cap - amsym_out_len;
        int n = vsnprintf(amsym_out + amsym_out_len, room, f, again);
        va_end(again);
        if (n >= 0 && (size_t)n >= room && out_grow()) continue;
        if (n > 0) amsym_out_len += (size_t)n < room ? (size_t)n : room - 1;
        return n;
    }
}
RT int fprintf(FILE* fp, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(fp, f, ap); va_end(ap); return r; }
RT int printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf((FILE*)amsym_out_small, f, ap); va_end(ap); return r; }
RT int vprintf(const char* f, va_list ap) { return vfprintf((FILE*)amsym_out_small, f, ap); }
RT int fputs(const char* s, FILE*) { while (*s) outc(*s++); return 0; }
RT int puts(const char* s) { while (*s) outc(*s++); outc('\n'); return 0; }
RT int fputc(int c, FILE*) { outc((char)c); return c; }
RT int putc(int c, FILE*) { outc((char)c); return c; }
RT int putchar(int c) { outc((char)c); return c; }
RT size_t fwrite(const void* p, size_t a, size_t n, FILE*) { for (size_t i = 0; i < a * n; i++) outc(((const char*)p)[i]); return n; }
RT int fflush(FILE*) { return 0; }

// Threads
RT int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) { return 0; }
RT int pthread_mutex_destroy(pthread_mutex_t* m) { amsym_assert(amsym_mutex_owner(m) < 0, "a locked mutex is destroyed"); return 0; }
RT int pthread_mutex_lock(pthread_mutex_t* m) { amsym_mutex_lock(m); return 0; }
RT int pthread_mutex_trylock(pthread_mutex_t* m) { return amsym_mutex_trylock(m) ? 0 : EBUSY; }
RT int pthread_mutex_unlock(pthread_mutex_t* m) { amsym_mutex_unlock(m); return 0; }
RT pthread_t pthread_self() { return (pthread_t)(amsym_thread_self() + 1); }
RT int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
RT int sched_yield() { amsym_yield(); return 0; }
RT int usleep(unsigned) { amsym_yield(); return 0; }
RT unsigned sleep(unsigned) { amsym_yield(); return 0; }
RT int nanosleep(const struct timespec*, struct timespec*) { amsym_yield(); return 0; }

// Thread-specific data. Keys are never reused; creation may be made to fail by the harness.
int amsym_key_fail;             // harness: the next n creations fail
int amsym_keys_created, amsym_keys_deleted;
static struct { int state; const void* val[8]; } g_keys[16];
static char g_keylock;
RT int pthread_key_create(pthread_key_t* k, void (*)(void*)) {
    amsym_sync(&g_keylock, 1);
    if (amsym_key_fail) { amsym_key_fail--; return EAGAIN; }
    int i = amsym_keys_created++;
    amsym_assert(i < 16, "key table of the model is full");
    g_keys[i].state = 1;
    for (int t = 0; t < 8; t++) g_keys[i].val[t] = nullptr;
    *k = i;
    return 0;
}
RT int pthread_key_delete(pthread_key_t k) {
    amsym_sync(&g_keylock, 1);
    amsym_assert(k < 16 && g_keys[k].state == 1, "deletion of a thread-specific key that does not exist");
    g_keys[k].state = 2;
    amsym_keys_deleted++;
    return 0;
}
RT void* pthread_getspecific(pthread_key_t k) {
    amsym_assert(k < 16 && g_keys[k].state == 1, "use of a thread-specific key that does not exist");
    return (void*)g_keys[k].val[amsym_thread_self()];
}
RT int pthread_setspecific(pthread_key_t k, const void* v) {
    amsym_assert(k < 16 && g_keys[k].state == 1, "use of a thread-specific key that does not exist");
    g_keys[k].val[amsym_thread_self()] = v;
    return 0;
}
RT int amsym_keys_live() { return amsym_keys_created - amsym_keys_deleted; }
static char g_names[8][32];
RT int pthread_setname_np(pthread_t t, const char* n) { int i = (int)t - 1; size_t k = strlen(n); if (k > 15) return ERANGE; for (size_t j = 0; j <= k; j++) g_names[i][j] = n[j]; return 0; }
RT const char* amsym_thread_name() { return g_names[amsym_thread_self()]; }
}
// std::thread
namespace {
void amsym_run_state(void* p) {
    std::thread::_State* st = (std::thread::_State*)p;
    st->_M_run();
    delete st;
}
}
std::thread::_State::~_State() {}
void std::thread::_M_start_thread(_State_ptr st, void (*)()) {
    int t = amsym_thread_create(amsym_run_state, st.release());
    pthread_t h = (pthread_t)(t + 1);
    __builtin_memcpy(&_M_id, &h, sizeof h);
}
void std::thread::join() {
    pthread_t h;
    __builtin_memcpy(&h, &_M_id, sizeof h);
    amsym_thread_join((int)h - 1);
    _M_id = id();
}
void std::thread::detach() { _M_id = id(); }
unsigned std::thread::hardware_concurrency() noexcept { return 2; }
// std::list
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) {
        l->_M_prev->_M_next = this;
        f->_M_prev->_M_next = l;
        _M_prev->_M_next = f;
        _List_node_base* const t = _M_prev;
        _M_prev = l->_M_prev;
        l->_M_prev = f->_M_prev;
        f->_M_prev = t;
    }
}
}}
