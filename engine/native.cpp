// Native counterpart of the executor: runs a harness on concrete inputs against the real build.
// usage: prog ENTRY MODE FILE   MODE: v (validate observations) | r (replay, report failures)
// FILE holds blocks: "W", "I name hex", "S t t t", "O hex", "P name value", "E".
#include "amsym.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

static std::map<std::string, std::string>* g_in;
static std::map<std::string, int>* g_occ;
static std::map<std::string, long>* g_par;
static std::vector<int> g_sched;
static std::vector<uint64_t> g_expect;
static size_t g_obs;
static bool g_validate;

static void fail(const char* k, const char* m) {
    fprintf(stderr, "AMSYM-FAIL %s: %s\n", k, m);
    fflush(stderr);
    _exit(77);
}
extern "C" {
#if defined(__SANITIZE_ADDRESS__) || defined(AMSYM_HOOKS)
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
static long g_allocs, g_live;
static __thread bool g_on;       // the harness's own code is running on this thread
static void onM(const volatile void*, size_t) { if (g_on) { g_allocs++; g_live++; } }
static void onF(const volatile void* p) { if (g_on && p) g_live--; }
static void hooksInit() { __sanitizer_install_malloc_and_free_hooks(onM, onF); }
#define PAUSE bool was_on_ = g_on; g_on = false
#define RESUME g_on = was_on_
int __asan_region_is_poisoned_stub(void) { return 0; }
#else
static long g_allocs, g_live;
static __thread bool g_on;
static void hooksInit() {}
#define PAUSE
#define RESUME
#endif
#ifdef __SANITIZE_ADDRESS__
void* __asan_region_is_poisoned(void* beg, size_t size);
int amsym_valid(const void* p, size_t n) { return p && !__asan_region_is_poisoned((void*)p, n); }
#else
int amsym_valid(const void* p, size_t) { return p != nullptr; }
#endif
void amsym_symbolic(void* p, size_t n, const char* name) {
    PAUSE;
    {
        std::string nm = std::string(name) + "#" + std::to_string((*g_occ)[name]++);
        if (n == 1 || n == 2 || n == 4 || n == 8) {
            auto it = g_in->find(nm);
            memset(p, 0, n);
            if (it != g_in->end()) memcpy(p, it->second.data(), it->second.size() < n ? it->second.size() : n);
        } else for (size_t i = 0; i < n; i++) {
            auto it = g_in->find(nm + "." + std::to_string(i));
            ((char*)p)[i] = it == g_in->end() ? 0 : it->second[0];
        }
    }
    RESUME;
}
uint64_t amsym_range(uint64_t lo, uint64_t hi, const char* name) {
    uint64_t v = 0;
    PAUSE;
    {
        std::string nm = std::string(name) + "#" + std::to_string((*g_occ)[name]++);
        auto it = g_in->find(nm);
        if (it != g_in->end()) memcpy(&v, it->second.data(), it->second.size() < 8 ? it->second.size() : 8);
        else v = lo;
    }
    RESUME;
    if (v < lo || v >= hi) { fprintf(stderr, "AMSYM-INPUT %s out of range\n", name); _exit(76); }
    return v;
}
void amsym_assume(int c) { if (!c) { fprintf(stderr, "AMSYM-ASSUME violated natively\n"); _exit(76); } }
void amsym_assert(int c, const char* m) { if (!c) fail("assert", m); }
void amsym_observe(uint64_t v) {
    if (g_validate) {
        if (g_obs >= g_expect.size() || g_expect[g_obs] != v) { fprintf(stderr, "AMSYM-MISMATCH observation %zu: native %llx, executor %llx\n", g_obs, (unsigned long long)v, g_obs < g_expect.size() ? (unsigned long long)g_expect[g_obs] : 0ull); _exit(75); }
    }
    g_obs++;
}
void amsym_cover(const char*) {}
void amsym_note(const char*) {}
int amsym_is_native(void) { return 1; }
void amsym_mark_heap(void) { g_live = 0; }
uint64_t amsym_heap_live(void) { return g_live; }
uint64_t amsym_alloc_count(void) { return g_allocs; }
void amsym_check_leaks(void) {
#if defined(__SANITIZE_ADDRESS__) || defined(AMSYM_HOOKS)
    if (g_live > 0) fail("leak", "heap blocks were never freed");
#endif
}
void amsym_finish(void) {
    g_on = false;
    if (g_validate && g_obs != g_expect.size()) { fprintf(stderr, "AMSYM-MISMATCH number of observations: native %zu, executor %zu\n", g_obs, g_expect.size()); _exit(75); }
    _exit(0);
}
uint64_t amsym_param(const char* n, uint64_t d) { auto it = g_par->find(n); return it == g_par->end() ? d : it->second; }

// ---- threads: one token, handed over according to the schedule
static int g_turn, g_live_threads = 1, g_next = 1;
static size_t g_pos;
static __thread int g_me;
static pthread_t g_pt[16];
static int g_done[16];
static void futexWait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); }
static void futexWake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE, 1000, nullptr, nullptr, 0); }
static void waitTurn() { for (;;) { int t = __atomic_load_n(&g_turn, __ATOMIC_SEQ_CST); if (t == g_me) return; futexWait(&g_turn, t); } }
static void handTo(int t) { __atomic_store_n(&g_turn, t, __ATOMIC_SEQ_CST); futexWake(&g_turn); }
static int nextThread(bool finished) {
    if (g_pos < g_sched.size()) return g_sched[g_pos++];
    if (!finished) return g_me;
    for (int i = 0; i < g_next; i++) if (!g_done[i]) return i;    // schedule exhausted: anyone left
    return 0;
}
void amsym_sp(void) {
    if (g_live_threads <= 1) return;
    int n = nextThread(false);
    if (n == g_me) return;
    handTo(n);
    waitTurn();
}
struct Start { void (*fn)(void*); void* arg; int id; };
static void* threadMain(void* p) {
    Start s = *(Start*)p;
    g_me = s.id;
    waitTurn();
    g_on = true;
    s.fn(s.arg);
    g_on = false;
    g_done[g_me] = 1;
    g_live_threads--;
    handTo(nextThread(true));
    return nullptr;
}
static Start g_starts[16];
int amsym_thread_create(void (*fn)(void*), void* arg) {
    int id = g_next++;
    g_starts[id] = {fn, arg, id};
    g_live_threads++;
    PAUSE;
    if (pthread_create(&g_pt[id], nullptr, threadMain, &g_starts[id])) abort();
    RESUME;
    return id;
}
void amsym_thread_join(int t) {
    amsym_sp();
    while (!g_done[t]) { // only when the schedule is exhausted
        handTo(t);
        waitTurn();
    }
    PAUSE;
    pthread_join(g_pt[t], nullptr);
    RESUME;
}
int amsym_thread_self(void) { return g_me; }
#ifdef AMSYM_SCHED
#ifdef AMSYM_TSAN
extern "C" void __tsan_acquire(void*); extern "C" void __tsan_release(void*);
#define TACQ(p) __tsan_acquire(p)
#define TREL(p) __tsan_release(p)
#else
#define TACQ(p)
#define TREL(p)
#endif
static struct { void* m; int owner; } g_mx[64];
static int mxOf(void* m) { for (int i = 0; i < 64; i++) { if (g_mx[i].m == m) return i; if (!g_mx[i].m) { g_mx[i].m = m; g_mx[i].owner = -1; return i; } } abort(); }
void amsym_sync(void* a, int w) { amsym_sp(); TACQ(a); if (w) TREL(a); }
void amsym_mutex_lock(void* m) { amsym_sp(); int i = mxOf(m); if (g_mx[i].owner >= 0) for (;;) pause(); g_mx[i].owner = g_me; TACQ(m); }
int amsym_mutex_trylock(void* m) { amsym_sp(); int i = mxOf(m); if (g_mx[i].owner >= 0) return 0; g_mx[i].owner = g_me; TACQ(m); return 1; }
void amsym_mutex_unlock(void* m) { amsym_sp(); int i = mxOf(m); if (g_mx[i].owner != g_me) fail("mutex", "unlock of a mutex the thread does not hold"); TREL(m); g_mx[i].owner = -1; }
int amsym_mutex_owner(void* m) { return g_mx[mxOf(m)].owner; }
int amsym_yield(void) { return 0; }
#else
void amsym_sync(void*, int) {}
int amsym_yield(void) { return 0; }
static char* g_outbuf;
static size_t g_outn;
FILE* amsym_out_open() { PAUSE; FILE* f = open_memstream(&g_outbuf, &g_outn); RESUME; return f; }
const char* amsym_out_text(FILE* f) { PAUSE; fflush(f); RESUME; return g_outbuf; }
void amsym_out_close(FILE* f) { PAUSE; fclose(f); free(g_outbuf); RESUME; }
#endif
}

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    void* h = dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    void (*entry)() = (void (*)())h;
    g_validate = argv[2][0] == 'v';
    FILE* f = fopen(argv[3], "r");
    if (!f) return 2;
    g_in = new std::map<std::string, std::string>;
    g_occ = new std::map<std::string, int>;
    g_par = new std::map<std::string, long>;
    hooksInit();
    std::vector<char> line(1 << 20);
    int n = 0;
    while (fgets(line.data(), line.size(), f)) {
        std::string l(line.data());
        while (!l.empty() && l.back() == '\n') l.pop_back();
        if (l == "W") { g_in->clear(); g_expect.clear(); g_sched.clear(); }
        else if (l[0] == 'P') { size_t sp = l.find(' ', 2); (*g_par)[l.substr(2, sp - 2)] = atol(l.c_str() + sp + 1); }
        else if (l[0] == 'I') {
            size_t sp = l.rfind(' ');
            std::string nm = l.substr(2, sp - 2), hex = l.substr(sp + 1), b;
            for (size_t i = 0; i + 1 < hex.size(); i += 2) b += (char)strtol(hex.substr(i, 2).c_str(), nullptr, 16);
            (*g_in)[nm] = b;
        } else if (l[0] == 'S') { const char* p = l.c_str() + 1; char* e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; g_sched.push_back(v); p = e; } }
        else if (l[0] == 'O') g_expect.push_back(strtoull(l.c_str() + 2, nullptr, 16));
        else if (l == "E") {
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                alarm(getenv("AMSYM_ALARM") ? atoi(getenv("AMSYM_ALARM")) : 20);
#if defined(__SANITIZE_ADDRESS__) || defined(AMSYM_HOOKS)
                g_on = true;
#endif
                entry();
#if defined(__SANITIZE_ADDRESS__) || defined(AMSYM_HOOKS)
                g_on = false;
#endif
                if (g_validate && g_obs != g_expect.size()) { fprintf(stderr, "AMSYM-MISMATCH number of observations: native %zu, executor %zu\n", g_obs, g_expect.size()); _exit(75); }
                _exit(0);
            }
            int st;
            waitpid(pid, &st, 0);
            printf("RESULT %d %s %d\n", n++, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            fflush(stdout);
        }
    }
    return 0;
}
