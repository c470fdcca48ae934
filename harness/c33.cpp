#include "amsym.h"
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <string>
#include <thread>
#include <amtl/am-thread.h>
#include "live.h"
// What the new thread saw.
static int gRuns, gThread, gA;
static char gB;
static void* gP;
static char gNames[4][32];
static std::string* gText;
static bool gNamed[4];
// The name is recorded as the system receives it (the system's own limit is 15 characters).
extern "C" int __wrap_pthread_setname_np(pthread_t t, const char* n) {
    CHECKM(pthread_equal(t, pthread_self()), "a thread names itself");
    size_t k = strlen(n);
    if (k > 15) return 34;
    memcpy(gNames[amsym_thread_self()], n, k + 1);
    gNamed[amsym_thread_self()] = true;
    return 0;
}
static void start() { gRuns = 0; gThread = -1; memset(gNames, 0, sizeof gNames); memset(gNamed, 0, sizeof gNamed); Tracked::reset(); }
static void ran() {
    CHECKM(gNamed[amsym_thread_self()], "the thread has its name before the callable runs");
    gRuns++;
    gThread = amsym_thread_self();
}
static void plain(int a, char b, void* p) { ran(); gA = a; gB = b; gP = p; }
static std::string anyName() {
    int n = amsym_choice((int)amsym_param("name", 4), "length");
    if (n == 3) n = 15;
    std::string s(n, 'n');
    for (int i = 0; i < n && i < 3; i++) { char c = amsym_any<char>("name"); amsym_assume(c != 0); s[i] = c; }
    return s;
}
static void checkRun(const std::string& name) {
    CHECKM(gRuns == 1, "the callable runs exactly once");
    CHECKM(gThread != amsym_thread_self() && gThread >= 0, "the callable runs on the new thread");
    CHECKM(!strcmp(gNames[gThread], name.c_str()), "the thread received the given name");
    COVER("ran");
}
ENTRY(function) {
    start();
    std::string name = anyName();
    amsym_mark_heap();
    {
        int a = amsym_any<int>("a");
        char b = amsym_any<char>("b");
        void* p = (void*)amsym_any<uintptr_t>("p");
        int a0 = a; char b0 = b; void* p0 = p;
        // The caller's name and arguments are gone by the time the thread may run.
        char* n = (char*)malloc(name.size() + 1);
        memcpy(n, name.c_str(), name.size() + 1);
        std::unique_ptr<std::thread> t = ke::NewThread(n, plain, a, b, p);
        a = ~a;
        b = 0;
        p = nullptr;
        memset(n, '!', name.size());
        free(n);
        CHECKM(!!t && t->joinable(), "a running thread is returned");
        t->join();
        checkRun(name);
        CHECKM(gA == a0 && gB == b0 && gP == p0, "the callable receives exactly the arguments given");
    }
    amsym_check_leaks();
}
// Objects: copied from lvalues, moved from rvalues, destroyed in the end.
static int gValue;
struct Body {
    int k;
    Tracked state;
    Body(int k) : k(k), state(k) {}
    void operator()(const Tracked& a, Tracked& b, int c) const { ran(); CHECK(state.get() == k); gValue = a.get(); gA = b.get(); gB = (char)c; }
};
ENTRY(objects) {
    start();
    std::string name = anyName();
    amsym_mark_heap();
    {
        int x = amsym_any<int>("x"), y = amsym_any<int>("y"), k = amsym_any<int>("k");
        std::unique_ptr<std::thread> t;
        {
            std::string n = name;
            Tracked a(x), b(y);
            Body f(k);
            if (amsym_bool("callable moved")) t = ke::NewThread(n.c_str(), std::move(f), a, std::move(b), 'c');
            else { t = ke::NewThread(n.c_str(), f, a, std::move(b), 'c'); CHECKM(f.state.get() == k, "a callable given as an lvalue is copied"); }
            CHECKM(a.get() == x, "an lvalue argument is copied");
            CHECKM(b.get() == -2, "an rvalue argument is moved");
        }
        t->join();
        checkRun(name);
        CHECKM(gValue == x && gA == y && gB == 'c', "the callable receives exactly the arguments given");
    }
    CHECKM(Tracked::live() == 0, "everything the thread was given is destroyed");
    amsym_check_leaks();
}
// Lambdas with captures, member functions, move-only arguments, text.
struct Worker { int id; void run(int v) { ran(); gA = id; gValue = v; } };
ENTRY(kinds) {
    start();
    std::string name = anyName();
    amsym_mark_heap();
    {
        int v = amsym_any<int>("v");
        std::unique_ptr<std::thread> t;
        Worker w{amsym_any<int>("id")};
        switch (amsym_choice(4, "kind")) {
        case 0: { std::string n = name; t = ke::NewThread(n.c_str(), [v] { ran(); gValue = v; }); gA = w.id; COVER("lambda"); break; }
        case 1: { std::string n = name; t = ke::NewThread(n.c_str(), &Worker::run, &w, v); COVER("member"); break; }
        case 2: { std::string n = name; std::unique_ptr<int> p(new int(v)); t = ke::NewThread(n.c_str(), [](std::unique_ptr<int>& p) { ran(); gValue = *p; }, std::move(p)); CHECK(!p); gA = w.id; COVER("move only"); break; }
        default: { std::string n = name, text(20, 'x'); t = ke::NewThread(n.c_str(), [v](const std::string& s) { ran(); gValue = s == "xxxxxxxxxxxxxxxxxxxx" ? v : ~v; }, text); gA = w.id; COVER("text"); break; }
        }
        t->join();
        checkRun(name);
        CHECKM(gValue == v && gA == w.id, "the callable receives exactly the arguments given");
    }
    amsym_check_leaks();
}
// Two threads at once do not mix their callables and arguments.
static int gGot[2];
ENTRY(pair) {
    amsym_mark_heap();
    start();
    {
        int a = amsym_any<int>("a"), b = amsym_any<int>("b");
        auto t1 = ke::NewThread("one", [](int i, int v) { gGot[i] = v; }, 0, a);
        auto t2 = ke::NewThread("two", [](int i, int v) { gGot[i] = v; }, 1, b);
        t1->join();
        t2->join();
        CHECKM(gGot[0] == a && gGot[1] == b, "each thread runs its own callable");
        CHECKM(!strcmp(gNames[1], "one") && !strcmp(gNames[2], "two"), "each thread has its own name");
        COVER("end");
    }
    amsym_check_leaks();
}
// A name the system refuses costs the thread its name and nothing else.
ENTRY(refused_name) {
    amsym_mark_heap();
    start();
    {
        int n = amsym_choice(3, "length");
        std::string name(n == 0 ? 16 : n == 1 ? 64 : 300, 'n');
        int v = amsym_any<int>("v");
        auto t = ke::NewThread(name.c_str(), [](int x) { gRuns++; gThread = amsym_thread_self(); gA = x; }, v);
        CHECKM(!!t && t->joinable(), "a running thread is returned");
        t->join();
        CHECKM(gRuns == 1 && gThread > 0, "the callable runs exactly once, on the new thread");
        CHECKM(gA == v, "the callable receives exactly the arguments given");
        COVER("end");
    }
    amsym_check_leaks();
}
