#include "amsym.h"
#include <assert.h>
#include <mutex>
#include <amtl/am-mutex.h>
// A failing ownership assertion ends the run; whether it may fail is what the harness knows.
static int gHolder[4];          // by thread: whether it holds the mutex
static bool gExpect[4];
static int gFailsExpected;
static void assertionFailed() {
    int me = amsym_thread_self();
    CHECKM(gExpect[me], "a thread that holds the mutex passes the ownership assertion");
    amsym_finish();
}
extern "C" void __wrap___assert_fail(const char*, const char*, unsigned, const char*) { assertionFailed(); }
extern "C" void __wrap_abort() { assertionFailed(); }
static ke::Mutex* gMutex;
static int gInside, gCounter;
static void owned() { gMutex->AssertCurrentThreadOwns(); }
static void notOwned() {
#ifndef NDEBUG
    int me = amsym_thread_self();
    gExpect[me] = true;
    gMutex->AssertCurrentThreadOwns();
    CHECKM(false, "a thread that does not hold the mutex fails the ownership assertion");
#endif
}
static void critical() {
    owned();
    CHECKM(gInside == 0, "one thread at a time holds the mutex");
    gInside = 1;
    gCounter++;
    CHECKM(gInside == 1, "one thread at a time holds the mutex");
    gInside = 0;
    owned();
}
static void prog(int p) {
    switch (p) {
    case 0: gMutex->lock(); critical(); gMutex->unlock(); break;
    case 1: if (gMutex->try_lock()) { critical(); gMutex->unlock(); } break;
    case 2: { std::lock_guard<ke::Mutex> g(*gMutex); critical(); break; }
    case 3: notOwned(); break;
    case 4: gMutex->lock(); critical(); gMutex->unlock(); notOwned(); break;
    case 5: if (!gMutex->try_lock()) notOwned(); else { critical(); gMutex->unlock(); } break;
    case 6: gMutex->lock(); gMutex->unlock(); gMutex->lock(); critical(); gMutex->unlock(); break;
    case 7: { std::unique_lock<ke::Mutex> g(*gMutex, std::try_to_lock); if (g.owns_lock()) critical(); break; }
    }
}
static void body(void* p) { prog((int)(intptr_t)p); }
static void race(int n, int progs) {
    ke::Mutex m;
    gMutex = &m;
    gInside = gCounter = 0;
    int tids[3], last = 0;
    for (int i = 0; i < n - 1; i++) { last += amsym_choice(progs - last, "program"); tids[i] = amsym_thread_create(body, (void*)(intptr_t)last); }
    last += amsym_choice(progs - last, "program");
    prog(last);
    for (int i = 0; i < n - 1; i++) amsym_thread_join(tids[i]);
    // Everyone is done: the mutex is free.
    CHECKM(m.try_lock(), "the mutex is free once every holder unlocked it");
    owned();
    m.unlock();
    COVER("end");
}
ENTRY(two) { race(2, 8); }
ENTRY(three) { race(3, (int)amsym_param("progs", 4)); }
// One thread alone: every short history.
ENTRY(alone) {
    ke::Mutex m;
    gMutex = &m;
    bool held = false;
    for (int i = 0; i < (int)amsym_param("ops", 6); i++) {
        switch (amsym_choice(4, "op")) {
        case 0: if (held) break; m.lock(); held = true; break;
        case 1: if (held) { m.unlock(); held = false; } break;
        case 2: if (!held) { CHECKM(m.try_lock(), "a free mutex is acquired at once"); held = true; } break;
        default: if (held) owned(); else { notOwned(); } break;
        }
    }
    if (held) m.unlock();
    COVER("end");
}
// Two mutexes: holding one is not holding the other.
static ke::Mutex* gTwo;
static void twoBody(void* p) {
    int how = (int)(intptr_t)p;
    if (how == 0) {
        gTwo[1].lock();
        gTwo[1].AssertCurrentThreadOwns();
        gTwo[1].unlock();
    } else if (how == 1) {
        if (gTwo[0].try_lock()) { gTwo[0].AssertCurrentThreadOwns(); gTwo[0].unlock(); }
    } else {
        gTwo[0].lock();
        gTwo[1].lock();
        gTwo[0].AssertCurrentThreadOwns();
        gTwo[0].unlock();
        gTwo[1].AssertCurrentThreadOwns();
        gTwo[1].unlock();
    }
}
ENTRY(two_mutexes) {
    ke::Mutex m[2];
    gTwo = m;
    int t = amsym_thread_create(twoBody, (void*)(intptr_t)amsym_choice(3, "program"));
    m[0].lock();
    bool both = m[1].try_lock();
    m[0].AssertCurrentThreadOwns();
    if (both) { m[1].AssertCurrentThreadOwns(); COVER("both"); } else COVER("one");
    int left = both ? amsym_choice(2, "unlocked first") : 1;
    m[!left].unlock();
    if (both) {
        m[left].AssertCurrentThreadOwns();
        gMutex = &m[!left];
        notOwned();
        m[left].unlock();
    }
    gMutex = &m[left];
    notOwned();
    amsym_thread_join(t);
    CHECKM(m[0].try_lock() && m[1].try_lock(), "the mutexes are free once every holder unlocked them");
    m[0].unlock();
    m[1].unlock();
}
