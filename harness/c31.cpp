#include "amsym.h"
#include <pthread.h>
#include <stdlib.h>
#include <amtl/am-threadlocal.h>
// Stand-ins for the system's slots: they count, can be made to fail, and insist on keys that exist. Each thread's value of each
// slot is kept apart; keys are never handed out twice.
static int gFail, gCreated, gDeleted, gAttempts;
static struct { int state; const void* val[4]; } gKeys[8];
static char gLock;
extern "C" int __wrap_pthread_key_create(pthread_key_t* k, void (*)(void*)) {
    amsym_sync(&gLock, 1);
    gAttempts++;
    if (gFail) { gFail--; return 11; }
    int i = gCreated++;
    CHECKM(i < 8, "the harness's key table is large enough");
    gKeys[i].state = 1;
    for (int t = 0; t < 4; t++) gKeys[i].val[t] = nullptr;
    *k = 100 + i;
    return 0;
}
extern "C" int __wrap_pthread_key_delete(pthread_key_t k) {
    amsym_sync(&gLock, 1);
    CHECKM(k >= 100 && k < 108 && gKeys[k - 100].state == 1, "only a slot that exists is released");
    gKeys[k - 100].state = 2;
    gDeleted++;
    return 0;
}
extern "C" void* __wrap_pthread_getspecific(pthread_key_t k) {
    CHECKM(k >= 100 && k < 108 && gKeys[k - 100].state == 1, "only a slot that exists is read");
    return (void*)gKeys[k - 100].val[amsym_thread_self()];
}
extern "C" int __wrap_pthread_setspecific(pthread_key_t k, const void* v) {
    CHECKM(k >= 100 && k < 108 && gKeys[k - 100].state == 1, "only a slot that exists is written");
    gKeys[k - 100].val[amsym_thread_self()] = v;
    return 0;
}
static bool gAbortOk;
extern "C" void __wrap_abort() {
    CHECKM(gAbortOk, "the program is stopped only when no slot can be had");
    COVER("stopped");
    amsym_finish();
}
template <typename T> struct Job { ke::ThreadLocal<T>* tl; int prog; T a, b; bool stored; };
template <typename T> static void body(void* p) {
    Job<T>* j = (Job<T>*)p;
    ke::ThreadLocal<T>& tl = *j->tl;
    switch (j->prog) {
    case 0:
        CHECKM(tl.get() == T(), "a thread that stored nothing reads the default");
        break;
    case 1:
        CHECKM(tl.get() == T(), "a thread that stored nothing reads the default");
        tl = j->a;
        CHECKM(tl.get() == j->a, "a thread reads what it last stored itself");
        j->stored = true;
        break;
    case 2:
        tl.set(j->a);
        CHECKM(*tl == j->a, "a thread reads what it last stored itself");
        tl.set(j->b);
        CHECKM(tl == j->b && !(tl != j->b) && !tl == !j->b, "a thread reads what it last stored itself");
        j->stored = true;
        break;
    default:
        CHECKM(tl.allocate(), "a slot that can be had is allocated");
        CHECKM(tl.get() == T(), "a thread that stored nothing reads the default");
        tl = j->b;
        CHECKM(tl.get() == j->b, "a thread reads what it last stored itself");
        j->stored = true;
        break;
    }
}
template <typename T> static void threads(int n) {
    gFail = gCreated = gDeleted = gAttempts = 0;
    gAbortOk = false;
    bool mainFirst = amsym_bool("main stores first");
    {
        ke::ThreadLocal<T> tl;
        T m = amsym_any<T>("main's value");
        if (mainFirst) tl = m;
        Job<T> jobs[3];
        int tids[3], last = 0;
        bool uses = mainFirst;
        for (int i = 0; i < n; i++) {
            jobs[i] = {&tl, last = last + amsym_choice(4 - last, "program"), amsym_any<T>("a"), amsym_any<T>("b"), false};
            uses |= jobs[i].prog != 0;
            tids[i] = amsym_thread_create(body<T>, &jobs[i]);
        }
        CHECKM(tl.get() == (mainFirst ? m : T()), "no thread sees another's value");
        for (int i = 0; i < n; i++) amsym_thread_join(tids[i]);
        CHECKM(tl.get() == (mainFirst ? m : T()), "no thread sees another's value");
        for (int i = 0; i < n; i++) CHECK(jobs[i].stored == (jobs[i].prog != 0));
        CHECKM(gCreated == (uses ? 1 : 0), "the slot is created once, on first use");
        tl = m;
        CHECK(tl.get() == m && gCreated == 1);
        CHECKM(gDeleted == 0, "the slot is kept while the variable lives");
    }
    CHECKM(gDeleted == 1 && gCreated == 1, "the slot is released once");
    COVER("end");
}
ENTRY(ints) { threads<int>(2); }
ENTRY(pointers) { threads<char*>(2); }
ENTRY(words) { threads<intptr_t>(1); }
ENTRY(bytes) { threads<signed char>(1); }
ENTRY(bits) { threads<uint32_t>(1); }
ENTRY(three_threads) { threads<uintptr_t>(3); }
// Slots that cannot be had at first.
ENTRY(refused) {
    gFail = gCreated = gDeleted = gAttempts = 0;
    gAbortOk = false;
    gFail = amsym_choice(3, "failures");
    int v = amsym_any<int>("value");
    {
        ke::ThreadLocal<int> tl;
        for (int i = 0; i < 3; i++) {
            bool ok = tl.allocate();
            CHECKM(ok == (gCreated == 1), "failure to obtain a slot is reported");
            if (!ok) { CHECKM(tl.get() == 0, "without a slot the default is read"); COVER("refused"); }
            if (ok) { tl = v + 0; CHECK(tl.get() == v); COVER("granted"); }
        }
        CHECKM(gCreated == 1, "a slot is asked for again after a failure");
    }
    CHECK(gDeleted == 1);
    { ke::ThreadLocal<int> unused; CHECK(unused.get() == 0); }
    CHECKM(gDeleted == 1 && gCreated == 1, "an unused variable has no slot");
    gFail = 1;
    { ke::ThreadLocal<int> never; CHECK(!never.allocate()); }
    CHECKM(gDeleted == 1 && gCreated == 1, "a slot that was never obtained is not released");
}
// set() without a slot stops the program instead of storing anywhere.
ENTRY(refused_set) {
    gFail = gCreated = gDeleted = gAttempts = 0;
    gFail = 1;
    gAbortOk = true;
    ke::ThreadLocal<int> tl;
    tl = amsym_any<int>("value");
    CHECKM(false, "storing without a slot does not return");
}
// One of the racing threads is refused; the others must still end up with one slot that works.
struct RJob { ke::ThreadLocal<uintptr_t>* tl; uintptr_t v; bool ok; };
static void rbody(void* p) {
    RJob* j = (RJob*)p;
    j->ok = j->tl->allocate();
    if (!j->ok) { CHECKM(j->tl->get() == 0, "a thread that stored nothing reads the default"); j->ok = j->tl->allocate(); }
    if (j->ok) { *j->tl = j->v; CHECKM(j->tl->get() == j->v, "a thread reads what it last stored itself"); }
}
ENTRY(refused_race) {
    gFail = gCreated = gDeleted = gAttempts = 0;
    gAbortOk = false;
    gFail = amsym_choice(3, "failures");
    {
        ke::ThreadLocal<uintptr_t> tl;
        RJob a{&tl, amsym_any<uintptr_t>("a"), false}, b{&tl, amsym_any<uintptr_t>("b"), false};
        int t = amsym_thread_create(rbody, &a);
        rbody(&b);
        amsym_thread_join(t);
        CHECKM(a.ok == (gCreated != 0) || b.ok == (gCreated != 0), "failure to obtain a slot is reported to who asked");
        CHECKM(gCreated <= 1 && gDeleted == 0, "the slot is created once");
        if (b.ok) CHECKM(tl.get() == b.v, "no thread sees another's value");
        if (a.ok && b.ok) COVER("both"); else COVER("one or none");
    }
    CHECKM(gDeleted == gCreated, "a slot is released once");
}
// Several variables at once, of one type and of others, made and destroyed in any order.
struct Own { ke::ThreadLocal<int>* v; int a, b; };
static void ownBody(void* p) {
    Own* o = (Own*)p;
    CHECKM(o->v[0].get() == 0 && o->v[1].get() == 0, "a thread that stored nothing reads the default");
    o->v[0] = o->a;
    CHECKM(o->v[0].get() == o->a && o->v[1].get() == 0, "variables are apart");
    o->v[1] = o->b;
    CHECKM(o->v[0].get() == o->a && o->v[1].get() == o->b, "variables are apart");
}
ENTRY(several) {
    gFail = gCreated = gDeleted = gAttempts = 0;
    gAbortOk = false;
    int a = amsym_any<int>("a"), b = amsym_any<int>("b");
    {
        ke::ThreadLocal<int> v[2];
        ke::ThreadLocal<void*> p;
        bool first = amsym_bool("main stores first");
        if (first) { v[1] = b; v[0] = a; p = &v; }
        Own o{v, amsym_any<int>("c"), amsym_any<int>("d")};
        int t = amsym_thread_create(ownBody, &o);
        CHECKM(v[0].get() == (first ? a : 0) && v[1].get() == (first ? b : 0) && p.get() == (first ? &v : nullptr), "no thread sees another's value");
        amsym_thread_join(t);
        CHECKM(v[0].get() == (first ? a : 0) && v[1].get() == (first ? b : 0), "no thread sees another's value");
        if (!first) p = &o;
        CHECK(p.get() == (first ? (void*)&v : (void*)&o) && v[0].get() == (first ? a : 0));
        CHECKM(gCreated == 3 && gDeleted == 0, "each variable has a slot of its own");
        {
            ke::ThreadLocal<int> w;
            CHECKM(w.get() == 0, "a new variable holds the default");
            w = ~a;
            CHECKM(w.get() == ~a && v[0].get() == (first ? a : 0), "variables are apart");
        }
        CHECKM(gDeleted == 1 && v[1].get() == (first ? b : 0), "only its own slot is released with a variable");
        ke::ThreadLocal<int> x;
        CHECKM(x.get() == 0, "a new variable holds the default");
    }
    CHECKM(gDeleted == 4 && gCreated == 4, "every slot is released once");
    COVER("end");
}
