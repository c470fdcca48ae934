#include "amsym.h"
#include <stdlib.h>
#include <assert.h>
#include <utility>
#include <atomic>
#include <amtl/am-refcounting-threadsafe.h>
static int gDestroyed, gCreated;
struct Payload {
    int alive = 1;
    int data;
    Payload(int d) : data(d) {}
    ~Payload() { CHECKM(alive == 1, "destroyed exactly once"); alive = 0; __atomic_fetch_add(&gDestroyed, 1, __ATOMIC_RELAXED); }
    int use() const { CHECKM(alive == 1, "used while alive"); return data; }
};
struct alignas(16) Obj : ke::RefcountedThreadsafe<Obj>, Payload { using Payload::Payload; };
struct alignas(16) VObj : ke::VirtualRefcountedThreadsafe, Payload { using Payload::Payload; };
template <typename T> struct Shared {
    ke::AtomicRef<T>* ref;
    T* obj[4];          // candidates, each kept alive by the main thread until the others are done
    int base;
};
template <typename T> struct Job { Shared<T>* sh; int prog; int k; };
template <typename T> static void useOne(Shared<T>* sh) {
    ke::AlreadyRefed<T> got = sh->ref->get();
    if (!got) return;
    int v = got->use() - sh->base;
    CHECKM(v >= 0 && v < 4, "a value that was stored");
}
template <typename T> static void body(void* arg) {
    Job<T>* j = (Job<T>*)arg;
    Shared<T>* sh = j->sh;
    switch (j->prog) {
    case 0: useOne(sh); break;
    case 1: *sh->ref = sh->obj[j->k]; break;
    case 2: *sh->ref = (T*)nullptr; break;
    case 3: { ke::RefPtr<T> got(sh->ref->get()); if (got) { got->use(); *sh->ref = got.get(); } break; }
    case 4: *sh->ref = new T(sh->base + 3); useOne(sh); break;
    default: useOne(sh); *sh->ref = sh->obj[j->k]; break;
    }
}
template <typename T> static void race(int nthreads, int progs) {
    gDestroyed = 0;
    int created = 0;
    amsym_mark_heap();
    Shared<T> sh;
    sh.base = amsym_any<int>("base");
    amsym_assume(sh.base >= 0 && sh.base < 1000);
    T* first = nullptr;
    {
        bool start = amsym_bool("starts non-null");
        if (start) { first = new T(sh.base); created++; }
        ke::AtomicRef<T> ref(first);     // the only reference to the first object
        if (!start) COVER("starts null");
        sh.ref = &ref;
        ke::RefPtr<T> mine[2];
        Job<T> jobs[3];
        int tids[3];
        int last = 0;
        for (int i = 0; i < nthreads; i++) {
            jobs[i].sh = &sh;
            jobs[i].prog = last = last + amsym_choice(progs - last, "prog");
            if (jobs[i].prog == 4) created++;
            if (i < 2) {
                jobs[i].k = i;
                sh.obj[i] = nullptr;
                if (jobs[i].prog == 1 || jobs[i].prog == 5) { sh.obj[i] = new T(sh.base + 1 + i); created++; mine[i] = sh.obj[i]; }
            } else jobs[i].k = jobs[1].k;
            if (i == 2 && (jobs[2].prog == 1 || jobs[2].prog == 5) && !sh.obj[1]) jobs[2].prog = 2;
        }
        for (int i = 0; i < nthreads - 1; i++) tids[i] = amsym_thread_create(body<T>, &jobs[i]);
        body<T>(&jobs[nthreads - 1]);
        for (int i = 0; i < nthreads - 1; i++) amsym_thread_join(tids[i]);
        // Everyone is done: the reference is usable, and holds something that was stored.
        useOne(&sh);
        for (auto& m : mine) m = (T*)nullptr;
        useOne(&sh);
        ke::AlreadyRefed<T> fin = ref.get();
        CHECK(gDestroyed == created - (!fin ? 0 : 1));
        if (amsym_bool("clear")) { ref = (T*)nullptr; CHECK(!ref.get()); COVER("cleared"); }
        if (!!fin) CHECK(fin->use() >= sh.base);
    }
    CHECK(gDestroyed == created);
    amsym_check_leaks();
    COVER("end");
}
ENTRY(pair) { race<Obj>(2, amsym_param("progs", 6)); }
ENTRY(pair_virtual) { race<VObj>(2, amsym_param("progs", 3)); }
ENTRY(three) { race<Obj>(3, amsym_param("progs3", 2)); }
// Values without atomic counting of their own: reads (and their counting) still happen under the reference's lock.
struct alignas(16) Plain : ke::Refcounted<Plain>, Payload { using Payload::Payload; };
static ke::AtomicRef<Plain>* gRef;
static Plain* gGot[2];
static void getter(void* p) { gGot[(intptr_t)p] = gRef->get().take(); }
ENTRY(counting_under_lock) {
    gDestroyed = 0;
    amsym_mark_heap();
    {
        Plain* o = new Plain(3);
        ke::AtomicRef<Plain> ref(o);
        gRef = &ref;
        int t = amsym_thread_create(getter, (void*)0);
        getter((void*)1);
        amsym_thread_join(t);
        CHECK(gGot[0] == o && gGot[1] == o);
        ref = (Plain*)nullptr;
        CHECK(gDestroyed == 0);
        gGot[0]->Release();
        CHECK(gDestroyed == 0 && gGot[1]->use() == 3);
        gGot[1]->Release();
        CHECK(gDestroyed == 1);
        COVER("end");
    }
    amsym_check_leaks();
}
// Objects that use the reference from their own destructor: no lock is held while one is destroyed.
struct Linked : ke::RefcountedThreadsafe<Linked> {
    ke::AtomicRef<Linked>* ref = nullptr;
    int how = 0, alive = 1;
    ke::AtomicRef<Linked> next;
    ~Linked() {
        CHECKM(alive == 1, "destroyed exactly once");
        alive = 0;
        __atomic_fetch_add(&gDestroyed, 1, __ATOMIC_RELAXED);
        if (how == 1) { ke::AlreadyRefed<Linked> got = ref->get(); if (!!got) CHECKM(got->alive == 1, "what is read is alive"); }
        if (how == 2) *ref = (Linked*)nullptr;
    }
};
static ke::AtomicRef<Linked>* gLinked;
static void linkedBody(void* p) {
    switch ((int)(intptr_t)p) {
    case 0: { ke::AlreadyRefed<Linked> got = gLinked->get(); if (!!got) CHECK(got->alive == 1); break; }
    case 1: *gLinked = (Linked*)nullptr; break;
    default: *gLinked = new Linked;
    }
}
ENTRY(from_destructor) {
    gDestroyed = 0;
    amsym_mark_heap();
    {
        ke::AtomicRef<Linked> ref;
        gLinked = &ref;
        Linked* a = new Linked;
        a->ref = &ref;
        a->how = amsym_choice(3, "destructor");
        if (amsym_bool("linked")) { a->next = new Linked; COVER("linked"); }
        ref = a;
        int other = amsym_choice(4, "other"), t = 0;
        if (other) t = amsym_thread_create(linkedBody, (void*)(intptr_t)(other - 1));
        linkedBody((void*)(intptr_t)(1 + amsym_choice(2, "replaced by")));
        if (other) { amsym_thread_join(t); COVER("concurrent"); } else COVER("alone");
        ke::AlreadyRefed<Linked> got = ref.get();
        if (!!got) CHECK(got->alive == 1);
    }
    amsym_check_leaks();
    COVER("end");
}
