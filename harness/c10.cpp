#include "amsym.h"
#include <stdlib.h>
#include <assert.h>
#include <utility>
#include <atomic>
#include <amtl/am-refcounting-threadsafe.h>
// Each thread owns one reference to a shared object and drops it after a program of further retains,
// uses and releases. The schedule is chosen by the solver's side of the executor at every atomic step.
static int gDestroyed, gCreated;
static int gUses;      // uses seen by the destructor
struct Payload {
    int alive = 1;
    int data;
    Payload(int d) : data(d) { gCreated++; }
    ~Payload() { CHECKM(alive == 1, "destroyed exactly once"); alive = 0; gDestroyed++; }
    int use() const { CHECKM(alive == 1, "used while alive"); return data; }
};
struct Plain : ke::RefcountedThreadsafe<Plain>, Payload { using Payload::Payload; };
struct Virt : ke::VirtualRefcountedThreadsafe, Payload { using Payload::Payload; };
struct Fwd : ke::IRefcounted, ke::RefcountedThreadsafe<Fwd>, Payload {
    using Payload::Payload;
    KE_IMPL_REFCOUNTING_TS(Fwd)
};
template <typename T> struct Job { T* obj; int prog; int sum; };
template <typename T> static void body(void* arg) {
    Job<T>* job = (Job<T>*)arg;
    T* t = job->obj;
    switch (job->prog) {
    case 0:
        job->sum = t->use();
        t->Release();
        break;
    case 1:
        t->AddRef();
        job->sum = t->use();
        t->Release();
        job->sum = t->use();
        t->Release();
        break;
    case 2: {
        ke::RefPtr<T> mine(ke::AdoptRef(t));
        ke::RefPtr<T> copy(mine);
        mine = (T*)nullptr;
        job->sum = copy->use();
        break;
    }
    default: {
        ke::RefPtr<T> a(t);
        t->Release();
        job->sum = a->use();
        ke::RefPtr<T> b(std::move(a));
        break;
    }
    }
}
template <typename T> static void race(int nthreads, int progs) {
    gDestroyed = gCreated = 0;
    amsym_mark_heap();
    int data = amsym_any<int>("data");
    T* t = new T(data);
    Job<T> jobs[3];
    int tids[3];
    for (int i = 0; i < nthreads; i++) t->AddRef();
    int last = 0;
    for (int i = 0; i < nthreads; i++) {
        jobs[i].obj = t;
        jobs[i].prog = last = last + amsym_choice(progs - last, "prog");   // threads are interchangeable
        jobs[i].sum = 0;
    }
    bool keep = amsym_bool("main keeps one");
    if (keep) t->AddRef();
    for (int i = 0; i < nthreads; i++) tids[i] = amsym_thread_create(body<T>, &jobs[i]);
    if (keep && amsym_bool("early")) { CHECK(t->use() == data); t->Release(); keep = false; COVER("main races"); }
    for (int i = 0; i < nthreads; i++) amsym_thread_join(tids[i]);
    for (int i = 0; i < nthreads; i++) CHECK(jobs[i].sum == data);
    if (keep) {
        CHECK(gDestroyed == 0);
        CHECK(t->use() == data);
        t->Release();
        COVER("main last");
    }
    CHECK(gDestroyed == 1 && gCreated == 1);
    amsym_check_leaks();
    COVER("end");
}
// More references than 16 bits count, with another thread dropping one among them.
struct Mine { void* obj; int sum; };
template <typename T> static void dropOne(void* a) { Mine* m = (Mine*)a; m->sum = ((T*)m->obj)->use(); ((T*)m->obj)->Release(); }
template <typename T> static void crowd(unsigned n) {
    gDestroyed = gCreated = 0;
    amsym_mark_heap();
    int data = amsym_any<int>("data");
    T* t = new T(data);
    for (unsigned i = 0; i < n; i++) t->AddRef();
    Mine mine = {t, 0};
    bool early = amsym_bool("early");
    if (early) { amsym_thread_join(amsym_thread_create(dropOne<T>, &mine)); COVER("before the others"); }
    for (unsigned i = 2; i < n; i++) t->Release();
    if (!early) amsym_thread_join(amsym_thread_create(dropOne<T>, &mine));
    CHECK(mine.sum == data);
    CHECKM(gDestroyed == 0 && t->use() == data, "alive while a reference remains");
    t->Release();
    CHECKM(gDestroyed == 1 && gCreated == 1, "destroyed with the last reference");
    amsym_check_leaks();
}
ENTRY(plain2) { race<Plain>(2, amsym_param("progs", 4)); }
ENTRY(virt2) { race<Virt>(2, amsym_param("progs", 4)); }
ENTRY(fwd2) { race<Fwd>(2, amsym_param("progs", 2)); }
ENTRY(plain3) { race<Plain>(3, amsym_param("progs3", 3)); }
ENTRY(virt3) { race<Virt>(3, amsym_param("progs3", 3)); }
// The result of Release tells whether the object survived.
struct RJob { Plain* obj; bool survived; };
static void releaser(void* a) { RJob* j = (RJob*)a; j->survived = j->obj->Release(); }
ENTRY(release_result) {
    gDestroyed = gCreated = 0;
    Plain* t = new Plain(1);
    RJob jobs[3];
    int tids[3];
    for (int i = 0; i < 3; i++) { t->AddRef(); jobs[i].obj = t; }
    for (int i = 0; i < 2; i++) tids[i] = amsym_thread_create(releaser, &jobs[i]);
    releaser(&jobs[2]);
    for (int i = 0; i < 2; i++) amsym_thread_join(tids[i]);
    CHECK(!jobs[0].survived + !jobs[1].survived + !jobs[2].survived == 1);
    CHECK(gDestroyed == 1);
    COVER("end");
}
ENTRY(crowds) {
    unsigned n = amsym_bool("more") ? amsym_param("references", 66000) : 300;
    switch (amsym_choice(3, "base")) {
    case 0: crowd<Plain>(n); COVER("plain"); break;
    case 1: crowd<Virt>(n); COVER("virtual"); break;
    default: crowd<Fwd>(n); COVER("forwarding"); break;
    }
}
