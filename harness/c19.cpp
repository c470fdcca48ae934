#include "amsym.h"
#include "live.h"
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <utility>
#include <amtl/am-raii.h>
struct Log { unsigned n = 0; int v[16]; void add(int x) { v[n++] = x; } };
// Any nesting of three guards, each cancelled or not, moved or not, before or after the others.
ENTRY(guards) {
    Log log;
    bool want[3];
    int x = amsym_any<int>("x");
    {
        auto f0 = [&log, x] { log.add(x ^ 0); };
        auto g0 = ke::MakeScopeGuard(f0);
        {
            auto g1 = ke::MakeScopeGuard([&log, x] { log.add(x ^ 1); });
            bool moved = amsym_bool("moved"), before = amsym_bool("before"), after = amsym_bool("after"), source = amsym_bool("source");
            if (before) g1.cancel();
            if (moved) {
                auto g2 = std::move(g1);
                if (after) g2.cancel();
                if (source) g1.cancel();           // cancelling the source changes nothing
                CHECKM(log.n == 0, "nothing runs before the scope ends");
                want[1] = !before && !after;
                COVER("moved");
            } else {
                if (after) g1.cancel();
                want[1] = !before && !after;
                COVER("kept");
            }
            CHECK(log.n == (moved && want[1] ? 1u : 0u));
        }
        CHECK(log.n == (want[1] ? 1u : 0u));
        if (want[1]) CHECK(log.v[0] == (x ^ 1));
        want[0] = !amsym_bool("cancel0");
        if (!want[0]) g0.cancel();
    }
    CHECKM(log.n == (want[0] ? 1u : 0u) + (want[1] ? 1u : 0u), "an action runs exactly once unless cancelled");
    if (want[0]) CHECK(log.v[log.n - 1] == (x ^ 0));
    COVER("end");
}
struct Act { Tracked t; Log* log; Act(int v, Log* l) : t(v), log(l) {} void operator()() const { log->add(t.get()); } };
ENTRY(guard_lifetime) {
    Tracked::reset();
    amsym_mark_heap();
    {
        Log log;
        int v = amsym_any<int>("v");
        bool cancel = amsym_bool("cancel");
        {
            auto g = ke::MakeScopeGuard(Act(v, &log));
            ke::ScopeGuard<Act> h(std::move(g));
            ke::ScopeGuard<Act> i(std::move(h));
            if (cancel) i.cancel();
            CHECK(log.n == 0);
        }
        CHECK(log.n == (cancel ? 0u : 1u));
        if (!cancel) CHECK(log.v[0] == v);
        CHECK(Tracked::live() == 0);
        const Act named(v, &log);
        { auto g = ke::MakeScopeGuard(named); }
        CHECK(log.n == (cancel ? 1u : 2u));
    }
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
    COVER("end");
}
// Saved locations get exactly their previous values back, in any nesting, also when the value comes from the location.
ENTRY(save_and_set) {
    int loc = amsym_any<int>("loc"), first = loc;
    int a = amsym_any<int>("a"), b = amsym_any<int>("b");
    {
        ke::SaveAndSet<int> s(&loc, a);
        CHECK(loc == a);
        if (amsym_bool("write")) { loc = b; COVER("write"); }
        int now = loc;
        {
            ke::SaveAndSet<int> t(&loc, loc);
            CHECK(loc == now);
            ke::SaveAndSet<int> u(&loc, b);
            CHECK(loc == b);
            loc = a ^ b;
        }
        CHECK(loc == now);
    }
    CHECKM(loc == first, "the location has its previous value back");
    Tracked::reset();
    amsym_mark_heap();
    {
        Tracked t(a);
        {
            Tracked nv(b);
            ke::SaveAndSet<Tracked> s(&t, nv);
            CHECK(t.get() == b && nv.get() == b);
            nv = Tracked(77);
            CHECK(t.get() == b);
            t = Tracked(99);
        }
        CHECK(t.get() == a);
    }
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
    COVER("end");
}
struct Link : ke::StackLinked<Link> { int id; Link(Link** p, int id) : ke::StackLinked<Link>(p), id(id) {} Link* prev() const { return prev_; } };
struct Other { virtual ~Other() {} long pad; };
struct Link2 : Other, ke::StackLinked<Link2> { Link2(Link2** p) : ke::StackLinked<Link2>(p) {} Link2* prev() const { return prev_; } };
static void nest(Link** head, int depth, int max, bool heapAllocated) {
    Link* before = *head;
    {
        if (heapAllocated) {
            std::unique_ptr<Link> l(new Link(head, depth));
            CHECK(*head == l.get() && l->prev() == before && (*head)->id == depth);
            if (depth < max) nest(head, depth + 1, max, amsym_bool("heap"));
            CHECK(*head == l.get());
        } else {
            Link l(head, depth);
            CHECK(*head == &l && l.prev() == before && (*head)->id == depth);
            if (depth < max) nest(head, depth + 1, max, amsym_bool("heap"));
            CHECKM(*head == &l, "the head names the innermost live object");
        }
    }
    CHECKM(*head == before, "unlinked in reverse order");
}
ENTRY(stack_linked) {
    Link* head = nullptr;
    Link2* head2 = nullptr;
    {
        Link2 a(&head2);
        CHECK(head2 == &a && a.prev() == nullptr);
        nest(&head, 0, (int)amsym_param("depth", 4), false);
        { Link2 b(&head2); CHECK(head2 == &b && b.prev() == &a); nest(&head, 0, 1, true); }
        CHECK(head2 == &a);
    }
    CHECK(head == nullptr && head2 == nullptr);
    COVER("end");
}
ENTRY(return_and_void) {
    int v = amsym_any<int>("v"), w = v;
    CHECK(ke::ReturnAndVoid(w) == v && w == 0);
    int x;
    int* p = &x;
    CHECK(ke::ReturnAndVoid(p) == &x && p == nullptr);
    Tracked::reset();
    amsym_mark_heap();
    {
        Tracked t(v);
        Tracked r = ke::ReturnAndVoid(t);
        CHECK(r.get() == v && t.get() == -1);
        std::shared_ptr<int> s(new int(v));
        auto u = ke::ReturnAndVoid(s);
        CHECK(!s && *u == v && u.use_count() == 1);
    }
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
    COVER("end");
}
// Values whose equality looks at part of them only, floating-point values and booleans are put back exactly as well.
ENTRY(odd_values) {
    int k = amsym_any<int>("k"), d = amsym_any<int>("d"), k2 = amsym_any<int>("k2"), d2 = amsym_any<int>("d2");
    Twin t(k, d);
    {
        ke::SaveAndSet<Twin> s(&t, Twin(k2, d2));
        CHECK(t.is(k2, d2));
        {
            ke::SaveAndSet<Twin> u(&t, Twin(k, d));
            CHECK(t.is(k, d));
            if (amsym_bool("write")) t = Twin(k2, d);
        }
        CHECKM(t.is(k2, d2), "exactly the previous value is back");
    }
    CHECKM(t.is(k, d), "exactly the previous value is back");
    Twin old = ke::ReturnAndVoid(t);
    CHECK(old.is(k, d));
    CHECKM(t.is(0, 0), "the default value is left behind");
    uint64_t bits = amsym_any<uint64_t>("bits"), now;
    double x, y = 1.5;
    memcpy(&x, &bits, 8);
    { ke::SaveAndSet<double> s(&x, y); CHECK(x == 1.5); }
    memcpy(&now, &x, 8);
    CHECKM(now == bits, "a floating-point value is back bit for bit");
    double z = ke::ReturnAndVoid(x);
    memcpy(&now, &z, 8);
    CHECK(now == bits);
    memcpy(&now, &x, 8);
    CHECKM(now == 0, "zero is left behind");
    bool b = amsym_bool("b"), first = b;
    { ke::SaveAndSet<bool> s(&b, amsym_bool("nb")); b = !b; }
    CHECK(b == first);
    CHECK(ke::ReturnAndVoid(b) == first && !b);
    COVER("end");
}
// Deep nesting, large values, many guards.
static Link* gHead;
static int gDeep[40];
static void deep(int k, int max, Log* log, bool* cancelled) {
    Link* before = gHead;
    Link l(&gHead, k);
    CHECKM(gHead == &l && l.prev() == before, "the head names the innermost live object");
    auto g = ke::MakeScopeGuard([log, k] { log->add(k); });
    {
        ke::SaveAndSet<int> s(&gDeep[k % 3], k * 10);
        CHECK(gDeep[k % 3] == k * 10);
        if (k < max) deep(k + 1, max, log, cancelled);
        CHECKM(gHead == &l, "the head names the innermost live object");
        CHECKM(gDeep[k % 3] == k * 10, "the location has its previous value back");
    }
    if (cancelled[k]) g.cancel();
}
struct Page { int v[300]; };
ENTRY(deep_nesting) {
    int first[3];
    for (int i = 0; i < 3; i++) first[i] = gDeep[i] = amsym_any<int>("value");
    gHead = nullptr;
    static Log log;
    log.n = 0;
    bool cancelled[16];
    int which = amsym_choice(3, "cancelled");
    int want = 0;
    for (int i = 0; i < 16; i++) { cancelled[i] = which == 0 ? false : i % (which + 1) == 0; want += !cancelled[i]; }
    deep(0, 15, &log, cancelled);
    CHECKM(gHead == nullptr, "unlinked in reverse order");
    for (int i = 0; i < 3; i++) CHECKM(gDeep[i] == first[i], "the location has its previous value back");
    CHECKM((int)log.n == want, "an action runs exactly once unless cancelled");
    int last = 16;
    for (int i = 0; i < want; i++) { CHECKM(log.v[i] < last && !cancelled[log.v[i]], "actions run in reverse order"); last = log.v[i]; }
    static Page page, other;
    int at = amsym_choice(3, "at") * 149, x = amsym_any<int>("x"), y = amsym_any<int>("y");
    for (int i = 0; i < 300; i++) { page.v[i] = i; other.v[i] = -i; }
    page.v[at] = x;
    other.v[at] = y;
    {
        ke::SaveAndSet<Page> s(&page, other);
        for (int i = 0; i < 300; i++) CHECK(page.v[i] == (i == at ? y : -i));
        page.v[at] = 5;
    }
    for (int i = 0; i < 300; i++) CHECKM(page.v[i] == (i == at ? x : i), "exactly the previous value is back");
    Page was = ke::ReturnAndVoid(page);
    CHECK(was.v[at] == x && was.v[299] == 299);
    for (int i = 0; i < 300; i++) CHECKM(page.v[i] == 0, "the default value is left behind");
    COVER("end");
}
