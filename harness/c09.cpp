#include "amsym.h"
#include "live.h"
#include <amtl/am-refcounting.h>
#include <amtl/am-refcounting-threadsafe.h>
// Objects hold a reference to another object, so that some are only reachable through the target of a
// reference that is being reassigned.
struct PlainNode : ke::Refcounted<PlainNode>, Tracked {
    using Tracked::Tracked;
    ke::RefPtr<PlainNode> next;
};
struct VirtualNode : ke::VirtualRefcounted, Tracked {
    using Tracked::Tracked;
    ke::RefPtr<VirtualNode> next;
};
struct ImplNode : ke::IRefcounted, ke::Refcounted<ImplNode>, Tracked {
    using Tracked::Tracked;
    KE_IMPL_REFCOUNTING(ImplNode)
    ke::RefPtr<ImplNode> next;
};
struct TsNode : ke::RefcountedThreadsafe<TsNode>, Tracked {
    using Tracked::Tracked;
    ke::RefPtr<TsNode> next;
};
struct VTsNode : ke::VirtualRefcountedThreadsafe, Tracked {
    using Tracked::Tracked;
    ke::RefPtr<VTsNode> next;
};
static const int S = 2, N = 8;
template <typename T> struct World {
    typedef ke::RefPtr<T> Ref;
    T* obj[N];                    // addresses, by identity
    int slot[S], next[N], made = 0;
    int held = -1;                // one more reference, held by an AlreadyRefed
    int base;                     // contents are base + identity
    Ref r[S];
    T* make() {
        T* t = new T(base + made);
        obj[made] = t;
        next[made++] = -1;
        return t;
    }
    bool alive(int id) const {
        if (id == held) return true;
        for (int i = 0; i < S; i++) if (slot[i] == id) return true;
        for (int k = 0; k < id; k++) if (next[k] == id && alive(k)) return true;
        return false;
    }
    void check() {
        unsigned n = 0;
        for (int id = 0; id < made; id++) n += alive(id);
        CHECKM(Tracked::live() == n, "exactly the referenced objects are alive");
        for (int i = 0; i < S; i++) {
            CHECK(r[i].get() == (slot[i] < 0 ? nullptr : obj[slot[i]]));
            CHECK(!r[i] == (slot[i] < 0));
            CHECK((bool)r[i] == (slot[i] >= 0));
            if (slot[i] >= 0) {
                CHECK(r[i]->get() == base + slot[i]);
                CHECK((*r[i])->get() == base + slot[i]);
                int nx = next[slot[i]];
                CHECK(r[i]->next.get() == (nx < 0 ? nullptr : obj[nx]));
            }
        }
    }
    bool step(int op, int i, int j) {
        int a = slot[i], b = slot[j];
        switch (op) {
        case 0: { int id = made; r[i] = make(); slot[i] = id; COVER("new"); break; }
        case 1: r[i] = r[j]; slot[i] = b; COVER("copy"); break;
        case 2: r[i] = std::move(r[j]); slot[j] = -1; slot[i] = b; COVER("move"); break;
        case 3: r[i] = nullptr_(); slot[i] = -1; COVER("null"); break;
        case 4: if (b < 0) return false; r[i] = r[j]->next; slot[i] = next[b]; COVER("from target"); break;
        case 5: if (a < 0 || (b >= 0 && b <= a)) return false; r[i]->next = r[j]; next[a] = b; COVER("link"); break;
        case 6: r[i] = r[j].forget(); slot[j] = -1; slot[i] = b; COVER("forget"); break;
        case 7: r[i] = r[j].get(); slot[i] = b; COVER("raw"); break;
        case 8: {
            Ref t(r[j]);
            r[i] = std::move(t);
            CHECK(!t);
            slot[i] = b;
            Ref u(std::move(r[i]));
            CHECK(!r[i] && u.get() == (b < 0 ? nullptr : obj[b]));
            slot[i] = -1;
            int keep = slot[j];
            if (i == j) keep = -1;
            CHECK(r[j].get() == (keep < 0 ? nullptr : obj[keep]));
            r[i] = u;
            slot[i] = b;
            COVER("temporaries");
            break;
        }
        case 9: {
            ke::AlreadyRefed<T> x = r[i].take();
            slot[i] = -1; held = a;
            check();
            ke::AlreadyRefed<T> y(x);
            CHECK(!y == (a < 0));
            CHECK(x == (a < 0 ? nullptr : obj[a]));
            CHECK(!(y != (a < 0 ? nullptr : obj[a])));
            ke::AlreadyRefed<T> z(std::move(x));
            CHECK(!x);
            r[j] = y;
            slot[j] = a;
            check();
            CHECK(!y);
            if (amsym_bool("hand over")) {
                T* raw = z.take();
                CHECK(!z);
                if (raw) { CHECK(raw->get() == base + a); raw->Release(); }
                held = -1;
                check();
            }
            held = -1;
            COVER("already refed");
            break;
        }
        case 10: {
            if (b < 0) return false;
            r[j]->AddRef();
            r[i] = ke::AdoptRef(r[j].get());
            slot[i] = b;
            COVER("adopt");
            break;
        }
        case 11: if (a < 0) return false; r[i] = std::move(r[i]->next); slot[i] = next[a]; next[a] = -1; COVER("move from target"); break;
        case 12: {
            if (a < 0) return false;
            Ref tmp(r[i]->next);               // a copy, dropped at once
            Ref tmp2(r[i].get());
            Ref tmp3 = ke::AdoptRef(make());   // never counted by anyone: adopt takes the initial reference
            tmp3->AddRef();
            COVER("copies");
            break;
        }
        case 13: { if (b < 0) return false; T* raw = r[j]->next.get(); r[i] = raw; slot[i] = next[b]; COVER("raw from target"); break; }
        }
        return true;
    }
    static T* nullptr_() { return nullptr; }
};
template <typename T> static void history() {
    Tracked::reset();
    amsym_mark_heap();
    {
        World<T> w;
        w.base = amsym_any<int>("base");
        amsym_assume(w.base >= 0 && w.base < 1000);
        for (int i = 0; i < S; i++) w.slot[i] = -1;
        w.check();
        // Starting points: empty; one object shared; a chain with its head in one slot.
        int start = amsym_choice(4, "start");
        if (start) { w.step(0, 0, 0); w.step(0, 1, 0); }
        if (start == 1) w.step(1, 1, 0);
        if (start >= 2) w.step(5, 0, 1);
        if (start == 3) w.step(3, 1, 0);
        w.check();
        unsigned ops = amsym_param("ops", 3);
        for (unsigned n = 0; n < ops; n++) {
            int op = amsym_choice(14, "op");
            int i = amsym_choice(S, "i"), j = op == 0 || op == 3 || op == 11 || op == 12 ? 0 : amsym_choice(S, "j");
            if (!w.step(op, i, j)) return;
            w.check();
        }
        // The last reference to each object destroys it.
        for (int i = 0; i < S; i++) { w.r[i] = World<T>::nullptr_(); w.slot[i] = -1; w.check(); }
        CHECK(Tracked::live() == 0);
        COVER("end");
    }
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
}
ENTRY(plain) { history<PlainNode>(); }
ENTRY(virt) { history<VirtualNode>(); }
ENTRY(impl) { history<ImplNode>(); }
ENTRY(threadsafe) { history<TsNode>(); }
ENTRY(threadsafe_virtual) { history<VTsNode>(); }

// Conversions between related types, and the remaining accessors.
struct Base : ke::VirtualRefcounted, Tracked { using Tracked::Tracked; };
struct Derived : Base { using Base::Base; int more = 7; };
ENTRY(conversions) {
    Tracked::reset();
    amsym_mark_heap();
    {
        int v = amsym_any<int>("v");
        ke::RefPtr<Derived> d(new Derived(v));
        ke::RefPtr<Base> b;
        switch (amsym_choice(7, "how")) {
        case 0: b = d; break;
        case 1: { ke::RefPtr<Base> t(d); b = t; break; }
        case 2: { ke::RefPtr<Base> t(std::move(d)); CHECK(!d); b = std::move(t); break; }
        case 3: b = d.forget(); CHECK(!d); break;
        case 4: { ke::RefPtr<Base> t(d.forget()); CHECK(!d); b = t; break; }
        case 5: b = d.get(); break;
        default: { ke::RefPtr<Base> t(ke::RefPtr<Derived>(d).forget()); CHECK(d.get()); b = t; }
        }
        CHECK(Tracked::live() == 1);
        CHECK(b && b->get() == v && b.get() == *b && *b.byref() == b.get() && *b.byref_const() == b.get() && *b.address() == (void*)b.get());
        Base* raw = b;
        Base& ref = b;
        CHECK(raw == &ref && static_cast<Derived*>(raw)->more == 7);
        const ke::RefPtr<Base> cb(b);
        Base* raw2 = cb;
        CHECK(raw2 == raw);
        if (d) { d = new Derived(v ^ 1); CHECK(Tracked::live() == 2); d = (Derived*)nullptr; }
        CHECK(Tracked::live() == 1);
        b = (Base*)nullptr;
        CHECK(Tracked::live() == 1);
        COVER("end");
    }
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
}
// More references than fit in a small counter.
template <typename T> static void crowd(unsigned n) {
    Tracked::reset();
    amsym_mark_heap();
    {
        ke::RefPtr<T> first(new T(7));
        T* raw = first.get();
        for (unsigned i = 0; i < n; i++) raw->AddRef();
        first = (T*)nullptr;
        for (unsigned i = 0; i < n; i++) {
            CHECKM(Tracked::live() == 1, "alive while references remain");
            raw->Release();
        }
        CHECKM(Tracked::live() == 0, "destroyed with the last reference");
    }
    amsym_check_leaks();
}
ENTRY(crowds) {
    unsigned n = amsym_bool("more") ? amsym_param("references", 66000) : 300;
    switch (amsym_choice(5, "base")) {
    case 0: crowd<PlainNode>(n); COVER("plain"); break;
    case 1: crowd<VirtualNode>(n); COVER("virtual"); break;
    case 2: crowd<ImplNode>(n); COVER("impl"); break;
    case 3: crowd<TsNode>(n); COVER("threadsafe"); break;
    default: crowd<VTsNode>(n); COVER("threadsafe virtual"); break;
    }
}
