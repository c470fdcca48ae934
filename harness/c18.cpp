#include "amsym.h"
#include "live.h"
#include <stdlib.h>
#include <memory>
#include <utility>
#include <vector>
#include <amtl/am-maybe.h>
typedef ke::Maybe<Tracked> M;
static const int S = 2;
struct Leaks {
    Leaks() { Tracked::reset(); amsym_mark_heap(); }
    ~Leaks() { CHECKM(Tracked::live() == 0, "every contained object is destroyed once"); amsym_check_leaks(); }
};
struct World {
    M m[S];
    bool has[S] = {};
    int val[S];
    void check() {
        unsigned n = 0;
        for (int i = 0; i < S; i++) {
            const M& c = m[i];
            CHECK(m[i].isValid() == has[i] && (bool)c == has[i]);
            if (!has[i]) continue;
            n++;
            CHECKM(m[i].get().get() == val[i] && (*m[i]).get() == val[i] && m[i]->get() == val[i], "the optional holds the value it was given");
            CHECK(c.get().get() == val[i] && (*c).get() == val[i] && c->get() == val[i]);
            CHECK(&m[i].get() == &*m[i] && &c.get() == m[i].operator->());
            CHECK(((uintptr_t)&c.get()) % alignof(Tracked) == 0);
        }
        CHECKM(Tracked::live() == n, "no contained object is left over or missing");
    }
    void step(int op, int i, int j) {
        int v = amsym_any<int>("v");
        bool h = has[j];
        int hv = val[j];
        switch (op) {
        case 0: m[i].init(v); has[i] = true; val[i] = v; COVER("init"); return;
        case 1: m[i] = m[j]; COVER("copy"); if (i == j) COVER("self copy"); break;
        case 2: m[i] = std::move(m[j]); if (i != j) has[j] = false; COVER("move"); if (i == j) COVER("self move"); break;
        case 3: m[i] = ke::Some(Tracked(v)); has[i] = true; val[i] = v; COVER("some"); return;
        case 4: m[i] = ke::Nothing(); h = false; COVER("nothing"); break;
        case 5: { M t(m[j]); CHECK(t.isValid() == h); const M u(t); m[i] = u; COVER("copies"); break; }
        case 6: { M t(std::move(m[j])); CHECK(t.isValid() == h && !m[j].isValid()); has[j] = false; M u(std::move(t)); CHECK(!t); m[i] = std::move(u); COVER("moves"); break; }
        case 7: { const Tracked t(v); m[i] = ke::Some(t); CHECK(t.get() == v); has[i] = true; val[i] = v; COVER("some const"); return; }
        default: { Tracked t(v); m[i].init(std::move(t)); has[i] = true; val[i] = v; COVER("init moved"); }
            return;
        }
        has[i] = h;
        val[i] = hv;
    }
};
ENTRY(history) {
    Leaks l;
    {
        World w;
        w.check();
        unsigned ops = amsym_param("ops", 4);
        for (unsigned k = 0; k < ops; k++) {
            int op = amsym_choice(9, "op");
            int i = k == 0 ? 0 : amsym_choice(S, "i");
            int j = op == 1 || op == 2 || op == 5 || op == 6 ? amsym_choice(S, "j") : i;
            w.step(op, i, j);
            w.check();
        }
    }
    COVER("end");
}
// Storage is aligned for any type; the union with eight bytes must not get in the way of small ones.
template <typename T> static void aligned() {
    struct Pad { char c; ke::Maybe<T> m; } p;
    ke::StorageBuffer<T> b;
    CHECKM((uintptr_t)b.address() % alignof(T) == 0, "storage is aligned for its type");
    CHECK((const void*)b.address() == (const void*)static_cast<const ke::StorageBuffer<T>&>(b).address());
    CHECK(sizeof b >= sizeof(T) && (char*)b.address() >= (char*)&b && (char*)b.address() + sizeof(T) <= (char*)(&b + 1));
    p.m.init();
    CHECKM((uintptr_t)&p.m.get() % alignof(T) == 0, "the contained object is aligned for its type");
    ke::Maybe<T>* h = new ke::Maybe<T>(p.m);
    CHECK((uintptr_t)&h->get() % alignof(T) == 0);
    ke::Maybe<T> a[3];
    for (auto& x : a) { x = *h; CHECK((uintptr_t)&x.get() % alignof(T) == 0); }
    delete h;
}
template <size_t N, size_t A> struct alignas(A) Al { char c[N] = {}; };
ENTRY(alignment) {
    amsym_mark_heap();
    aligned<char>();
    aligned<short>();
    aligned<double>();
    aligned<long double>();
    aligned<Al<1, 1>>();
    aligned<Al<3, 2>>();
    aligned<Al<5, 4>>();
    aligned<Al<16, 16>>();
    aligned<Al<40, 32>>();
    aligned<Al<64, 64>>();
    amsym_check_leaks();
    COVER("end");
}
// Assignment from a value that lives inside the one being replaced; move-only contents; nested optionals.
struct Node { Tracked t; std::unique_ptr<ke::Maybe<Node>> next; explicit Node(int v) : t(v) {} Node(Node&&) = default; };
struct CNode { Tracked t; std::shared_ptr<ke::Maybe<CNode>> next; explicit CNode(int v) : t(v) {} };
ENTRY(nested) {
    Leaks l;
    int v = amsym_any<int>("v");
    switch (amsym_choice(5, "how")) {
    case 0: {
        ke::Maybe<Node> m;
        m.init(1);
        m->next.reset(new ke::Maybe<Node>());
        m->next->init(v);
        m = std::move(*m->next);
        CHECK(m.isValid() && m->t.get() == v && !m->next);
        COVER("move from inside");
        break;
    }
    case 1: {
        ke::Maybe<CNode> m;
        m.init(1);
        m->next = std::make_shared<ke::Maybe<CNode>>();
        m->next->init(v);
        m = *m->next;
        CHECK(m.isValid() && m->t.get() == v && !m->next);
        COVER("copy from inside");
        break;
    }
    case 2: {
        ke::Maybe<ke::Maybe<Tracked>> m, n;
        m = ke::Some(ke::Some(Tracked(v)));
        CHECK(m.isValid() && m->isValid() && (**m).get() == v);
        n = m;
        m = ke::Nothing();
        CHECK(!m && (*n)->get() == v);
        n.init();
        CHECK(n.isValid() && !n->isValid());
        COVER("nested");
        break;
    }
    case 3: {
        ke::Maybe<std::unique_ptr<int>> m;
        m.init(new int(v));
        ke::Maybe<std::unique_ptr<int>> n(std::move(m));
        CHECK(!m && n && **n == v);
        m = std::move(n);
        CHECK(!n && **m == v);
        m.init(new int(2));
        CHECK(**m == 2);
        COVER("move only");
        break;
    }
    default: {
        ke::Maybe<int> m = ke::Some(v);
        int w = v;
        ke::Maybe<int> n = ke::Some(w);
        const int k = v;
        auto o = ke::Some(k);
        CHECK(*m == v && *n == v && *o == v);
        *m = 3;
        CHECK(m.get() == 3);
        ke::Maybe<int> e = ke::Nothing(), f;
        CHECK(!e.isValid() && !f.isValid());
        COVER("plain");
    }
    }
}
// The same operations on plain types.
template <typename T> static T anyOf();
template <> int anyOf<int>() { return amsym_any<int>("v"); }
template <> bool anyOf<bool>() { return amsym_bool("v"); }
template <> unsigned char anyOf<unsigned char>() { return amsym_any<unsigned char>("v"); }
template <> Twin anyOf<Twin>() { return Twin(amsym_any<int>("k"), amsym_any<int>("d")); }
template <typename T> static bool is(const T& a, const T& b) { return a == b; }
static bool is(const Twin& a, const Twin& b) { return a.is(b.key, b.data); }
template <typename T> static void plain() {
    ke::Maybe<T> m[S];
    bool has[S] = {};
    T val[S] = {};
    unsigned ops = amsym_param("plain_ops", 3);
    for (unsigned k = 0; k < ops; k++) {
        int op = amsym_choice(7, "op"), i = k == 0 ? 0 : amsym_choice(S, "i"), j = op >= 3 ? amsym_choice(S, "j") : i;
        T v = anyOf<T>(), hv = val[j];
        bool h = has[j];
        switch (op) {
        case 0: m[i].init(v); h = true; hv = v; break;
        case 1: m[i] = ke::Some(v); h = true; hv = v; break;
        case 2: m[i] = ke::Nothing(); h = false; break;
        case 3: m[i] = m[j]; break;
        case 4: m[i] = std::move(m[j]); if (i != j) has[j] = false; break;
        case 5: { ke::Maybe<T> t(std::move(m[j])); CHECKM(!m[j].isValid(), "a value moved away is gone"); has[j] = false; CHECK(t.isValid() == h); m[i] = t; CHECK(t.isValid() == h); break; }
        default: { const ke::Maybe<T> t(m[j]); m[i] = t; }
        }
        has[i] = h;
        val[i] = hv;
        for (int q = 0; q < S; q++) {
            CHECKM(m[q].isValid() == has[q] && (bool)m[q] == has[q], "presence is exact");
            if (has[q]) CHECKM(is(*m[q], val[q]) && is(m[q].get(), val[q]), "the value is the one given");
        }
    }
}
ENTRY(plain_types) {
    switch (amsym_choice(4, "type")) {
    case 0: plain<int>(); COVER("int"); break;
    case 1: plain<bool>(); COVER("bool"); break;
    case 2: plain<unsigned char>(); COVER("byte"); break;
    default: plain<Twin>(); COVER("twin");
    }
}
// Values of many sizes.
template <int B> struct Wide {
    Tracked t;
    unsigned char pad[B];
    explicit Wide(int v) : t(v) { for (int i = 0; i < B; i++) pad[i] = (unsigned char)(i * 5 + B); pad[B - 1] ^= (unsigned char)v; }
    bool ok(int v) const {
        if (t.get() != v) return false;
        unsigned bad = 0;
        for (int i = 0; i < B - 1; i++) bad |= (unsigned char)(pad[i] ^ (i * 5 + B));
        return !bad && pad[B - 1] == (unsigned char)(((B - 1) * 5 + B) ^ v);
    }
};
template <int B> static void wide() {
    int v = amsym_any<int>("v"), w = amsym_any<int>("w");
    typedef ke::Maybe<Wide<B>> T;
    T a, b;
    a.init(v);
    b.init(w);
    CHECKM(a->ok(v) && b->ok(w) && Tracked::live() == 2, "the optional holds the value it was given");
    T c(a);
    CHECKM(c->ok(v) && a->ok(v) && Tracked::live() == 3, "a copy holds the same value");
    a = b;
    CHECKM(a->ok(w) && b->ok(w) && Tracked::live() == 3, "assignment replaces the value");
    b = std::move(c);
    CHECKM(b->ok(v) && !c.isValid() && Tracked::live() == 2, "a value moved away is gone");
    std::vector<T> many(3);
    many[1] = b;
    many[2] = ke::Some(Wide<B>(w));
    many.insert(many.begin(), a);
    CHECKM(many[0]->ok(w) && !many[1].isValid() && many[2]->ok(v) && many[3]->ok(w) && Tracked::live() == 5, "optionals in a container hold their values");
    many.erase(many.begin() + 2);
    CHECKM(many[2]->ok(w) && Tracked::live() == 4, "optionals in a container hold their values");
}
ENTRY(wide_values) {
    Leaks l;
    switch (amsym_choice(7, "size")) {
    case 0: wide<1>(); break;
    case 1: wide<7>(); break;
    case 2: wide<33>(); break;
    case 3: wide<100>(); break;
    case 4: wide<257>(); break;
    case 5: wide<1000>(); break;
    default: wide<5000>();
    }
    COVER("end");
}
