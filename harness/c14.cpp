#include "amsym.h"
#include "live.h"
#include <stdlib.h>
#include <utility>
#include <amtl/am-function.h>
typedef ke::Function<int(int)> Fn;
// A callable of 16 bytes: with the holder's table pointer it just fits the inline buffer of three pointers.
struct Small {
    const Small* self;
    int v;
    static int& live() { static int n; return n; }
    static int& copies() { static int n; return n; }
    static int& moves() { static int n; return n; }
    static void reset() { live() = copies() = moves() = 0; }
    void ok() const { amsym_assert(self == this, "callable used after destruction or relocated without its constructor"); }
    explicit Small(int v) : self(this), v(v) { live()++; }
    Small(const Small& o) : self(this), v(o.v) { o.ok(); live()++; copies()++; }
    Small(Small&& o) : self(this), v(o.v) { o.ok(); o.v = -7; live()++; moves()++; }
    ~Small() { ok(); self = nullptr; live()--; }
    int operator()(int x) const { ok(); return v ^ x; }
};
struct Large {
    Tracked t;
    int more[4];
    explicit Large(int v) : t(v) {}
    int operator()(int x) const { return t.get() ^ x ^ 0x77; }
};
// One byte more than fits.
struct Seventeen { const void* a; const void* b; char v; int operator()(int x) const { return v ^ x; } };
static int plainFn(int x) { return x ^ 0x33; }
static const int S = 2;
struct World {
    Fn f[S];
    int kind[S] = {};      // 0 empty, 1 small, 2 large, 3 function pointer
    int val[S] = {};
    bool deep[S] = {};     // holds another wrapper: a copy was made from a non-const wrapper
    int want(int i, int x) { return kind[i] == 1 ? val[i] ^ x : kind[i] == 2 ? val[i] ^ x ^ 0x77 : x ^ 0x33; }
    void check() {
        int small = 0, large = 0;
        for (int i = 0; i < S; i++) {
            CHECK((bool)f[i] == (kind[i] != 0));
            if (kind[i] == 1) small++;
            if (kind[i] == 2) large++;
            if (kind[i] && !deep[i]) CHECKM(f[i].usingInlineStorage() == (kind[i] != 2), "small callables are kept inline, large ones are not");
            if (kind[i]) { int x = amsym_any<int>("x"); CHECK(f[i](x) == want(i, x)); }
        }
        CHECKM(Small::live() == small, "every small callable made is destroyed once");
        CHECKM((int)Tracked::live() == large, "every large callable made is destroyed once");
    }
    void set(int i, int k, int v, bool d) { kind[i] = k; val[i] = v; deep[i] = d; }
    void step(int op, int i, int j) {
        int v = amsym_any<int>("v");
        uint64_t a0 = amsym_alloc_count();
        int sc = Small::copies(), lc = Tracked::ncopies();
        int k = kind[j], kv = val[j];
        bool d = deep[j];
        switch (op) {
        case 0: f[i] = Small(v); set(i, 1, v, false); CHECK(Small::copies() == sc); CHECKM(amsym_alloc_count() == a0, "no allocation for a small callable"); COVER("small"); return;
        case 1: { Small s(v); f[i] = s; set(i, 1, v, false); CHECK(Small::copies() == sc + 1); CHECKM(amsym_alloc_count() == a0, "no allocation for a small callable"); COVER("small lvalue"); return; }
        case 2: f[i] = Large(v); set(i, 2, v, false); CHECK(Tracked::ncopies() == lc); COVER("large"); return;
        case 3: { const Large l(v); f[i] = l; set(i, 2, v, false); CHECK(Tracked::ncopies() == lc + 1); COVER("large lvalue"); return; }
        case 4:
            f[i] = static_cast<const Fn&>(f[j]);
            if (!d && k != 2) CHECKM(amsym_alloc_count() == a0, "copying a small callable does not allocate");
            CHECK(Small::copies() - sc == (k == 1) && Tracked::ncopies() - lc == (k == 2));
            set(i, k, kv, d);
            COVER("copy");
            return;
        case 5:
            f[i] = f[j];          // from a non-const wrapper: allocates, see copy_lvalue_inline
            CHECK(Small::copies() - sc <= (k == 1) && Tracked::ncopies() - lc <= (k == 2));
            set(i, k, kv, k != 0);
            COVER("copy of non-const");
            return;
        case 6:
            f[i] = std::move(f[j]);
            CHECKM(Small::copies() == sc && Tracked::ncopies() == lc, "moving never copies the callable");
            CHECKM(amsym_alloc_count() == a0, "moving never allocates");
            if (i != j) { CHECK(!f[j]); set(j, 0, 0, false); }
            set(i, k, kv, d);
            COVER("move");
            return;
        case 7: f[i] = nullptr; set(i, 0, 0, false); CHECK(amsym_alloc_count() == a0); COVER("null"); return;
        case 8: {
            Fn a(std::move(f[j]));
            Fn b(std::move(a));
            CHECKM(Small::copies() == sc && Tracked::ncopies() == lc, "moving never copies the callable");
            CHECKM(amsym_alloc_count() == a0, "moving never allocates");
            CHECK(!a && !f[j]);
            set(j, 0, 0, false);
            if (amsym_bool("keep")) { f[i] = std::move(b); set(i, k, kv, d); COVER("move through"); }
            else COVER("dropped");
            return;
        }
        default: {
            const Fn a(static_cast<const Fn&>(f[j]));
            const Fn b(a);
            if (!d && k != 2) CHECKM(amsym_alloc_count() == a0, "copying a small callable does not allocate");
            f[i] = b;
            CHECK(Small::copies() - sc == 3 * (k == 1) && Tracked::ncopies() - lc == 3 * (k == 2));
            set(i, k, kv, d);
            COVER("copies");
            return;
        }
        }
    }
};
ENTRY(history) {
    Small::reset();
    Tracked::reset();
    amsym_mark_heap();
    {
        World w;
        unsigned ops = amsym_param("ops", 3);
        for (unsigned n = 0; n < ops; n++) {
            int op = amsym_choice(n == 0 ? 4 : 10, "op");
            int i = n == 0 ? 0 : amsym_choice(S, "i");
            int j = op == 4 || op == 5 || op == 6 || op >= 8 ? amsym_choice(S, "j") : i;
            w.step(op, i, j);
            w.check();
        }
    }
    CHECKM(Small::live() == 0 && Tracked::live() == 0, "destroying the wrappers destroys their callables");
    amsym_check_leaks();
    COVER("end");
}
// Which callables fit: everything up to 16 bytes, captures included.
ENTRY(sizes) {
    amsym_mark_heap();
    {
        uint64_t a0 = amsym_alloc_count();
        int a = amsym_any<int>("a"), b = amsym_any<int>("b"), c = amsym_any<int>("c"), d = amsym_any<int>("d");
        Fn f0([](int x) { return x ^ 1; });
        Fn f1([a](int x) { return x ^ a; });
        Fn f4([a, b, c, d](int x) { return x ^ a ^ b ^ c ^ d; });
        int* p = &a;
        Fn f2([p, b](int x) { return x ^ *p ^ b; });
        Fn fp(plainFn);
        Fn fq = &plainFn;
        ke::Function<void()> none([] {});
        CHECK(f0.usingInlineStorage() && f1.usingInlineStorage() && f4.usingInlineStorage() && f2.usingInlineStorage() && fp.usingInlineStorage() && fq.usingInlineStorage() && none.usingInlineStorage());
        CHECK(f0(c) == (c ^ 1) && f1(c) == (c ^ a) && f4(5) == (5 ^ a ^ b ^ c ^ d) && f2(9) == (9 ^ a ^ b) && fp(3) == (3 ^ 0x33));
        Fn m1(std::move(f4)), m2(std::move(f2)), m3(std::move(fp));
        CHECK(m1(5) == (5 ^ a ^ b ^ c ^ d) && m2(9) == (9 ^ a ^ b) && m3(1) == (1 ^ 0x33));
        f0 = std::move(m1);
        const Fn k(static_cast<const Fn&>(f0));
        CHECK(k(5) == (5 ^ a ^ b ^ c ^ d) && k.usingInlineStorage());
        CHECKM(amsym_alloc_count() == a0, "no allocation for small callables");
        Fn big(Seventeen{&a, &b, (char)c});
        CHECK(!big.usingInlineStorage() && big(2) == ((char)c ^ 2));
        CHECK(amsym_alloc_count() == a0 + 1);
        Fn big2(std::move(big));
        CHECK(amsym_alloc_count() == a0 + 1 && big2(2) == ((char)c ^ 2));
    }
    amsym_check_leaks();
    COVER("end");
}
// Callables that can only be moved... into a wrapper that is only moved, and an owner of memory.
struct Owns {
    int* p;
    explicit Owns(int v) : p(new int(v)) {}
    Owns(const Owns& o) : p(new int(*o.p)) {}
    Owns(Owns&& o) : p(o.p) { o.p = nullptr; }
    ~Owns() { delete p; }
    int operator()(int x) const { return *p ^ x; }
};
ENTRY(owners) {
    amsym_mark_heap();
    {
        int v = amsym_any<int>("v");
        Fn f((Owns(v)));
        CHECK(f.usingInlineStorage());
        const Fn g(static_cast<const Fn&>(f));
        switch (amsym_choice(5, "how")) {
        case 0: f = nullptr; break;
        case 1: f = [](int x) { return x; }; break;
        case 2: f = g; CHECK(f(1) == (v ^ 1)); break;
        case 3: { Fn h(std::move(f)); CHECK(h(2) == (v ^ 2)); break; }
        default: f = std::move(f); CHECK(f(3) == (v ^ 3));
        }
        CHECK(g(4) == (v ^ 4));
    }
    amsym_check_leaks();
    COVER("end");
}
// Large callables of many sizes, and arrays of wrappers.
template <int B> struct Sized {
    Tracked t;
    unsigned char pad[B];
    explicit Sized(int v) : t(v) { for (int i = 0; i < B; i++) pad[i] = (unsigned char)(i * 7 + B); pad[B / 2] ^= (unsigned char)v; }
    int operator()(int x) const {
        unsigned bad = 0;
        for (int i = 0; i < B; i++) bad |= (unsigned char)(pad[i] ^ (i * 7 + B) ^ (i == B / 2 ? t.get() : 0));
        return bad ? -1 : t.get() ^ x;
    }
};
template <int B> static void sized() {
    int v = amsym_any<int>("v");
    uint64_t a0 = amsym_alloc_count();
    const Fn a{Sized<B>(v)};
    CHECK(!a.usingInlineStorage() && Tracked::live() == 1);
    a0 = amsym_alloc_count();
    Fn b(a);
    CHECKM(Tracked::live() == 2, "one copy is made");
    CHECK(a(11) == (v ^ 11) && b(12) == (v ^ 12));
    a0 = amsym_alloc_count();
    int copies = Tracked::ncopies();
    Fn c(std::move(b));
    CHECKM(amsym_alloc_count() == a0 && Tracked::ncopies() == copies && Tracked::live() == 2, "moving neither copies nor allocates");
    CHECK(!b && c(13) == (v ^ 13));
    b = plainFn;
    b = std::move(c);
    CHECK(!c && b(14) == (v ^ 14) && Tracked::live() == 2);
    b = a;
    CHECKM(Tracked::live() == 2, "the callable replaced is destroyed");
    CHECK(b(15) == (v ^ 15));
}
ENTRY(large_callables) {
    Tracked::reset();
    amsym_mark_heap();
    switch (amsym_choice(7, "size")) {
    case 0: sized<1>(); break;
    case 1: sized<24>(); break;
    case 2: sized<40>(); break;
    case 3: sized<104>(); break;
    case 4: sized<240>(); break;
    case 5: sized<1000>(); break;
    default: sized<5000>();
    }
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
    COVER("end");
}
// Known finding: copying a wrapper through a non-const lvalue puts the wrapper itself on the heap.
ENTRY(copy_lvalue_inline) {
    Fn f([](int x) { return x + 1; });
    uint64_t a0 = amsym_alloc_count();
    Fn g(f);
    CHECKM(amsym_alloc_count() == a0, "copying a wrapper of a small callable through a non-const lvalue does not allocate");
    COVER("end");
}
