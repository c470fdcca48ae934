#include "amsym.h"
#include <stdlib.h>
#include <memory>
#include <utility>
#include <amtl/am-function.h>
typedef ke::Function<int(int)> Fn;
struct Small { int v; int operator()(int x) const { return v ^ x; } };
struct Fits { int v; int w; int* p; int operator()(int x) const { *p += 1; return (v ^ x) + (w & 0xff); } };
struct Large { int pad[12]; int v; int operator()(int x) const { return (v ^ x) ^ 0x55; } };
static int plainFn(int x) { return x ^ 0x33; }
static const int S = 2;
struct MoveOnly { int v; std::unique_ptr<int> p; explicit MoveOnly(int v) : v(v), p(new int(v)) {} MoveOnly(MoveOnly&& o) : v(o.v), p(std::move(o.p)) { o.v = -1; } };
struct World {
    Fn f[S];
    int kind[S] = {};     // 0 empty, 1..4 what it was last given
    int val[S] = {};
    int calls = 0;
    int expect(int i, int x) { switch (kind[i]) { case 1: return val[i] ^ x; case 2: return (val[i] ^ x) + (77 & 0xff); case 3: return val[i] ^ x ^ 0x55; default: return x ^ 0x33; } }
    void check() {
        for (int i = 0; i < S; i++) {
            CHECK((bool)f[i] == (kind[i] != 0));
            if (!kind[i]) continue;
            int x = amsym_any<int>("x") & 0xffff;
            int before = calls;
            CHECK(f[i](x) == expect(i, x));
            CHECK(calls == before + (kind[i] == 2));
            const Fn& c = f[i];
            CHECK(c(x) == expect(i, x));
        }
    }
    void give(int i, int kind_, int v) {
        switch (kind_) {
        case 1: f[i] = Small{v}; break;
        case 2: f[i] = Fits{v, 77, &calls}; break;
        case 3: { Large l; for (auto& p : l.pad) p = v; l.v = v; f[i] = l; break; }
        default: f[i] = plainFn;
        }
        kind[i] = kind_; val[i] = v;
    }
    void step(int op, int i, int j) {
        int k = kind[j], v = val[j];
        switch (op) {
        case 0: give(i, 1, amsym_any<int>("v") & 0xffff); COVER("small"); return;
        case 1: give(i, 3, amsym_any<int>("v") & 0xffff); COVER("large"); return;
        case 2: f[i] = f[j]; COVER("copy"); break;
        case 3: f[i] = static_cast<const Fn&>(f[j]); COVER("const copy"); break;
        case 4: f[i] = std::move(f[j]); if (i != j) { kind[j] = 0; CHECK(!f[j]); } COVER("move"); break;
        case 5: f[i] = nullptr; k = 0; COVER("null"); break;
        case 6: {
            Fn a(f[j]);
            const Fn b(f[j]);
            CHECK((bool)a == (k != 0) && (bool)b == (k != 0));
            Fn c(b), d(std::move(a));
            CHECK(!a);
            a = d;
            if (i != j) { f[j] = nullptr; kind[j] = 0; }
            f[i] = amsym_bool("which") ? std::move(c) : std::move(a);
            COVER("construct");
            break;
        }
        case 7: {
            Fn t(std::move(f[j]));
            CHECK(!f[j]);
            kind[j] = 0;
            f[i] = Fn();
            CHECK(!f[i]);
            f[i] = std::move(t);
            CHECK(!t);
            COVER("construct by move");
            break;
        }
        case 8: give(i, 2, amsym_any<int>("v") & 0xffff); COVER("fits"); return;
        case 9: give(i, 4, 0); COVER("function pointer"); return;
        default: { Fn e; f[i] = e; Fn n(nullptr); CHECK(!n && !e); k = 0; COVER("empty"); }
        }
        kind[i] = k; val[i] = v;
    }
};
ENTRY(history) {
    World w;
    int start = amsym_choice(3, "start");
    if (start) w.give(0, start == 1 ? 1 : 3, 1234);
    unsigned ops = amsym_param("ops", 3);
    for (unsigned n = 0; n < ops; n++) {
        int op = amsym_choice(11, "op");
        int i = amsym_choice(S, "i"), j = op >= 2 && op <= 7 && op != 5 ? amsym_choice(S, "j") : i;
        w.step(op, i, j);
        w.check();
    }
    COVER("end");
}
// The callable sees each argument as the signature says: an lvalue as one, a value or rvalue as an rvalue.
struct Kinds {
    int* seen;
    void see(int kind, const Kinds& arg) const { *seen = kind; CHECK(arg.seen == seen); }
    void operator()(Kinds& a) const { see(1, a); }
    void operator()(const Kinds& a) const { see(2, a); }
    void operator()(Kinds&& a) const { see(3, a); }
};
ENTRY(categories) {
    int seen = 0;
    Kinds k{&seen};
    switch (amsym_choice(4, "signature")) {
    case 0: { ke::Function<void(Kinds&)> f(k); f(k); CHECK(seen == 1); break; }
    case 1: { ke::Function<void(const Kinds&)> f(k); f(k); CHECK(seen == 2); break; }
    case 2: { ke::Function<void(Kinds&&)> f(k); f(std::move(k)); CHECK(seen == 3); break; }
    default: { ke::Function<void(Kinds)> f(k); f(k); CHECK(seen == 3); }
    }
    COVER("end");
}
// An lvalue argument is the caller's own: nothing is moved from it.
struct Taker { int operator()(const MoveOnly& m) const { return m.v; } int operator()(MoveOnly&& m) const { MoveOnly t(std::move(m)); return t.v; } };
ENTRY(kept_arguments) {
    amsym_mark_heap();
    {
        MoveOnly m(amsym_any<int>("v"));
        ke::Function<int(MoveOnly&)> f{Taker()};
        CHECK(f(m) == m.v);
        CHECKM(m.p && *m.p == m.v, "an argument passed by reference is left to the caller");
        COVER("end");
    }
    amsym_check_leaks();
}
// Arguments and results pass through unchanged, whatever their kind.
ENTRY(arguments) {
    amsym_mark_heap();
    {
        int a = amsym_any<int>("a"), b = amsym_any<int>("b");
        long seen = 0;
        ke::Function<void(int, unsigned char, long)> f1([&seen](int x, unsigned char y, long z) { seen = (long)x ^ (y << 3) ^ z; });
        f1(a, (unsigned char)b, 99);
        CHECK(seen == ((long)a ^ ((long)(unsigned char)b << 3) ^ 99));
        ke::Function<int&(int&)> f2([](int& x) -> int& { x ^= 5; return x; });
        int c = a;
        CHECK(&f2(c) == &c && c == (a ^ 5));
        ke::Function<MoveOnly(MoveOnly)> f3([](MoveOnly m) { m.v ^= 1; return m; });
        MoveOnly r = f3(MoveOnly(a));
        CHECK(r.v == (a ^ 1) && *r.p == a);
        ke::Function<int(MoveOnly&&)> f4([](MoveOnly&& m) { MoveOnly mine(std::move(m)); return mine.v; });
        MoveOnly m4(b);
        CHECK(f4(std::move(m4)) == b && !m4.p);
        ke::Function<const int*(const int&)> f5([](const int& x) { return &x; });
        CHECK(f5(a) == &a);
        int total = 0;
        ke::Function<void()> f6 = [&total, a, b] { total += (a & 7) + (b & 3); };
        f6();
        ke::Function<void()> f7(f6), f8;
        f8 = f7;
        f7();
        f8();
        CHECK(total == 3 * ((a & 7) + (b & 3)));
        auto lam = [a](int x) { return a ^ x; };
        ke::Function<int(int)> f9(lam);
        auto lam2 = [b](int x) { return b ^ x; };
        CHECK(f9(3) == (a ^ 3));
        f9 = lam2;
        CHECK(f9(3) == (b ^ 3) && lam(1) == (a ^ 1));
        const auto clam = lam2;
        ke::Function<int(int)> f10(clam);
        CHECK(f10(9) == (b ^ 9));
        COVER("end");
    }
    amsym_check_leaks();
}
// A copy keeps its own state; assignment from something owned by the wrapper's own target.
struct Owner { std::shared_ptr<Fn> inner; int operator()(int x) const { return 2 * (x & 0xff); } };
ENTRY(owned_by_target) {
    amsym_mark_heap();
    {
        int v = amsym_any<int>("v");
        Fn f;
        Fn* inner;
        {
            auto p = std::make_shared<Fn>(Small{v});
            inner = p.get();
            f = Owner{p};
        }
        CHECK(f(4) == 8);
        switch (amsym_choice(3, "how")) {
        case 0: f = *inner; COVER("copy"); break;
        case 1: f = std::move(*inner); COVER("move"); break;
        default: f = static_cast<const Fn&>(*inner); COVER("const copy");
        }
        CHECK(f(12) == (v ^ 12));
    }
    amsym_check_leaks();
    COVER("end");
}
// Many arguments of every kind, in their places.
struct Wide { long a, b, c; char d; };
ENTRY(many_arguments) {
    amsym_mark_heap();
    {
        int a = amsym_any<int>("a");
        unsigned char b = amsym_any<unsigned char>("b");
        int64_t c = amsym_any<int64_t>("c");
        double d = 2.5;
        float e = -0.25f;
        Wide w{amsym_any<long>("w"), 2, 3, amsym_any<char>("d")};
        MoveOnly m(amsym_any<int>("m"));
        int calls = 0;
        ke::Function<Wide(int, unsigned char, int64_t, double, float, Wide, const Wide&, Wide*, bool, MoveOnly&&, short, const char*)> f(
            [&](int a2, unsigned char b2, int64_t c2, double d2, float e2, Wide w2, const Wide& w3, Wide* w4, bool t, MoveOnly&& m2, short s, const char* str) {
                calls++;
                CHECKM(a2 == a && b2 == b && c2 == c && d2 == d && e2 == e, "numbers arrive unchanged and in order");
                CHECKM(w2.a == w.a && w2.b == 2 && w2.c == 3 && w2.d == w.d && &w2 != &w, "a structure passed by value is a copy");
                CHECKM(&w3 == &w && w4 == &w && t && s == -3 && str[1] == 'b', "references and pointers are the caller's");
                CHECKM(&m2 == &m && m2.v == m.v && m2.p && *m2.p == m.v, "an rvalue is the caller's object");
                w4->b = 20;
                w2.c = 30;
                return w2;
            });
        ke::Function<Wide(int, unsigned char, int64_t, double, float, Wide, const Wide&, Wide*, bool, MoveOnly&&, short, const char*)> g(std::move(f));
        Wide r = g(a, b, c, d, e, w, w, &w, true, std::move(m), -3, "ab");
        CHECKM(calls == 1, "called once");
        CHECKM(r.a == w.a && r.b == 2 && r.c == 30 && r.d == w.d && w.b == 20 && w.c == 3, "the result is the callable's");
        ke::Function<double(double, float)> h([](double x, float y) { return x * 2 + y; });
        CHECK(h(d, e) == 4.75);
        ke::Function<bool(bool)> n([](bool x) { return !x; });
        bool q = amsym_any<uint8_t>("q") & 1;
        CHECK(n(q) == !q);
        COVER("end");
    }
    amsym_check_leaks();
}
// Wrappers inside callables inside wrappers.
ENTRY(nested_wrappers) {
    amsym_mark_heap();
    {
        int v = amsym_any<int>("v");
        Fn f(Small{v});
        int depth = 1 + amsym_choice(4, "depth");
        for (int i = 0; i < depth; i++) {
            Fn inner(amsym_bool("moved") ? Fn(std::move(f)) : Fn(static_cast<const Fn&>(f)));
            f = [inner](int x) { return inner(x) ^ 1; };
        }
        CHECK(f(40) == (v ^ 40 ^ (depth & 1)));
        Fn g(static_cast<const Fn&>(f));
        f = nullptr;
        CHECK(g(41) == (v ^ 41 ^ (depth & 1)));
        COVER("end");
    }
    amsym_check_leaks();
}
// A callable's own state: a copy starts with the state of what it was copied from and goes its own way, a move takes it along.
template <int Pad> struct Counting { mutable int n; int pad[Pad]; explicit Counting(int v) : n(v), pad() {} int operator()(int x) const { return n += x; } };
template <int Pad> static void counting() {
    int n[3] = {amsym_any<int>("start") & 0xffff, 0, 0};
    bool held[3] = {true, false, false};
    Fn f[3];
    f[0] = Counting<Pad>(n[0]);
    for (int k = 0; k < (int)amsym_param("count_ops", 4); k++) {
        int i = amsym_choice(3, "i");
        if (!held[i]) continue;
        int j = (i + 1 + amsym_choice(2, "j")) % 3;
        switch (amsym_choice(4, "op")) {
        case 0: { int x = amsym_any<int>("x") & 0xff; CHECKM(f[i](x) == n[i] + x, "the callable goes on from its own state"); n[i] += x; break; }
        case 1: f[j] = static_cast<const Fn&>(f[i]); n[j] = n[i]; held[j] = true; break;
        case 2: f[j] = std::move(f[i]); n[j] = n[i]; held[j] = true; held[i] = false; break;
        default: { Fn t(static_cast<const Fn&>(f[i])); CHECK(t(1) == n[i] + 1 && t(1) == n[i] + 2); f[i] = std::move(t); n[i] += 2; }
        }
        for (int s = 0; s < 3; s++) CHECK((bool)f[s] == held[s]);
    }
    for (int s = 0; s < 3; s++) if (held[s]) CHECKM(f[s](0) == n[s], "no wrapper shares its state with another");
}
ENTRY(state) {
    amsym_mark_heap();
    if (amsym_bool("large")) { counting<12>(); COVER("large"); }
    else { counting<1>(); COVER("small"); }
    amsym_check_leaks();
    COVER("end");
}
