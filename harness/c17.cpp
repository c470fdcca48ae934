#include "amsym.h"
#include "live.h"
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <utility>
#include <vector>
#include <amtl/am-fixedarray.h>
typedef ke::FixedArray<Tracked> Arr;
static const unsigned M = 4;
struct Ref {
    int v[M];
    unsigned n = 0;
    bool same(const Ref& o) const { if (n != o.n) return false; for (unsigned i = 0; i < n; i++) if (v[i] != o.v[i]) return false; return true; }
};
static void same(const Arr& a, const Ref& r) {
    CHECK(a.size() == r.n && a.empty() == (r.n == 0));
    for (unsigned i = 0; i < r.n; i++) CHECKM(a[i].get() == r.v[i] && a.at(i).get() == r.v[i], "the array holds exactly the expected values in order");
    unsigned i = 0;
    for (const Tracked& t : a) { CHECK(&t == &a[i] && a.buffer() + i == &t); i++; }
    CHECK(i == r.n);
    if (r.n) CHECK(a.back().get() == r.v[r.n - 1] && &a.back() == &a[r.n - 1]);
}
static Ref anyRef(unsigned max, const char* name) {
    Ref r;
    r.n = amsym_choice(max + 1, name);
    for (unsigned i = 0; i < r.n; i++) r.v[i] = amsym_any<int>("elem");
    return r;
}
static void put(Arr& a, const Ref& r) { for (unsigned i = 0; i < r.n; i++) a[i] = Tracked(r.v[i]); }
struct Leaks {
    Leaks() { Tracked::reset(); amsym_mark_heap(); }
    ~Leaks() { CHECKM(Tracked::live() == 0, "every element is destroyed once"); amsym_check_leaks(); }
};
// Default construction and every constructor from another source.
ENTRY(construct) {
    Leaks l;
    Ref r = anyRef(M, "n");
    switch (amsym_choice(6, "how")) {
    case 0: {
        Arr a(r.n);
        CHECK(a.initialize() && a.size() == r.n && Tracked::live() == r.n);
        for (unsigned i = 0; i < r.n; i++) CHECKM(a[i].get() == -1, "elements are default-constructed");
        put(a, r);
        same(a, r);
        COVER("sized");
        break;
    }
    case 1: { Arr a(r.n); put(a, r); Arr b(a); CHECK(b.initialize()); same(b, r); same(a, r); CHECK(a == b && !(a != b)); CHECK(r.n == 0 || a.buffer() != b.buffer()); COVER("copy"); break; }
    case 2: { Arr a(r.n); put(a, r); int c = Tracked::ncopies(); Arr b(std::move(a)); CHECK(b.initialize()); same(b, r); CHECK(a.empty() && Tracked::ncopies() == c && Tracked::live() == r.n); COVER("move"); break; }
    case 3: {
        std::vector<Tracked> v;
        for (unsigned i = 0; i < r.n; i++) v.emplace_back(r.v[i]);
        Arr a(v);
        CHECK(a.initialize());
        same(a, r);
        CHECK(v.size() == r.n);
        for (unsigned i = 0; i < r.n; i++) CHECK(v[i].get() == r.v[i]);
        COVER("vector copy");
        break;
    }
    case 4: {
        std::vector<Tracked> v;
        for (unsigned i = 0; i < r.n; i++) v.emplace_back(r.v[i]);
        int c = Tracked::ncopies();
        Arr a(std::move(v));
        CHECK(a.initialize() && Tracked::ncopies() == c);
        same(a, r);
        COVER("vector move");
        break;
    }
    default: { Arr a; CHECK(a.empty() && a.initialize() && a.begin() == a.end()); Ref none; same(a, none); Arr b(a), c(std::move(a)); same(b, none); same(c, none); COVER("empty"); }
    }
}
// Two arrays of any lengths, some of them empty or moved from, through a few assignments.
ENTRY(assign) {
    Leaks l;
    {
        unsigned m = amsym_param("len", 2);
        Ref r[2] = {anyRef(m, "n0"), anyRef(m, "n1")};
        Arr a[2] = {Arr(r[0].n), Arr(r[1].n)};
        put(a[0], r[0]);
        put(a[1], r[1]);
        unsigned ops = amsym_param("ops", 3);
        for (unsigned k = 0; k < ops; k++) {
            int i = amsym_choice(2, "i"), j = amsym_choice(2, "j");
            switch (amsym_choice(5, "op")) {
            case 0: a[i] = a[j]; CHECK(a[i].initialize()); r[i] = r[j]; COVER("copy"); if (i == j) COVER("self copy"); break;
            case 1: { int c = Tracked::ncopies(); a[i] = std::move(a[j]); CHECK(Tracked::ncopies() == c); if (i != j) { r[i] = r[j]; r[j].n = 0; } COVER("move"); if (i == j) COVER("self move"); break; }
            case 2: { Arr t(std::move(a[j])); CHECK(a[j].empty()); Ref rt = r[j]; r[j].n = 0; same(t, rt); a[i] = std::move(t); r[i] = rt; COVER("move through"); break; }
            case 3: { if (!r[i].n) return; int x = amsym_any<int>("x"); a[i][r[i].n - 1] = Tracked(x); r[i].v[r[i].n - 1] = x; CHECK(a[i].back().get() == x); COVER("write"); break; }
            default: { const Arr t(a[j]); a[i] = t; r[i] = r[j]; COVER("copy through"); }
            }
            same(a[0], r[0]);
            same(a[1], r[1]);
            CHECKM(Tracked::live() == r[0].n + r[1].n, "no element is left over or missing");
            CHECK((a[0] == a[1]) == r[0].same(r[1]));
            CHECK((a[0] != a[1]) == !r[0].same(r[1]));
        }
    }
    COVER("end");
}
// Plain types, with another size and alignment.
ENTRY(scalars) {
    amsym_mark_heap();
    {
        unsigned n = amsym_choice(5, "n");
        ke::FixedArray<uint16_t> a(n);
        uint16_t v[5];
        for (unsigned i = 0; i < n; i++) { CHECKM(a[i] == 0, "elements are value-initialised"); v[i] = a[i] = amsym_any<uint16_t>("v"); }
        ke::FixedArray<uint16_t> b(a), c;
        c = a;
        for (unsigned i = 0; i < n; i++) CHECK(b[i] == v[i] && c[i] == v[i] && a[i] == v[i]);
        CHECK(b == a && c == b);
        if (n) { b[n - 1] ^= 1 << amsym_choice(16, "bit"); CHECK(b != a && !(b == a)); COVER("differ"); }
        std::vector<long double> lv(n, 1.5L);
        ke::FixedArray<long double> d(lv);
        for (unsigned i = 0; i < n; i++) CHECK(d[i] == 1.5L);
        CHECK(((uintptr_t)d.buffer() & 15) == 0);
        std::vector<std::unique_ptr<int>> uv;
        for (unsigned i = 0; i < n; i++) uv.emplace_back(new int(v[i]));
        ke::FixedArray<std::unique_ptr<int>> e(std::move(uv));
        ke::FixedArray<std::unique_ptr<int>> f(std::move(e));
        for (unsigned i = 0; i < n; i++) CHECK(*f[i] == v[i]);
        e = std::move(f);
        for (unsigned i = 0; i < n; i++) CHECK(*e[i] == v[i]);
        CHECK(f.empty());
    }
    amsym_check_leaks();
    COVER("end");
}
// Equality is the elements' own, which need not be that of their bytes; and an element need not equal itself.
ENTRY(equality) {
    amsym_mark_heap();
    {
        unsigned n = amsym_choice(4, "n"), m = amsym_choice(4, "m");
        ke::FixedArray<Twin> a(n), b(m);
        bool eq = n == m;
        for (unsigned i = 0; i < n; i++) a[i] = Twin(amsym_any<int>("k"), amsym_any<int>("d"));
        for (unsigned i = 0; i < m; i++) b[i] = Twin(amsym_any<int>("k"), amsym_any<int>("d"));
        for (unsigned i = 0; i < n && i < m; i++) if (a[i].key != b[i].key) eq = false;
        CHECKM((a == b) == eq && (b == a) == eq && (a != b) == !eq, "equality compares element by element");
        ke::FixedArray<Twin> c(b);
        c = a;
        CHECK(c.size() == n);
        for (unsigned i = 0; i < n; i++) CHECKM(c[i].is(a[i].key, a[i].data), "assignment copies the values themselves");
        ke::FixedArray<double> x(2), y(2);
        uint64_t u = amsym_any<uint64_t>("u"), v = amsym_any<uint64_t>("v");
        memcpy(&x[1], &u, 8);
        memcpy(&y[1], &v, 8);
        CHECKM((x == y) == (x[1] == y[1]), "floating-point elements compare as numbers");
        CHECKM((x == x) == (x[1] == x[1]), "an array holding a NaN differs from itself");
        struct Gap { char c; int i; bool operator!=(const Gap& o) const { return c != o.c || i != o.i; } bool operator==(const Gap& o) const { return !(*this != o); } };
        ke::FixedArray<Gap> g(1), h(1);
        memset((void*)&g[0], 1, sizeof(Gap));
        memset((void*)&h[0], 2, sizeof(Gap));
        g[0].c = h[0].c = 7;
        g[0].i = h[0].i = (int)u;
        CHECKM(g == h, "padding takes no part in a comparison");
    }
    amsym_check_leaks();
    COVER("end");
}
// Longer arrays: every length class up to a few hundred.
ENTRY(longer) {
    static const unsigned len[] = {1, 7, 8, 9, 16, 31, 32, 33, 64, 65, 128, 257};
    Leaks l;
    {
        unsigned n = len[amsym_choice(12, "n")], m = amsym_bool("same") ? n : len[amsym_choice(12, "m")];
        Arr a(n), b(m);
        CHECK(a.size() == n && Tracked::live() == n + m);
        for (unsigned i = 0; i < n; i++) CHECK(a[i].get() == -1);
        unsigned at = amsym_choice(3, "at");
        at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
        int x = amsym_any<int>("x");
        for (unsigned i = 0; i < n; i++) a[i] = Tracked((int)i);
        a[at] = Tracked(x);
        bool alike = n == m && n == 1 && x == -1;
        CHECK((a == b) == alike && (a != b) == !alike);
        switch (amsym_choice(3, "how")) {
        case 0: b = a; CHECK((a == b) && !(a != b) && Tracked::live() == 2 * n); b[at] = Tracked(~x); CHECKM(a != b && !(a == b), "a difference anywhere counts"); b[at] = Tracked(x); COVER("copy"); break;
        case 1: b = std::move(a); CHECK(a.empty() && Tracked::live() == n); COVER("move"); break;
        default: { Arr c(a); b = std::move(c); CHECK(c.empty() && a == b && Tracked::live() == 2 * n); COVER("through"); }
        }
        CHECK(b.size() == n);
        for (unsigned i = 0; i < n; i++) CHECK(b[i].get() == (i == at ? x : (int)i));
    }
    COVER("end");
}
// More elements than 16 bits count.
ENTRY(huge) {
    amsym_mark_heap();
    {
        size_t n = (size_t)amsym_param("elements", 66000);
        uint16_t x = amsym_any<uint16_t>("x");
        typedef ke::FixedArray<uint16_t> Shorts;
        Shorts a(n);
        CHECK(a.size() == n && a[n - 1] == 0 && a[65536] == 0);
        for (size_t i = 0; i < n; i++) a[i] = (uint16_t)(i * 3);
        a[65540] = x;
        Shorts b;
        switch (amsym_choice(4, "how")) {
        case 0: { Shorts c(a); b = std::move(c); COVER("copy"); break; }
        case 1: b = a; COVER("assign"); break;
        case 2: { std::vector<uint16_t> v(a.begin(), a.end()); Shorts c(v); b = c; COVER("vector"); break; }
        default: { std::vector<uint16_t> v(a.begin(), a.end()); Shorts c(std::move(v)); b = c; COVER("moved vector"); }
        }
        CHECK(b.size() == n && a == b && !(a != b));
        for (size_t i = 0; i < n; i++) CHECK(b[i] == (i == 65540 ? x : (uint16_t)(i * 3)));
        b[65540] = (uint16_t)~x;
        CHECK(a != b && a[65540] == x);
        CHECK(b.back() == (uint16_t)((n - 1) * 3) && b.end() - b.begin() == (ptrdiff_t)n);
    }
    {
        Tracked::reset();
        size_t n = 65600;
        {
            Arr a(n);
            CHECK(Tracked::live() == n);
            if (amsym_bool("assigned")) {
                Arr b(2);
                a = b;
                CHECKM(Tracked::live() == 4 && a.size() == 2, "the elements replaced are destroyed");
                COVER("assigned");
            } else {
                a = Arr(1);
                CHECKM(Tracked::live() == 1 && a.size() == 1, "the elements replaced are destroyed");
                COVER("moved");
            }
        }
        CHECK(Tracked::live() == 0);
    }
    amsym_check_leaks();
    COVER("end");
}
