#include "amsym.h"
#include "live.h"
#include <stdlib.h>
#include <memory>
#include <utility>
#include <amtl/am-vector.h>
#include <amtl/am-deque.h>
// A sequence of up to M elements with arbitrary values; ref is what it should hold.
static const unsigned M = 5;
typedef std::vector<Tracked> Vec;
struct Ref {
    int v[3 * M];
    unsigned n = 0;
    void push(int x) { v[n++] = x; }
    void insert(unsigned at, int x) { for (unsigned i = n; i > at; i--) v[i] = v[i - 1]; v[at] = x; n++; }
    void erase(unsigned at) { for (unsigned i = at; i + 1 < n; i++) v[i] = v[i + 1]; n--; }
};
template <typename C> static void same(const C& c, const Ref& r) {
    CHECK(c.size() == r.n);
    unsigned i = 0;
    for (auto& e : c) { CHECKM(e.get() == r.v[i], "the sequence holds exactly the expected values in order"); i++; }
}
static void fill(Vec& v, Ref& r, unsigned max, const char* name) {
    unsigned n = amsym_choice(max + 1, name);
    if (amsym_bool("spare")) v.reserve(n + 2);
    for (unsigned i = 0; i < n; i++) { int x = amsym_any<int>("elem"); v.emplace_back(x); r.push(x); }
}
struct Leaks {
    Leaks() { Tracked::reset(); amsym_mark_heap(); }
    ~Leaks() { CHECKM(Tracked::live() == 0, "every element is destroyed once"); amsym_check_leaks(); }
};
// Plain element types, for which the library takes other paths, and longer sequences.
template <typename T, typename Make> static void helpers(Make make) {
    static const unsigned len[] = {1, 2, 3, 8, 15, 16, 17, 33, 64, 100};
    unsigned n = len[amsym_choice(10, "n")];
    std::vector<T> v, want;
    bool spare = amsym_bool("spare");
    if (spare) v.reserve(n + 40);
    for (unsigned i = 0; i < n; i++) v.push_back(make(i));
    want = v;
    auto same = [&] { CHECK(v.size() == want.size()); for (unsigned i = 0; i < v.size(); i++) CHECKM(v[i] == want[i], "the sequence holds exactly the expected values in order"); };
    unsigned at = amsym_choice(3, "at");
    at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
    switch (amsym_choice(7, "op")) {
    case 0: { T x = make(1000); ke::InsertAt(&v, at, static_cast<const T&>(x)); want.insert(want.begin() + at, x); COVER("insert"); break; }
    case 1: { T x = v[n - 1 - at]; ke::InsertAt(&v, at, T(x)); want.insert(want.begin() + at, x); COVER("insert rvalue"); break; }
    case 2: { T x = make(1001); ke::EmplaceAt(&v, at, x); want.insert(want.begin() + at, x); COVER("emplace"); break; }
    case 3: ke::RemoveAt(&v, at); want.erase(want.begin() + at); COVER("remove"); break;
    case 4: { T x = ke::PopBack(&v); CHECK(x == T(want.back())); want.pop_back(); COVER("pop"); break; }
    case 5: {
        T x = v[at];
        want.clear();
        for (unsigned i = 0; i < n; i++) if (!(v[i] == x)) want.push_back(v[i]);
        ke::EraseIf(&v, [x](T e) { return e == x; });
        COVER("erase if");
        break;
    }
    default: {
        std::vector<T> s;
        unsigned m = len[amsym_choice(10, "m")];
        if (amsym_bool("room")) s.reserve(m + n);
        for (unsigned i = 0; i < m; i++) { s.push_back(make(2000 + i)); want.push_back(s.back()); }
        ke::MoveExtend(&v, &s);
        CHECKM(s.empty(), "the source is left empty");
        COVER("extend");
    }
    }
    same();
}
ENTRY(insert_at) {
    Leaks l;
    Vec v; Ref r;
    fill(v, r, M, "n");
    unsigned at = amsym_choice(r.n + 1, "at");
    int x = amsym_any<int>("x");
    switch (amsym_choice(5, "how")) {
    case 0: { const Tracked t(x); ke::InsertAt(&v, at, t); CHECK(t.get() == x); COVER("copy"); break; }
    case 1: { int c = Tracked::ncopies(); ke::InsertAt(&v, at, Tracked(x)); CHECKM(Tracked::ncopies() == c, "an rvalue is moved in"); COVER("move"); break; }
    case 2: { ke::EmplaceAt(&v, at, x); COVER("emplace"); break; }
    case 3:
        if (!r.n) return;
        { unsigned j = amsym_choice(r.n, "own"); x = r.v[j]; ke::InsertAt(&v, at, static_cast<const Tracked&>(v[j])); COVER("own element"); }
        break;
    default: ke::EmplaceAt(&v, at); x = -1; COVER("emplace nothing");
    }
    r.insert(at, x);
    same(v, r);
    COVER("end");
}
ENTRY(remove_at) {
    Leaks l;
    Vec v; Ref r;
    fill(v, r, M, "n");
    if (!r.n) return;
    if (amsym_bool("back")) {
        int c = Tracked::ncopies();
        Tracked t = ke::PopBack(&v);
        CHECK(t.get() == r.v[r.n - 1] && Tracked::ncopies() == c);
        r.erase(r.n - 1);
        COVER("pop back");
    } else {
        unsigned at = amsym_choice(r.n, "at");
        ke::RemoveAt(&v, at);
        r.erase(at);
        COVER("remove");
    }
    same(v, r);
}
ENTRY(erase_if) {
    Leaks l;
    Vec v; Ref r;
    fill(v, r, M, "n");
    int pivot = amsym_any<int>("pivot");
    Ref want;
    for (unsigned i = 0; i < r.n; i++) if (!(r.v[i] > pivot)) want.push(r.v[i]);
    ke::EraseIf(&v, [&](const Tracked& t) { return t.get() > pivot; });
    same(v, want);
    COVER("end");
}
ENTRY(move_extend) {
    Leaks l;
    Vec a, b; Ref r, rb;
    fill(a, r, 3, "dest");
    fill(b, rb, 3, "src");
    int c = Tracked::ncopies();
    ke::MoveExtend(&a, &b);
    CHECKM(Tracked::ncopies() == c, "elements are moved, not copied");
    for (unsigned i = 0; i < rb.n; i++) r.push(rb.v[i]);
    same(a, r);
    CHECKM(b.empty(), "the source is left empty");
    ke::MoveExtend(&b, &a);
    same(b, r);
    CHECK(a.empty());
    b.emplace_back(7);
    a.emplace_back(8);
    r.push(7);
    same(b, r);
    COVER("end");
}
ENTRY(deque_ends) {
    Leaks l;
    std::deque<Tracked> d; Ref r;
    unsigned n = amsym_choice(M, "n") + 1;
    for (unsigned i = 0; i < n; i++) {
        int x = amsym_any<int>("elem");
        if (i & 1) { d.emplace_front(x); r.insert(0, x); } else { d.emplace_back(x); r.push(x); }
    }
    while (r.n) {
        int c = Tracked::ncopies();
        if (amsym_bool("front")) { Tracked t = ke::PopFront(&d); CHECK(t.get() == r.v[0]); r.erase(0); COVER("front"); }
        else { Tracked t = ke::PopBack(&d); CHECK(t.get() == r.v[r.n - 1]); r.erase(r.n - 1); COVER("back"); }
        CHECK(Tracked::ncopies() == c);
        same(d, r);
    }
}
// Move-only and plain element types, several edits in a row.
ENTRY(edits) {
    amsym_mark_heap();
    {
        std::vector<std::unique_ptr<int>> v;
        Ref r;
        unsigned ops = amsym_param("ops", 4);
        for (unsigned k = 0; k < ops; k++) {
            int x = amsym_any<int>("x");
            switch (amsym_choice(6, "op")) {
            case 0: { unsigned at = amsym_choice(r.n + 1, "at"); ke::InsertAt(&v, at, std::unique_ptr<int>(new int(x))); r.insert(at, x); COVER("insert"); break; }
            case 1: { unsigned at = amsym_choice(r.n + 1, "at"); ke::EmplaceAt(&v, at, new int(x)); r.insert(at, x); COVER("emplace"); break; }
            case 2: { if (!r.n) return; unsigned at = amsym_choice(r.n, "at"); ke::RemoveAt(&v, at); r.erase(at); COVER("remove"); break; }
            case 3: { if (!r.n) return; auto p = ke::PopBack(&v); CHECK(p && *p == r.v[r.n - 1]); r.erase(r.n - 1); COVER("pop"); break; }
            case 4: {
                Ref w;
                for (unsigned i = 0; i < r.n; i++) if ((r.v[i] & 1) == 0) w.push(r.v[i]);
                ke::EraseIf(&v, [](const std::unique_ptr<int>& p) { return (*p & 1) != 0; });
                r = w;
                COVER("erase if");
                break;
            }
            default: {
                std::vector<std::unique_ptr<int>> s;
                s.emplace_back(new int(x));
                ke::MoveExtend(&v, &s);
                CHECK(s.empty());
                r.push(x);
                COVER("extend");
            }
            }
            CHECK(v.size() == r.n);
            for (unsigned i = 0; i < r.n; i++) CHECK(v[i] && *v[i] == r.v[i]);
        }
    }
    amsym_check_leaks();
    COVER("end");
}
ENTRY(plain_types) {
    amsym_mark_heap();
    int x = amsym_any<int>("x");
    switch (amsym_choice(3, "type")) {
    case 0: helpers<int>([x](unsigned i) { return i == 1 ? x : (int)(i * 7 % 64); }); COVER("int"); break;
    case 1: helpers<unsigned char>([](unsigned i) { return (unsigned char)(i * 5); }); COVER("byte"); break;
    default: helpers<uint64_t>([x](unsigned i) { return i == 2 ? (uint64_t)x << 16 : (uint64_t)i << 33; }); COVER("wide");
    }
    amsym_check_leaks();
}
// More elements than 16 bits count.
ENTRY(huge) {
    unsigned n = (unsigned)amsym_param("elements", 66000), at = amsym_bool("late") ? n - 2 : 300;
    int x = amsym_any<int>("x");
    std::vector<int> v;
    for (unsigned i = 0; i < n; i++) v.push_back((int)i);
    switch (amsym_choice(5, "op")) {
    case 0:
        ke::InsertAt(&v, at, x);
        CHECK(v.size() == n + 1 && v[at] == x);
        for (unsigned i = 0; i < n; i++) CHECK(v[i + (i >= at)] == (int)i);
        COVER("insert");
        break;
    case 1:
        ke::RemoveAt(&v, at);
        CHECK(v.size() == n - 1);
        for (unsigned i = 0; i + 1 < n; i++) CHECK(v[i] == (int)(i + (i >= at)));
        COVER("remove");
        break;
    case 2:
        v[at] = x;
        amsym_assume(x >= 0 && x % 4 == 1);
        ke::EraseIf(&v, [](int e) { return e % 4 == 1; });
        CHECK(v.size() == n - n / 4 - (at % 4 != 1));
        for (unsigned i = 0, k = 0; i < n; i++) if (i % 4 != 1 && i != at) { CHECK(v[k] == (int)i); k++; }
        COVER("erase if");
        break;
    case 3: {
        std::vector<int> s;
        bool few = amsym_bool("few");
        if (few) { s.push_back(x); ke::MoveExtend(&s, &v); CHECK(v.empty() && s.size() == n + 1 && s[0] == x && s[n] == (int)n - 1 && s[65537] == 65536); COVER("extend"); }
        else { s.push_back(x); ke::MoveExtend(&v, &s); CHECK(s.empty() && v.size() == n + 1 && v[0] == 0 && v[n] == x && v[n - 1] == (int)n - 1); COVER("extend by one"); }
        break;
    }
    default: {
        v[n - 1] = x;
        CHECK(ke::PopBack(&v) == x && v.size() == n - 1 && v.back() == (int)n - 2);
        std::deque<int> d(v.begin(), v.end());
        CHECK(ke::PopFront(&d) == 0 && ke::PopBack(&d) == (int)n - 2 && d.size() == n - 3 && d.front() == 1 && d.back() == (int)n - 3);
        COVER("ends");
    }
    }
    COVER("end");
}
