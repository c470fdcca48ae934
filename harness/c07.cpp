#include "amsym.h"
#include "live.h"
#include <stdlib.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-fixedarray.h>
// An allocator policy that refuses chosen requests, and remembers what was asked of it.
struct Heap {
    uint32_t refuse = 0;         // bit n: refuse the n-th request
    unsigned requests = 0, refused = 0, overflows = 0, frees = 0;
    size_t last = 0;             // size of the last request
    size_t most = 1 << 16;       // larger requests are refused
};
struct FailPolicy {
    Heap* h;
    FailPolicy(Heap* h = nullptr) : h(h) {}
    void reportOutOfMemory() {}
    void reportAllocationOverflow() { h->overflows++; }
    void* am_malloc(size_t n) {
        unsigned i = h->requests++;
        h->last = n;
        if (n > h->most || (i < 32 && (h->refuse >> i & 1))) { h->refused++; return nullptr; }
        return malloc(n);
    }
    void am_free(void* p) { if (p) h->frees++; free(p); }
};
static uint32_t gHash[64];
struct Policy {
    static uint32_t hash(int k) { return gHash[k]; }
    static uint32_t hash(const Tracked& k) { return gHash[k.get()]; }
    static bool matches(int a, const Tracked& b) { return a == b.get(); }
    static bool matches(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
};
typedef ke::HashMap<Tracked, Tracked, Policy, FailPolicy> Map;
typedef ke::HashSet<Tracked, Policy, FailPolicy> Set;
struct TablePolicy {
    typedef Tracked Payload;
    static uint32_t hash(int k) { return gHash[k]; }
    static bool matches(int a, const Tracked& b) { return a == b.get(); }
};
typedef ke::HashTable<TablePolicy, FailPolicy> Table;
static void setupHashes() {
    int family = amsym_choice(2, "family");
    for (uint32_t k = 0; k < 64; k++) gHash[k] = family == 0 ? k * 0x144cbc89u : k & 1;
}
// Any subset of the requests made by a history with two growths and a shrink is refused.
ENTRY(map_refused) {
    setupHashes();
    Tracked::reset();
    amsym_mark_heap();
    Heap heap;
    heap.refuse = amsym_any<uint32_t>("refuse") & 31;
    int off = amsym_any<int>("off");
    amsym_assume(off >= 0 && off < 1000000);
    {
        FailPolicy fp(&heap);
        Map map(fp);
        unsigned before = heap.refused;
        bool ok = map.init();
        CHECK(ok == (heap.refused == before));
        CHECK(map.elements() == 0);
        if (!ok) {
            COVER("init refused");
            CHECK(map.estimateMemoryUse() == 0);
            CHECK(map.iter().empty());
            map.clear();
            if (amsym_bool("moved")) { Map other(std::move(map)); CHECK(other.elements() == 0); return; }
            if (amsym_bool("leave")) return;
            before = heap.refused;
            ok = map.init();
            CHECK(ok == (heap.refused == before));
            if (!ok) return;
        }
        bool present[64] = {};
        unsigned n = 14 + amsym_choice(2, "n") * 12;
        for (int k = 0; k < (int)n; k++) {
            Map::Insert p = map.findForAdd(k);
            CHECK(!p.found());
            before = heap.refused;
            size_t mem = map.estimateMemoryUse();
            bool added = map.add(p, Tracked(k), Tracked(k + off));
            CHECK(added == (heap.refused == before));
            if (added) CHECK(p->value.get() == k + off);
            else { CHECK(map.estimateMemoryUse() == mem); COVER("growth refused"); }
            present[k] = added;
        }
        if (amsym_bool("drop")) {
            if (amsym_bool("clear")) { map.clear(); for (auto& b : present) b = false; }
            for (int k = 4; k < (int)n; k++) {
                map.removeIfExists(k);
                present[k] = false;
            }
            for (int k = 50; k < 54; k++) {
                Map::Insert p = map.findForAdd(k);
                before = heap.refused;
                present[k] = map.add(p, Tracked(k), Tracked(k + off));
                CHECK(present[k] == (heap.refused == before));
                if (!present[k]) COVER("shrink refused");
            }
        }
        unsigned count = 0;
        for (int k = 0; k < 64; k++) {
            CHECK(map.find(k).found() == present[k]);
            if (present[k]) { count++; CHECK(map.find(k)->value.get() == k + off); }
        }
        CHECK(map.elements() == count);
        CHECK(Tracked::live() == 2 * count);
        unsigned seen = 0;
        for (auto i = map.iter(); !i.empty(); i.next()) { seen++; CHECK(i->value.get() == i->key.get() + off); }
        CHECK(seen == count);
        CHECK(map.allocPolicy().h == &heap);
        COVER("end");
    }
    CHECK(heap.overflows == 0);
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
}
ENTRY(set_refused) {
    setupHashes();
    Tracked::reset();
    amsym_mark_heap();
    Heap heap;
    heap.refuse = amsym_any<uint32_t>("refuse") & 7;
    {
        FailPolicy fp(&heap);
        Set set(fp);
        CHECK(set.allocPolicy().h == &heap);
        if (!set.init(32)) { CHECK(set.elements() == 0 && heap.refused == 1); COVER("init refused"); return; }
        unsigned count = 0;
        bool present[64] = {};
        for (int k = 0; k < 27; k++) {
            unsigned before = heap.refused;
            if (k & 1) set.add(Tracked(k));
            else { Set::Insert p = set.findForAdd(k); bool ok = set.add(p); if (ok) *p = Tracked(k); CHECK(ok == (heap.refused == before)); }
            present[k] = heap.refused == before;
            count += present[k];
            CHECK(set.elements() == count);
        }
        for (int k = 0; k < 27; k++) CHECK(set.has(k) == present[k]);
        CHECK(Tracked::live() == count);
        if (count < 27) COVER("growth refused");
        COVER("end");
    }
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
}
// Every capacity: above the container's limit it is refused and reported; otherwise the policy decides,
// and is asked for enough to hold that many entries.
ENTRY(init_capacity) {
    Heap heap;
    bool pow2 = amsym_bool("pow2");
    size_t cap;
    if (pow2) cap = (size_t)1 << amsym_range(0, 64, "bit");
    else { cap = amsym_any<size_t>("cap"); amsym_assume(cap > INT32_MAX); }
    heap.most = 4096;
    {
        FailPolicy fp(&heap);
        Table t(fp);
        bool ok = t.init(cap);
        CHECK(ok == (heap.requests == 1 && heap.refused == 0));
        CHECK(heap.requests + heap.overflows == 1);
        if (heap.requests) {
            CHECK(heap.last / sizeof(Tracked) >= cap);        // never less than asked for
            CHECK(heap.overflows == 0);
        }
        if (cap > INT32_MAX) CHECK(heap.overflows == 1);
        if (!pow2) CHECK(!ok);
        CHECK(t.elements() == 0);
        if (ok) {
            CHECK(t.estimateMemoryUse() == heap.last);
            Table::Insert p = t.findForAdd(5);
            CHECK(!p.found() && t.add(p, Tracked(5)) && t.find(5).found());
            COVER("ok");
        } else {
            CHECK(t.estimateMemoryUse() == 0);
            Table::iterator it(&t);
            CHECK(it.empty());
            t.clear();
            heap.most = 65536;
            if (amsym_bool("retry")) {
                CHECK(t.init());
                Table::Insert p = t.findForAdd(5);
                CHECK(!p.found() && t.add(p, Tracked(5)) && t.elements() == 1);
                COVER("retry");
            }
        }
    }
    amsym_check_leaks();
    COVER("end");
}
// Fixed arrays: every element count.
template <typename T> struct Arr { typedef ke::FixedArray<T, FailPolicy> type; };
template <typename T> static void arrayAnySize(size_t size, bool small) {
    Heap heap;
    heap.most = small ? 4096 : 0;      // with 0, every request is refused, and only its size matters
    heap.refuse = small ? 0 : 1;
    {
        FailPolicy fp(&heap);
        typename Arr<T>::type a(size, fp);
        bool fits = size <= (size_t)-1 / sizeof(T);
        CHECK(heap.overflows == (fits ? 0 : 1));
        CHECK(heap.requests == (fits ? 1 : 0));
        if (fits) CHECK(heap.last / sizeof(T) >= size && heap.last >= size);
        bool ok = fits && heap.refused == 0;
        CHECK(a.initialize() == ok);
        CHECK(a.size() == (ok ? size : 0));
        CHECK(a.empty() == (a.size() == 0));
        if (!ok) { CHECK(a.begin() == a.end()); }
        else { unsigned n = 0; for (auto& e : a) { e = T(n); n++; } CHECK(n == size); }
    }
    CHECK(heap.frees == heap.requests - heap.refused);
}
struct Big { char x[24]; Big(unsigned = 0) {} };
struct Huge { char x[1 << 12]; Huge(unsigned = 0) {} };
ENTRY(array_any_size) {
    size_t n = amsym_any<size_t>("n");
    switch (amsym_choice(4, "type")) {
    case 0: arrayAnySize<uint8_t>(n, false); COVER("1"); break;
    case 1: arrayAnySize<uint64_t>(n, false); COVER("8"); break;
    case 2: arrayAnySize<Big>(n, false); COVER("24"); break;
    default: arrayAnySize<Huge>(n, false); COVER("4096");
    }
}
ENTRY(array_small) {
    amsym_mark_heap();
    size_t n = amsym_choice(5, "n");
    if (amsym_bool("u8")) arrayAnySize<uint8_t>(n, true); else arrayAnySize<uint64_t>(n, true);
    amsym_check_leaks();
    COVER("end");
}
// Copies and assignments whose allocations may be refused leave what was there.
ENTRY(array_refused) {
    Tracked::reset();
    amsym_mark_heap();
    Heap heap;
    heap.refuse = amsym_any<uint32_t>("refuse") & 31;
    int off = amsym_any<int>("off");
    amsym_assume(off >= 0 && off < 1000000);
    {
        typedef ke::FixedArray<Tracked, FailPolicy> A;
        FailPolicy fp(&heap);
        size_t na = amsym_choice(3, "na"), nb = amsym_choice(3, "nb");
        A a(na, fp);
        bool oka = !(heap.refuse & 1);
        CHECK(a.initialize() == oka && a.size() == (oka ? na : 0));
        A b(nb, fp);
        bool okb = !(heap.refuse & 2);
        CHECK(b.initialize() == okb && b.size() == (okb ? nb : 0));
        for (size_t i = 0; i < a.size(); i++) a[i] = Tracked(off + (int)i);
        for (size_t i = 0; i < b.size(); i++) b[i] = Tracked(off + 100 + (int)i);
        size_t sa = a.size(), sb = b.size();
        unsigned before = heap.refused;
        if (amsym_bool("assign")) {
            b = a;
            bool ok = heap.refused == before;
            CHECK(b.initialize() == ok);
            CHECK(b.size() == (ok ? sa : sb));
            for (size_t i = 0; i < b.size(); i++) CHECK(b[i].get() == off + (ok ? 0 : 100) + (int)i);
            if (!ok) COVER("assign refused");
            // The failure is not sticky: a later success is reported as such.
            before = heap.refused;
            b = a;
            ok = heap.refused == before;
            CHECK(b.initialize() == ok);
            if (ok) CHECK(b == a);
        } else {
            A c(a);
            bool ok = heap.refused == before;
            CHECK(c.initialize() == ok && c.size() == (ok ? sa : 0));
            if (ok) CHECK(c == a);
            else COVER("copy refused");
            A d(std::move(c));
            CHECK(d.size() == (ok ? sa : 0) && c.size() == 0);
            CHECK(d.initialize() == ok);
        }
        CHECK(a.size() == sa);
        for (size_t i = 0; i < sa; i++) CHECK(a[i].get() == off + (int)i);
        COVER("end");
    }
    CHECK(heap.frees == heap.requests - heap.refused);
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
}
