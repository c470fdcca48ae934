#include "amsym.h"
#include "live.h"
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
// Keys and values register themselves in a live set: constructing over a live object, destroying or
// using a dead one, or leaving one behind are all reported.
static const uint32_t kKeys = 320;
static uint32_t gHash[kKeys];
struct Key : Tracked { using Tracked::Tracked; };
struct Val : Tracked { using Tracked::Tracked; };
struct Policy {
    static uint32_t hash(const Key& k) { return gHash[k.get()]; }
    static uint32_t hash(int k) { return gHash[k]; }
    static bool matches(const Key& a, const Key& b) { return a.get() == b.get(); }
    static bool matches(int a, const Key& b) { return a == b.get(); }
};
typedef ke::HashMap<Key, Val, Policy> Map;
typedef ke::HashSet<Key, Policy> Set;
struct TablePolicy {
    typedef Key Payload;
    static uint32_t hash(int k) { return gHash[k]; }
    static bool matches(int a, const Key& b) { return a == b.get(); }
};
typedef ke::HashTable<TablePolicy> Table;

static void setupHashes() {
    int family = amsym_choice(3, "family");
    for (uint32_t k = 0; k < 64; k++)
        gHash[k] = family == 0 ? k * 0x144cbc89u /* spread */ : family == 1 ? 77u : k & 1;
}
static int nextKey(int& used, int nkeys) {
    int n = used < nkeys ? used + 1 : nkeys;
    int k = n == 1 ? 0 : amsym_choice(n, "key");
    if (k == used) used++;
    return k;
}
template <typename C> static unsigned countLive(C& c) {
    unsigned n = 0;
    for (auto i = c.iter(); !i.empty(); i.next()) n++;
    return n;
}
template <> unsigned countLive(Table& c) {
    unsigned n = 0;
    for (Table::iterator i(&c); !i.empty(); i.next()) n++;
    return n;
}
template <typename C> static void addKey(C& c, int k);
template <> void addKey(Set& s, int k) { s.add(Key(k)); }
template <> void addKey(Table& t, int k) {
    Table::Insert p = t.findForAdd(k);
    if (p.found()) return;
    if (k & 1) CHECK(t.add(p, Key(k)));
    else { CHECK(t.add(p)); *p = Key(k); }
}
// The same across growth, shrinking and rehashing.
template <typename C> static void resizeLifetime() {
    setupHashes();
    Tracked::reset();
    amsym_mark_heap();
    {
        C c;
        CHECK(c.init());
        int n = 12 + amsym_choice(5, "n");
        if (n == 16) n = 34;      // two growths, so that entries are alive while the table shrinks step by step
        for (int k = 0; k < n; k++) { addKey(c, k); CHECK(Tracked::live() == c.elements()); }
        CHECK(c.elements() == (unsigned)n);
        int keep = amsym_choice(3, "keep") * 4;
        for (int k = keep; k < n; k++) { c.removeIfExists(k); CHECK(Tracked::live() == c.elements()); }
        if (amsym_bool("clear")) { c.clear(); CHECK(Tracked::live() == 0 && c.elements() == 0); COVER("clear"); }
        int more = amsym_choice(3, "more") * 3;
        for (int k = 36; k < 36 + more; k++) { addKey(c, k); CHECK(Tracked::live() == c.elements()); }
        if (amsym_bool("moved")) {
            C d(std::move(c));
            CHECK(Tracked::live() == d.elements());
            CHECK(c.elements() == 0);
            for (int k = 50; k < 56; k++) { addKey(d, k); CHECK(Tracked::live() == d.elements()); }
            COVER("moved");
        }
        CHECK(Tracked::live() == countLive(c));
        COVER("end");
    }
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
}
ENTRY(map_lifetime) {
    for (uint32_t k = 0; k < 2; k++) {
        gHash[k] = amsym_any<uint32_t>("hash");
        amsym_assume(((gHash[k] * 0x9E3779B9u) & 15) == 15 || ((gHash[k] * 0x9E3779B9u) & 15) == 0);
    }
    int off = amsym_any<int>("off");      // the value stored with key k is off + k
    amsym_assume(off >= -1000000000 && off <= 1000000000);
    Tracked::reset();
    amsym_mark_heap();
    {
        Map map;
        CHECK(map.init());
        int used = 0, nkeys = 2;
        unsigned ops = amsym_param("ops", 4);
        for (unsigned i = 0; i < ops; i++) {
            switch (amsym_choice(8, "op")) {
            case 0: {
                int k = nextKey(used, nkeys);
                Map::Insert p = map.findForAdd(k);
                if (!p.found()) { CHECK(map.add(p, Key(k), Val(k + off))); CHECK(p->value.get() == k + off); }
                else p->value = Val(k + off);
                COVER("add");
                break;
            }
            case 1: {
                int k = nextKey(used, nkeys);
                Key key(k);
                Val val(k + off);
                Map::Insert p = map.findForAdd(key);
                if (!p.found()) CHECK(map.add(p, key, val));
                CHECK(key.get() == k && val.get() == k + off);
                COVER("add copy");
                break;
            }
            case 2: {
                int k = nextKey(used, nkeys);
                Map::Insert p = map.findForAdd(k);
                if (!p.found()) { CHECK(map.add(p)); p->key = Key(k); p->value = Val(k + off); }
                COVER("add bare");
                break;
            }
            case 3: {
                int k = nextKey(used, nkeys);
                Map::Insert p = map.findForAdd(k);
                if (!p.found()) { CHECK(map.add(p, Key(k))); p->value = Val(k + off); }
                COVER("add key");
                break;
            }
            case 4: map.removeIfExists(nextKey(used, nkeys)); COVER("remove"); break;
            case 5: map.clear(); COVER("clear"); break;
            case 6: {
                int odd = nextKey(used, nkeys);
                for (auto it = map.iter(); !it.empty(); it.next())
                    if (it->key.get() == odd) it.erase();
                COVER("erase");
                break;
            }
            default: {
                Map other(std::move(map));
                CHECK(map.elements() == 0);
                CHECK(countLive(map) == 0);
                if (amsym_bool("drop")) { CHECK(map.init()); break; }
                Map back(std::move(other));
                CHECK(countLive(back) == back.elements());
                CHECK(countLive(other) == 0);
                CHECK(map.init());
                COVER("move");
            }
            }
            // Every element is one key and one value, and nothing else is alive.
            CHECK(Tracked::live() == 2 * map.elements());
            for (auto it = map.iter(); !it.empty(); it.next()) CHECK(it->value.get() == it->key.get() + off);
        }
        COVER("end");
    }
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
}
ENTRY(set_resize) { resizeLifetime<Set>(); }
ENTRY(table_resize) { resizeLifetime<Table>(); }
// Elements of one byte, in maps, sets and raw tables.
struct SmallPolicy {
    typedef TrackedByte Payload;
    static uint32_t hash(const TrackedByte& k) { return k.get() & 1; }
    static uint32_t hash(int k) { return k & 1; }
    static bool matches(const TrackedByte& a, const TrackedByte& b) { return a.get() == b.get(); }
    static bool matches(int a, const TrackedByte& b) { return a == b.get(); }
};
template <typename C, int per, typename Add> static void smallLifetime(Add add) {
    TrackedByte::reset();
    amsym_mark_heap();
    {
        C c;
        CHECK(c.init());
        unsigned ops = amsym_param("sops", 4);
        for (unsigned i = 0; i < ops; i++) {
            int k = amsym_choice(2, "key");
            switch (i ? amsym_choice(5, "op") : 0) {
            case 0: add(c, k); break;
            case 1: c.removeIfExists(k); break;
            case 2: c.clear(); break;
            case 3: for (auto it = c.iter(); !it.empty(); it.next()) it.erase(); break;
            default: { C d(std::move(c)); CHECK(TrackedByte::live() == per * d.elements()); CHECK(c.init()); }
            }
            CHECKM(TrackedByte::live() == per * c.elements(), "exactly the elements are alive");
        }
    }
    CHECKM(TrackedByte::live() == 0, "nothing outlives the container");
    amsym_check_leaks();
}
ENTRY(small_elements) {
    typedef ke::HashMap<TrackedByte, TrackedByte, SmallPolicy> SMap;
    typedef ke::HashSet<TrackedByte, SmallPolicy> SSet;
    if (amsym_bool("map")) {
        smallLifetime<SMap, 2>([](SMap& m, int k) { auto p = m.findForAdd(k); if (!p.found()) CHECK(m.add(p, TrackedByte(k), TrackedByte(k))); });
        COVER("map");
    } else {
        smallLifetime<SSet, 1>([](SSet& s, int k) { s.add(TrackedByte(k)); });
        COVER("set");
    }
}
// Containers that were never initialised, or only moved about.
ENTRY(empty_containers) {
    Tracked::reset();
    amsym_mark_heap();
    {
        Map m;
        Set s;
        Table t;
        CHECK(m.elements() == 0 && s.elements() == 0 && t.elements() == 0);
        if (amsym_bool("init")) CHECK(m.init(32) && s.init() && t.init(64));
        m.clear(); s.clear(); t.clear();
        CHECK(m.iter().empty() && s.iter().empty() && countLive(m) == 0);
        Map m2(std::move(m));
        Set s2(std::move(s));
        Table t2(std::move(t));
        Table t3(std::move(t2));
        COVER("end");
    }
    amsym_check_leaks();
}
// A few hundred elements.
template <typename C> static int largeLifetime() {
    int what = 0;
    Tracked::reset();
    amsym_mark_heap();
    {
        C c;
        CHECK(c.init());
        int n = amsym_param("elements", 280);
        for (int k = 0; k < n; k++) addKey(c, k);
        CHECK(Tracked::live() == c.elements() && c.elements() == (unsigned)n);
        if (amsym_bool("moved")) { C d(std::move(c)); CHECK(Tracked::live() == d.elements() && countLive(d) == (unsigned)n); what = 1; }
        else if (amsym_bool("clear")) { c.clear(); CHECK(Tracked::live() == 0); what = 2; }
        else {
            for (int k = 0; k < n; k++) if (k % 20) c.removeIfExists(k);
            CHECK(Tracked::live() == c.elements());
            for (int k = 0; k < 12; k++) addKey(c, n + k);
            CHECK(Tracked::live() == c.elements() && countLive(c) == c.elements());
        }
    }
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
    return what;
}
ENTRY(large) {
    for (uint32_t k = 0; k < kKeys; k++) gHash[k] = k * 0x144cbc89u;
    int what;
    if (amsym_bool("set")) { what = largeLifetime<Set>(); COVER("set"); }
    else { what = largeLifetime<Table>(); COVER("table"); }
    if (what == 1) COVER("moved");
    else if (what == 2) COVER("clear");
    else COVER("removed");
}
