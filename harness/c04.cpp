#include "amsym.h"
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
// The hash function is arbitrary: every key's hash is a symbolic 32-bit word. To keep probing paths
// few, the home slot of each hash in a 16-entry table is confined to two adjacent slots around the
// wrap-around, so collisions and overlapping probe runs are the common case. The symbolic word is the
// scrambled hash the table is expected to work with; this only steers, it assumes nothing.
static const unsigned K = 5;
static uint32_t gHash[K];
static const uint32_t kScramble = 0x9E3779B9;
static uint32_t unscramble(uint32_t h) {
    uint32_t inv = kScramble;   // inverse modulo 2^32
    for (int i = 0; i < 5; i++) inv *= 2 - kScramble * inv;
    return h * inv;
}
static void setupHashes(unsigned n) {
    for (unsigned k = 0; k < n; k++) {
        uint32_t h = amsym_any<uint32_t>("hash");
        amsym_assume((h & 15) == 15 || (h & 15) == 0);
        gHash[k] = unscramble(h);
    }
}
struct Policy {
    static uint32_t hash(const uint32_t& k) { return gHash[k]; }
    static bool matches(const uint32_t& a, const uint32_t& b) { return a == b; }
};
typedef ke::HashMap<uint32_t, uint32_t, Policy> Map;
typedef ke::HashSet<uint32_t, Policy> Set;
struct TablePolicy {
    typedef uint32_t Payload;
    static uint32_t hash(const uint32_t& k) { return gHash[k]; }
    static bool matches(const uint32_t& a, const uint32_t& b) { return a == b; }
};
typedef ke::HashTable<TablePolicy> Table;

struct Model {
    bool present[K] = {};
    uint32_t val[K] = {};
    unsigned used = 0;   // keys seen so far; keys are interchangeable, so a new one is always the next
    unsigned nkeys;
    explicit Model(unsigned n) : nkeys(n) {}
    unsigned count() const { unsigned c = 0; for (unsigned k = 0; k < nkeys; k++) c += present[k]; return c; }
    uint32_t anyKey() {
        unsigned n = used < nkeys ? used + 1 : nkeys;
        uint32_t k = n == 1 ? 0 : amsym_choice(n, "key");
        if (k == used) used++;
        return k;
    }
};
static void checkMap(Map& map, const Model& m) {
    const Map& cmap = map;
    CHECK(map.elements() == m.count());
    for (uint32_t k = 0; k < m.nkeys; k++) {
        Map::Result r = cmap.find(k);
        CHECK(r.found() == m.present[k]);
        if (r.found()) { CHECK(r->key == k); CHECK(r->value == m.val[k]); CHECK((*r).value == m.val[k]); }
    }
    unsigned seen[K] = {};
    unsigned n = 0;
    for (Map::iterator i = map.iter(); !i.empty(); i.next()) {
        uint32_t k = i->key;
        CHECK(k < m.nkeys);
        seen[k]++;
        CHECK((*i).value == m.val[k]);
        n++;
    }
    for (uint32_t k = 0; k < m.nkeys; k++) CHECK(seen[k] == (m.present[k] ? 1u : 0u));
    amsym_observe(n);
}
ENTRY(map_history) {
    unsigned nkeys = amsym_param("keys", 3);
    setupHashes(nkeys);
    Model m(nkeys);
    Map map;
    CHECK(map.init());
    unsigned ops = amsym_param("ops", 4);
    for (unsigned i = 0; i < ops; i++) {
        int op = i == 0 ? 0 : amsym_choice(5, "op");
        if (op == 0) {
            uint32_t k = m.anyKey();
            uint32_t v = amsym_any<uint32_t>("val");
            Map::Insert p = map.findForAdd(k);
            CHECK(p.found() == m.present[k]);
            if (p.found()) p->value = v;
            else {
                CHECK(map.add(p, k, v));
                CHECK(p->key == k);
                CHECK(p->value == v);
            }
            m.present[k] = true;
            m.val[k] = v;
            COVER("insert");
        } else if (op == 1) {
            uint32_t k = m.anyKey();
            map.removeIfExists(k);
            m.present[k] = false;
            COVER("remove");
        } else if (op == 2) {
            uint32_t k = m.anyKey();
            Map::Result r = map.find(k);
            CHECK(r.found() == m.present[k]);
            if (!r.found()) return;
            map.remove(r);
            m.present[k] = false;
            COVER("remove by result");
        } else if (op == 3) {
            map.clear();
            for (unsigned k = 0; k < nkeys; k++) m.present[k] = false;
            COVER("clear");
        } else {
            // Erase one key through an iterator, in the middle of a traversal.
            uint32_t victim = m.anyKey();
            unsigned n = 0;
            unsigned before = m.count();
            for (Map::iterator it = map.iter(); !it.empty(); it.next()) {
                n++;
                if (it->key == victim) it.erase();
            }
            CHECK(n == before);
            m.present[victim] = false;
            COVER("erase");
        }
        CHECK(map.elements() == m.count());
    }
    checkMap(map, m);
    COVER("end");
}
// The other ways to insert: default value, default everything, and the set's conveniences.
ENTRY(map_adders) {
    setupHashes(2);
    Map map;
    CHECK(map.init(16));
    Model m(2);
    for (uint32_t k = 0; k < 2; k++) {
        Map::Insert p = map.findForAdd(k);
        CHECK(!p.found());
        switch (amsym_choice(3, "how")) {
        case 0: CHECK(map.add(p, k)); m.val[k] = 0; COVER("key"); break;
        case 1: CHECK(map.add(p)); p->key = k; p->value = m.val[k] = amsym_any<uint32_t>("v"); COVER("bare"); break;
        default: CHECK(map.add(p, k, m.val[k] = amsym_any<uint32_t>("v"))); COVER("both");
        }
        m.present[k] = true;
    }
    checkMap(map, m);
    Map moved(std::move(map));
    checkMap(moved, m);
    CHECK(map.elements() == 0);
    COVER("end");
}
ENTRY(set_history) {
    unsigned nkeys = amsym_param("keys", 3);
    setupHashes(nkeys);
    Model m(nkeys);
    Set set;
    CHECK(set.init());
    unsigned ops = amsym_param("ops", 4);
    for (unsigned i = 0; i < ops; i++) {
        int op = i == 0 ? 0 : amsym_choice(5, "op");
        uint32_t k = op == 4 ? 0 : m.anyKey();
        if (op == 0) { set.add(k); m.present[k] = true; COVER("add"); }
        else if (op == 1) {
            Set::Insert p = set.findForAdd(k);
            CHECK(p.found() == m.present[k]);
            if (p.found()) return;
            CHECK(set.add(p, k));
            CHECK(*p == k);
            m.present[k] = true;
            COVER("add by insert");
        }
        else if (op == 2) { set.removeIfExists(k); m.present[k] = false; COVER("remove"); }
        else if (op == 3) {
            Set::Result r = set.find(k);
            CHECK(r.found() == m.present[k]);
            if (!r.found()) return;
            set.remove(r);
            m.present[k] = false;
            COVER("remove by result");
        }
        else { set.clear(); for (auto& b : m.present) b = false; COVER("clear"); }
    }
    CHECK(set.elements() == m.count());
    unsigned seen[K] = {};
    for (Set::iterator i = set.iter(); !i.empty(); i.next()) { CHECK(*i < nkeys); seen[*i]++; }
    for (uint32_t k = 0; k < nkeys; k++) {
        CHECK(set.has(k) == m.present[k]);
        CHECK(set.find(k).found() == m.present[k]);
        CHECK(seen[k] == (m.present[k] ? 1u : 0u));
    }
    COVER("end");
}
// Every hash value, with no restriction on the home slot: one key, then a second that must not disturb it.
ENTRY(any_hash) {
    gHash[0] = unscramble(amsym_any<uint32_t>("h0"));
    gHash[1] = unscramble(amsym_any<uint32_t>("h1"));
    Table t;
    CHECK(t.init());
    uint32_t a = 0, b = 1;
    CHECK(!t.find(a).found());
    Table::Insert p = t.findForAdd(a);
    CHECK(!p.found());
    CHECK(t.add(p, a));
    CHECK(t.find(a).found());
    CHECK(!t.find(b).found());
    if (amsym_bool("both")) {
        p = t.findForAdd(b);
        CHECK(!p.found());
        CHECK(t.add(p));
        *p = b;
        CHECK(t.find(b).found() && *t.find(b) == b);
        CHECK(t.elements() == 2);
        COVER("two");
    }
    t.removeIfExists(a);
    CHECK(!t.find(a).found());
    COVER("end");
}
// Hashes the table reserves for its own markers, and their images.
ENTRY(reserved_hash) {
    Model m(3);
    for (unsigned k = 0; k < 3; k++) gHash[k] = unscramble(amsym_choice(4, "scrambled"));
    Map map;
    CHECK(map.init());
    for (unsigned i = 0; i < 4; i++) {
        uint32_t k = m.anyKey();
        if (i == 0 || amsym_bool("insert")) {
            uint32_t v = amsym_any<uint32_t>("v");
            Map::Insert p = map.findForAdd(k);
            CHECK(p.found() == m.present[k]);
            if (p.found()) p->value = v; else CHECK(map.add(p, k, v));
            m.present[k] = true; m.val[k] = v;
        } else { map.removeIfExists(k); m.present[k] = false; }
    }
    checkMap(map, m);
    COVER("end");
}

// Longer histories from a chain: keys that share one probe run, some of them removed again, then free operations.
ENTRY(chains) {
    unsigned nkeys = amsym_param("chain", 4);
    int shape = amsym_choice(3, "shape");
    uint32_t top = amsym_any<uint32_t>("hash");
    for (unsigned k = 0; k < nkeys; k++) {
        // All in one slot, alternating between the last and the first, or ascending across the wrap-around.
        unsigned slot = shape == 0 ? 15 : shape == 1 ? (k & 1 ? 0 : 15) : (14 + k) & 15;
        gHash[k] = unscramble(((top + k * 0x100) & ~15u) | slot);
    }
    Model m(nkeys);
    Map map;
    CHECK(map.init());
    for (uint32_t k = 0; k < nkeys - 1; k++) {
        Map::Insert p = map.findForAdd(k);
        CHECK(!p.found());
        CHECK(map.add(p, k, m.val[k] = amsym_any<uint32_t>("val")));
        m.present[k] = true;
    }
    bool byIter = amsym_bool("by iterator");
    for (uint32_t k = 0; k < nkeys - 1; k++) {
        if (!amsym_bool("removed")) continue;
        m.present[k] = false;
        if (!byIter) map.removeIfExists(k);
    }
    if (byIter)
        for (Map::iterator it = map.iter(); !it.empty(); it.next())
            if (!m.present[it->key]) it.erase();
    unsigned ops = amsym_param("cops", 2);
    for (unsigned i = 0; i < ops; i++) {
        uint32_t k = amsym_choice(nkeys, "key");
        switch (amsym_choice(3, "op")) {
        case 0: {
            uint32_t v = amsym_any<uint32_t>("val");
            Map::Insert p = map.findForAdd(k);
            CHECKM(p.found() == m.present[k], "a key to be added is found exactly when it is present");
            if (p.found()) p->value = v;
            else CHECK(map.add(p, k, v));
            m.present[k] = true;
            m.val[k] = v;
            COVER("insert");
            break;
        }
        case 1:
            map.removeIfExists(k);
            m.present[k] = false;
            COVER("remove");
            break;
        default:
            for (Map::iterator it = map.iter(); !it.empty(); it.next())
                if (it->key == k) it.erase();
            m.present[k] = false;
            COVER("erase");
        }
        checkMap(map, m);
    }
    COVER("end");
}
