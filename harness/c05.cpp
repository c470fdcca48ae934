#include "amsym.h"
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
// Histories long enough to make the table grow, grow twice, shrink and drop removed entries. The hash
// of every key is given by a family: spread out, all in one bucket, all equal, a symbolic base with an
// odd stride, or (first keys) arbitrary words.
static const unsigned K = 700;
static uint32_t gHash[K];
static const uint32_t kScramble = 0x9E3779B9;
static uint32_t unscramble(uint32_t h) {
    uint32_t inv = kScramble;
    for (int i = 0; i < 5; i++) inv *= 2 - kScramble * inv;
    return h * inv;
}
static void setupHashes(int family, uint32_t keys = 120) {
    uint32_t base = 0;
    if (family == 3) {
        base = (amsym_any<uint32_t>("base") << 6) + (uint32_t)amsym_choice(3, "low") * 15;   // 0, 15, 30
    }
    for (uint32_t k = 0; k < keys; k++) {
        uint32_t h;
        switch (family) {
        case 0: h = 3 + k * 7; break;
        case 1: h = 14 + (k << 10); break;
        case 2: h = 31; break;
        case 3: h = base + k * 33; break;
        default: h = 40 + k;
        }
        if (family == 4 && k < 2) {
            h = amsym_any<uint32_t>("hash");
            amsym_assume((h & 15) >= 14 || (h & 15) == 0);
        }
        gHash[k] = unscramble(h);
    }
}
struct Policy {
    static uint32_t hash(const uint32_t& k) { return gHash[k]; }
    static bool matches(const uint32_t& a, const uint32_t& b) { return a == b; }
};
typedef ke::HashMap<uint32_t, uint32_t, Policy> Map;
struct Model {
    bool present[K] = {};
    uint32_t val[K] = {};
    unsigned live = 0, maxLive = 0, next = 0;
};
static size_t gSlot;   // bytes per table slot
static void checkSize(Map& map, const Model& m, size_t minCap) {
    size_t cap = map.estimateMemoryUse() / gSlot;
    size_t lim = 8 * (size_t)(m.maxLive + 1);
    if (lim < 2 * minCap) lim = 2 * minCap;
    CHECKM(cap <= lim, "memory use stays proportional to the entries");
}
static void insert(Map& map, Model& m, uint32_t k) {
    Map::Insert p = map.findForAdd(k);
    CHECK(p.found() == m.present[k]);
    uint32_t v = k * 77 + 5;
    if (k < 3) v = amsym_any<uint32_t>("v");
    if (p.found()) p->value = v;
    else {
        CHECK(map.add(p, k, v));
        CHECK(p->key == k && p->value == v);
        m.present[k] = true;
        m.live++;
        if (m.live > m.maxLive) m.maxLive = m.live;
    }
    m.val[k] = v;
}
static void remove(Map& map, Model& m, uint32_t k) {
    map.removeIfExists(k);
    if (m.present[k]) { m.present[k] = false; m.live--; }
}
static void checkMap(Map& map, const Model& m, unsigned n) {
    CHECK(map.elements() == m.live);
    for (uint32_t k = 0; k < n; k++) {
        Map::Result r = map.find(k);
        CHECK(r.found() == m.present[k]);
        if (r.found()) CHECK(r->key == k && r->value == m.val[k]);
    }
    unsigned seen[K] = {};
    for (Map::iterator i = map.iter(); !i.empty(); i.next()) {
        CHECK(i->key < n);
        CHECK(i->value == m.val[i->key]);
        seen[i->key]++;
    }
    for (uint32_t k = 0; k < n; k++) CHECK(seen[k] == (m.present[k] ? 1u : 0u));
}
// Fill past the growth threshold, remove some, fill again, remove through an iterator, fill again.
ENTRY(grow_shrink) {
    setupHashes(amsym_choice(amsym_param("families", 5), "family"));
    Map map;
    CHECK(map.init());
    gSlot = map.estimateMemoryUse() / 16;
    Model m;
    unsigned n1 = 12 + amsym_choice(amsym_param("firsts", 3), "first");   // growth happens at the 14th
    for (unsigned i = 0; i < n1; i++) insert(map, m, m.next++);
    checkMap(map, m, m.next);
    unsigned r1 = amsym_choice(5, "removed");
    static const unsigned kRem[] = {0, 1, 5, 9, 99};
    unsigned nrem = kRem[r1];
    for (unsigned i = 0; i < nrem && i < n1; i++) remove(map, m, i);
    unsigned n2 = 1 + amsym_choice(4, "second");
    for (unsigned i = 0; i < n2; i++) { insert(map, m, m.next++); checkSize(map, m, 16); }
    checkMap(map, m, m.next);
    // Re-insert removed keys: they must be absent, then present once.
    if (amsym_bool("again")) {
        for (unsigned i = 0; i < 3; i++) insert(map, m, i);
        COVER("again");
    } else {
        unsigned odd = amsym_choice(2, "odd");
        for (Map::iterator it = map.iter(); !it.empty(); it.next()) {
            uint32_t k = it->key;
            if ((k & 1) == odd) { it.erase(); CHECK(m.present[k]); m.present[k] = false; m.live--; }
        }
        for (unsigned i = 0; i < 3; i++) insert(map, m, m.next++);
        COVER("erase");
    }
    checkMap(map, m, m.next);
    checkSize(map, m, 16);
    COVER("end");
}
// Insert and remove ever new keys while a few stay: no operation may run forever or make the table creep up.
ENTRY(churn) {
    setupHashes(amsym_choice(4, "family"));
    Map map;
    unsigned minCap = amsym_bool("bigger") ? 32 : 16;
    CHECK(map.init(minCap));
    gSlot = map.estimateMemoryUse() / minCap;
    Model m;
    static const unsigned kStay[] = {0, 1, 3, 4, 7, 12};
    unsigned stay = kStay[amsym_choice(6, "stay")];
    for (unsigned i = 0; i < stay; i++) insert(map, m, m.next++);
    unsigned churn = amsym_param("churn", 50);
    bool late = amsym_bool("late");       // look up an absent key as well
    for (unsigned i = 0; i < churn; i++) {
        uint32_t k = m.next++;
        insert(map, m, k);
        remove(map, m, k);
        if (late) { CHECK(!map.find(k).found()); CHECK(!map.find((uint32_t)K - 1).found()); }
        checkSize(map, m, minCap);
    }
    checkMap(map, m, m.next);
    CHECK(map.estimateMemoryUse() / gSlot >= minCap);
    COVER("end");
}
// Grow to a large table, empty it, and use it again: memory follows the entries down.
ENTRY(up_and_down) {
    setupHashes(amsym_choice(4, "family"));
    Map map;
    CHECK(map.init());
    gSlot = map.estimateMemoryUse() / 16;
    Model m;
    unsigned n = 24 + amsym_choice(4, "n");
    for (unsigned i = 0; i < n; i++) insert(map, m, m.next++);
    checkMap(map, m, m.next);
    checkSize(map, m, 16);
    unsigned keep = amsym_choice(3, "keep") * 2;
    bool clear = keep == 0 && amsym_bool("clear");
    if (clear) {
        map.clear();
        for (auto& p : m.present) p = false;
        m.live = 0;
        COVER("clear");
    } else {
        for (unsigned i = keep; i < n; i++) remove(map, m, i);
    }
    checkMap(map, m, m.next);
    for (unsigned i = 0; i < 26; i++) {          // a long run of churn after the peak
        uint32_t k = m.next++;
        insert(map, m, k);
        remove(map, m, k);
    }
    checkMap(map, m, m.next);
    checkSize(map, m, 16);
    COVER("end");
}
// Every pair of hashes for two keys across a growth: the other entries are placed to force it.
ENTRY(grow_any_hash) {
    for (uint32_t k = 0; k < 80; k++) gHash[k] = unscramble(20 + k);
    uint32_t a = amsym_any<uint32_t>("a");
    uint32_t b = amsym_any<uint32_t>("b");
    unsigned lo = amsym_choice(2, "lo");
    amsym_assume((a & 15) == (lo ? 4 : 15) && (b & 15) == (lo ? 5 : 15));
    gHash[0] = unscramble(a);
    gHash[1] = unscramble(b);
    Map map;
    CHECK(map.init());
    gSlot = map.estimateMemoryUse() / 16;
    Model m;
    for (unsigned i = 0; i < 13; i++) insert(map, m, m.next++);
    if (amsym_bool("drop")) remove(map, m, 0);
    insert(map, m, m.next++);
    insert(map, m, m.next++);
    checkMap(map, m, m.next);
    COVER("end");
}
// Hundreds of entries: six growths, all of them found again, and the same way back down.
ENTRY(large) {
    int family = amsym_choice(3, "family");
    setupHashes(family, K);
    Map map;
    CHECK(map.init());
    gSlot = map.estimateMemoryUse() / 16;
    Model m;
    unsigned n = family == 1 || family == 2 ? 110 : amsym_param("entries", 300);    // fewer where all collide
    for (unsigned i = 0; i < n; i++) { insert(map, m, m.next++); checkSize(map, m, 16); }
    checkMap(map, m, m.next);
    unsigned keep = amsym_choice(3, "keep") * 8;
    if (keep == 16) {
        for (Map::iterator it = map.iter(); !it.empty(); it.next()) {
            uint32_t k = it->key;
            if (k % 16) { it.erase(); CHECK(m.present[k]); m.present[k] = false; m.live--; }
        }
        COVER("erased");
    } else {
        for (unsigned i = keep; i < n; i++) remove(map, m, i);
        COVER("removed");
    }
    checkMap(map, m, m.next);
    for (unsigned i = 0; i < n; i++) {
        uint32_t k = m.next++;
        insert(map, m, k);
        remove(map, m, k);
    }
    checkMap(map, m, m.next);
    checkSize(map, m, 16);
    COVER("end");
}
// More entries than 16 bits count.
struct PlainPolicy {
    static uint32_t hash(const uint32_t& k) { return k * 0x144cbc89u; }     // slot k
    static bool matches(const uint32_t& a, const uint32_t& b) { return a == b; }
};
ENTRY(huge) {
    ke::HashMap<uint32_t, uint32_t, PlainPolicy> map;
    CHECK(map.init());
    unsigned n = amsym_param("entries", 66000);
    uint32_t special = amsym_any<uint32_t>("v");
    for (unsigned k = 0; k < n; k++) {
        auto p = map.findForAdd(k);
        CHECK(!p.found());
        CHECK(map.add(p, k, k == 65537 ? special : k * 3));
    }
    CHECK(map.elements() == n);
    CHECKM(map.estimateMemoryUse() >= n * sizeof(uint32_t) * 2, "the memory in use holds at least the entries");
    for (unsigned k = 0; k < n; k += 7) {
        auto r = map.find(k);
        CHECK(r.found() && r->value == (k == 65537 ? special : k * 3));
    }
    CHECK(map.find(65537u).found() && map.find(65537u)->value == special);
    CHECK(!map.find(n).found());
    unsigned seen = 0;
    for (auto it = map.iter(); !it.empty(); it.next()) seen++;
    CHECK(seen == n);
    if (amsym_bool("clear")) { map.clear(); COVER("clear"); }
    else {
        for (unsigned k = 0; k < n; k++) if (k != 65536) map.removeIfExists(k);
        CHECK(map.find(65536u).found() && map.find(65536u)->value == 65536u * 3 && map.elements() == 1);
        COVER("removed");
    }
    auto p = map.findForAdd(5u);
    CHECK(!p.found());
    CHECK(map.add(p, 5u, 9u));
    CHECK(map.find(5u).found() && map.find(5u)->value == 9);
    COVER("end");
}
ENTRY(huge_set) {
    unsigned n = amsym_param("entries", 66000);
    ke::HashSet<uint32_t, PlainPolicy> set;
    CHECK(set.init());
    for (unsigned k = 0; k < n; k++) {
        if (k & 1) { auto p = set.findForAdd(k); CHECK(!p.found()); CHECK(set.add(p, k)); }
        else set.add(k);
    }
    CHECK(set.elements() == n);
    CHECKM(set.estimateMemoryUse() >= n * sizeof(uint32_t), "the memory in use holds at least the keys");
    for (unsigned k = 0; k < n; k += 3) CHECK(set.has(k));
    set.add(65537u);
    CHECKM(set.elements() == n, "a key held already is not added again");
    CHECK(!set.has(n) && !set.has(n + 65536u));
    unsigned seen = 0;
    for (auto it = set.iter(); !it.empty(); it.next()) seen++;
    CHECK(seen == n);
    uint32_t keep = amsym_bool("late") ? n - 1 : 0;
    if (amsym_bool("erase")) {
        for (auto it = set.iter(); !it.empty(); it.next()) if (*it != keep) it.erase();
        COVER("erased");
    } else {
        for (unsigned k = 0; k < n; k++) if (k != keep) set.removeIfExists(k);
        COVER("removed");
    }
    CHECK(set.elements() == 1 && set.has(keep) && !set.has(n / 2));
    COVER("end");
}
