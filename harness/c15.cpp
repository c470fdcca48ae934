#include "amsym.h"
#include "live.h"
#include <stdlib.h>
#include <memory>
#include <utility>
#include <amtl/am-priority-queue.h>
// Elements carry a key, which alone decides priority, and an identity.
struct Item { int key; unsigned id; };
struct Before { bool operator()(const Item& a, const Item& b) const { return a.key < b.key; } };
// An order with many ties, kept as state in the comparator.
struct Coarse {
    int mask; bool high;
    bool operator()(const Item& a, const Item& b) const { return high ? (a.key & mask) > (b.key & mask) : (a.key & mask) < (b.key & mask); }
};
struct MoveOnly {
    Tracked t; unsigned id;
    MoveOnly(int key, unsigned id) : t(key), id(id) {}
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator=(MoveOnly&&) = default;
    MoveOnly(const MoveOnly&) = delete;
};
struct BeforeMove { bool operator()(const MoveOnly& a, const MoveOnly& b) const { return a.t.get() < b.t.get(); } };
template <typename Q, typename C, typename Add, typename Key>
static void history(Q& q, C before, unsigned N, unsigned ops, Add add, Key keyOf) {
    int key[16];
    bool in[16] = {};
    unsigned next = 0, count = 0;
    for (unsigned n = 0; n < ops; n++) {
        CHECK(q.empty() == (count == 0));
        bool push = count == 0 ? next < N : next == N ? false : amsym_bool("push");
        if (push) {
            key[next] = amsym_any<int>("key");
            add(q, key[next], next);
            in[next++] = true;
            count++;
        } else if (count) {
            const auto& p = q.peek();
            unsigned pid = p.id;
            auto top = q.pop();
            CHECK(top.id == pid);
            CHECKM(top.id < next && in[top.id], "popped an element that is queued");
            CHECK(keyOf(top) == key[top.id]);
            in[top.id] = false;
            count--;
            for (unsigned k = 0; k < next; k++)
                if (in[k]) CHECKM(!before(key[k], key[top.id]), "no queued element has priority over the popped one");
            COVER("pop");
        }
    }
    while (count) {
        CHECK(!q.empty());
        auto top = q.pop();
        CHECKM(top.id < next && in[top.id], "popped an element that is queued");
        in[top.id] = false;
        count--;
        for (unsigned k = 0; k < next; k++)
            if (in[k]) CHECKM(!before(key[k], key[top.id]), "no queued element has priority over the popped one");
    }
    CHECK(q.empty());
}
// Push everything, then pop everything: the deepest heaps.
ENTRY(fill_drain) {
    unsigned n = amsym_param("n", 5);
    int key[16];
    bool in[16] = {};
    ke::PriorityQueue<Item, Before> q;
    for (unsigned i = 0; i < n; i++) {
        key[i] = amsym_any<int>("key");
        q.add(Item{key[i], i});
        in[i] = true;
        int best = key[0];
        for (unsigned k = 1; k <= i; k++) best = key[k] < best ? key[k] : best;
        CHECKM(q.peek().key == best, "the best element is on top after every addition");
    }
    int last = 0;
    for (unsigned i = 0; i < n; i++) {
        Item t = q.pop();
        CHECK(t.id < n && in[t.id] && key[t.id] == t.key);
        in[t.id] = false;
        if (i) CHECKM(last <= t.key, "elements come out in priority order");
        last = t.key;
    }
    CHECK(q.empty());
    COVER("end");
}
// A heap of distinct known keys in any arrangement reachable from pushes, then any mix: larger sizes.
ENTRY(known_order) {
    unsigned n = amsym_param("known", 15);
    ke::PriorityQueue<Item, Before> q;
    int pivot = amsym_any<int>("pivot");
    amsym_assume(pivot >= -2 && pivot < 2 * (int)n + 2);
    bool up = amsym_bool("up");
    unsigned step = 1 + amsym_choice(4, "step") * 2;   // 1 3 5 7
    int key[17];
    for (unsigned i = 0; i < n; i++) {
        key[i] = (int)((up ? i : n - 1 - i) * step % n) * 2;
        q.add(Item{key[i], i});
    }
    key[n] = pivot;
    q.emplace(Item{pivot, n});
    bool in[17];
    for (unsigned i = 0; i <= n; i++) in[i] = true;
    int last = 0;
    for (unsigned i = 0; i <= n; i++) {
        CHECK(!q.empty());
        Item t = q.pop();
        CHECK(t.id <= n && in[t.id] && key[t.id] == t.key);
        in[t.id] = false;
        if (i) CHECKM(last <= t.key, "elements come out in priority order");
        last = t.key;
    }
    CHECK(q.empty());
    COVER("end");
}
ENTRY(mixed) {
    ke::PriorityQueue<Item, Before> q;
    history(q, [](int a, int b) { return a < b; }, amsym_param("n", 4), amsym_param("ops", 6), [](auto& q, int k, unsigned id) { Item it{k, id}; if (id & 1) q.add(it); else q.add(std::move(it)); },
            [](const Item& i) { return i.key; });
    COVER("end");
}
ENTRY(stateful_order) {
    Coarse c{amsym_any<int>("mask"), amsym_bool("high")};
    ke::PriorityQueue<Item, Coarse> first(c);
    first.add(Item{5, 99});
    first.pop();
    ke::PriorityQueue<Item, Coarse> q(std::move(first));
    history(q, [c](int a, int b) { return c(Item{a, 0}, Item{b, 0}); }, amsym_param("n", 4), amsym_param("ops", 5), [](auto& q, int k, unsigned id) { q.emplace(Item{k, id}); }, [](const Item& i) { return i.key; });
    COVER("end");
}
ENTRY(move_only) {
    Tracked::reset();
    amsym_mark_heap();
    {
        ke::PriorityQueue<MoveOnly, BeforeMove> q;
        history(q, [](int a, int b) { return a < b; }, amsym_param("n", 4), amsym_param("ops", 5), [](auto& q, int k, unsigned id) { if (id & 1) q.emplace(k, id); else q.add(MoveOnly(k, id)); },
                [](const MoveOnly& m) { return m.t.get(); });
        unsigned left = amsym_choice(3, "left");
        for (unsigned i = 0; i < left; i++) q.emplace((int)i, i);
        if (amsym_bool("moved")) {
            ke::PriorityQueue<MoveOnly, BeforeMove> r(std::move(q));
            CHECK(r.empty() == (left == 0) && q.empty());
            if (left) CHECK(r.peek().t.get() == 0);
            COVER("moved");
        }
        CHECK(Tracked::ncopies() == 0);
    }
    CHECK(Tracked::live() == 0);
    amsym_check_leaks();
    COVER("end");
}
// The default order is less-than: smallest first.
ENTRY(default_order) {
    ke::PriorityQueue<int> q;
    int a = amsym_any<int>("a"), b = amsym_any<int>("b"), c = amsym_any<int>("c");
    q.add(a);
    q.add(b);
    q.emplace(c);
    int x = q.pop(), y = q.pop(), z = q.pop();
    CHECK(x <= y && y <= z && q.empty());
    CHECK((x ^ y ^ z) == (a ^ b ^ c));
    CHECK((x == a || x == b || x == c) && (z == a || z == b || z == c));
    COVER("end");
}
// A few hundred known keys and two arbitrary ones.
ENTRY(many) {
    static const unsigned N = 270;
    static int key[N];
    static bool in[N];
    ke::PriorityQueue<Item, Before> q;
    unsigned n = amsym_choice(2, "n") ? N : 66, shape = n == 66 ? amsym_choice(3, "shape") : 0;
    unsigned at = amsym_choice(2, "at") * ((n - 1) / 2);
    for (unsigned i = 0; i < n; i++) {
        key[i] = shape == 0 ? (int)(i * 7919u % 1009u) : shape == 1 ? (int)i : (int)(n - i);
        if (i == at) key[i] = amsym_any<int>("key");
        in[i] = true;
        q.add(Item{key[i], i});
    }
    int last = 0;
    for (unsigned k = 0; k < n; k++) {
        CHECK(!q.empty());
        Item top = q.pop();
        CHECKM(top.id < n && in[top.id] && top.key == key[top.id], "popped an element that is queued");
        if (k) CHECKM(top.key >= last, "popped in order of priority");
        last = top.key;
        in[top.id] = false;
    }
    CHECK(q.empty());
    COVER("end");
}
// More elements than 16 bits count.
ENTRY(huge) {
    unsigned n = (unsigned)amsym_param("elements", 66000), at = amsym_bool("late") ? n - 1 : n / 2;
    int any = amsym_any<int>("key");
    amsym_assume(any < 0);                  // comes first
    {
        ke::PriorityQueue<Item, Before> q;
        for (unsigned i = 0; i < n; i++) q.add(Item{i == at ? any : (int)((i * 40503u) & 0xffff), i});
        Item first = q.pop();
        CHECK(first.key == any && first.id == at);
        int last = 0;
        unsigned sum = 0, ids = 0;
        for (unsigned k = 1; k < n; k++) {
            CHECK(!q.empty());
            Item top = q.pop();
            CHECKM(top.key >= last && top.key == (int)((top.id * 40503u) & 0xffff), "popped in order of priority");
            last = top.key;
            sum += top.id;
            ids ^= top.id * 2654435761u;
        }
        unsigned wantSum = 0, wantIds = 0;
        for (unsigned i = 0; i < n; i++) if (i != at) { wantSum += i; wantIds ^= i * 2654435761u; }
        CHECKM(q.empty() && sum == wantSum && ids == wantIds, "every element is popped once");
    }
    COVER("end");
}
