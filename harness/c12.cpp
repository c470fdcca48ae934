#include "amsym.h"
#include <amtl/am-inlinelist.h>
struct Node : ke::InlineListNode<Node> {
    int data = 0;
    int tail[2] = {};     // the node is not only its links
};
typedef ke::InlineList<Node> List;
static const int N = 3, L = 2;
struct Model {
    int seq[L][N];
    int len[L] = {};
    int where[N] = {-1, -1, -1};
    void append(int l, int n) { seq[l][len[l]++] = n; where[n] = l; }
    void remove(int n) {
        int l = where[n], k = 0;
        for (int i = 0; i < len[l]; i++) if (seq[l][i] != n) seq[l][k++] = seq[l][i];
        len[l] = k;
        where[n] = -1;
    }
};
static void check(List* lists, Node* nodes, const Model& m, bool length, const int* data) {
    for (int l = 0; l < L; l++) {
        int i = 0;
        for (List::iterator it = lists[l].begin(); it != lists[l].end(); ++it, i++) {
            CHECK(i < m.len[l]);
            CHECK(*it == &nodes[m.seq[l][i]] && it->data == data[m.seq[l][i]]);
        }
        CHECK(i == m.len[l]);
        for (List::reverse_iterator it = lists[l].rbegin(); !(it == lists[l].rend()); it++) {
            CHECK(i > 0);
            i--;
            CHECK(*it == &nodes[m.seq[l][i]] && it->tail == nodes[m.seq[l][i]].tail);
        }
        CHECK(i == 0);
        CHECK(lists[l].empty() == (m.len[l] == 0));
        if (length) CHECK(lists[l].length() == (size_t)m.len[l]);
    }
    for (int n = 0; n < N; n++) CHECK(nodes[n].isInList() == (m.where[n] >= 0));
}
static void history(bool byNode) {
    int data[N];
    Node nodes[N];
    for (int i = 0; i < N; i++) nodes[i].data = data[i] = amsym_any<int>("data");
    {
        List lists[L];
        Model m;
        check(lists, nodes, m, true, data);
        unsigned ops = amsym_param("ops", 5);
        bool length = true;
        int used = 0;
        for (unsigned k = 0; k < ops; k++) {
            int n = used == 0 ? 0 : amsym_choice(used < N ? used + 1 : N, "node");
            if (n == used) used++;
            if (m.where[n] < 0) {
                int l = k == 0 ? 0 : amsym_choice(L, "list");
                lists[l].append(&nodes[n]);
                m.append(l, n);
                COVER("append");
            } else {
                int l = m.where[n];
                switch (amsym_choice(byNode ? 5 : 4, "how")) {
                case 0: lists[l].remove(&nodes[n]); m.remove(n); COVER("remove"); break;
                case 1: {
                    List::iterator it = lists[l].begin();
                    while (*it != &nodes[n]) ++it;
                    List::iterator nx = lists[l].erase(it);
                    int pos = 0;
                    while (m.seq[l][pos] != n) pos++;
                    CHECK(nx == (pos + 1 < m.len[l] ? List::iterator(&nodes[m.seq[l][pos + 1]]) : lists[l].end()));
                    m.remove(n);
                    COVER("erase");
                    break;
                }
                case 2: {
                    List::reverse_iterator it = lists[l].rbegin();
                    while (*it != &nodes[n]) it++;
                    List::reverse_iterator nx = lists[l].erase(it);
                    int pos = 0;
                    while (m.seq[l][pos] != n) pos++;
                    CHECK(nx == (pos > 0 ? List::reverse_iterator(&nodes[m.seq[l][pos - 1]]) : lists[l].rend()));
                    m.remove(n);
                    COVER("erase backwards");
                    break;
                }
                case 3: {   // erase everything from this node on, while iterating
                    List::iterator it = lists[l].begin();
                    bool on = false;
                    while (it != lists[l].end()) {
                        int id = *it - nodes;
                        if (id == n) on = true;
                        if (on) { it = lists[l].erase(it); m.remove(id); } else it++;
                    }
                    COVER("erase range");
                    break;
                }
                default:
                    nodes[n].removeFromParentList();
                    m.remove(n);
                    length = false;      // see the entry length_after_node_removal
                    COVER("by node");
                }
            }
            check(lists, nodes, m, length, data);
        }
        COVER("end");
    }
}
ENTRY(lists) { history(false); }
ENTRY(lists_by_node) { history(true); }
#ifndef NDEBUG
// In debug builds a list lets go of its nodes when it is destroyed, and they can be used again.
ENTRY(reuse_after_list) {
    Node nodes[N];
    for (int round = 0; round < 2; round++) {
        List l;
        int n = amsym_choice(N + 1, "n");
        for (int i = 0; i < n; i++) { CHECK(!nodes[i].isInList()); l.append(&nodes[i]); }
        CHECK(l.length() == (size_t)n);
    }
    for (auto& n : nodes) CHECK(!n.isInList());
    COVER("end");
}
#endif
// Known finding: removal by the node itself leaves the list's length() as it was.
ENTRY(length_after_node_removal) {
    Node nodes[2];
    List l;
    l.append(&nodes[0]);
    l.append(&nodes[1]);
    nodes[amsym_choice(2, "which")].removeFromParentList();
    CHECKM(l.length() == 1, "length agrees with the contents after removeFromParentList");
}
// Long lists.
ENTRY(long_lists) {
    static const int M = 300;
    Node* nodes = new Node[M];
    {
        List l;
        int n = amsym_bool("longer") ? M : 20;
        for (int i = 0; i < n; i++) { nodes[i].data = i; l.append(&nodes[i]); CHECK(l.length() == (size_t)i + 1); }
        int step = 1 + amsym_choice(3, "step"), kept = 0;      // every step-th one goes
        if (amsym_bool("erase")) {
            int i = 0;
            for (List::iterator it = l.begin(); it != l.end(); i++) {
                CHECK(it->data == i);
                if (i % step == 0) it = l.erase(it);
                else { ++it; kept++; }
            }
            COVER("erase");
        } else {
            for (int i = 0; i < n; i++)
                if (i % step == 0) l.remove(&nodes[i]);
                else kept++;
            COVER("remove");
        }
        CHECK(l.length() == (size_t)kept && l.empty() == (kept == 0));
        int i = 0, seen = 0;
        for (Node* p : l) {
            while (i % step == 0) i++;
            CHECK(p == &nodes[i] && p->data == i);
            i++;
            seen++;
        }
        CHECK(seen == kept);
        for (int k = 0; k < n; k++) {
            CHECK(nodes[k].isInList() == (k % step != 0));
            if (k % step) l.remove(&nodes[k]);
        }
        CHECK(l.empty() && l.length() == 0);
    }
    delete[] nodes;
    COVER("end");
}
// More nodes than 16 bits count.
ENTRY(huge_lists) {
    static const unsigned M = 66000;
    Node* nodes = new Node[M];
    {
        List l;
        for (unsigned i = 0; i < M; i++) { nodes[i].data = (int)i; l.append(&nodes[i]); }
        CHECK(l.length() == M && !l.empty());
        unsigned seen = 0;
        if (amsym_bool("reverse")) { for (auto it = l.rbegin(); it != l.rend(); ++it) { seen++; CHECK(it->data == (int)(M - seen)); } COVER("reverse"); }
        else { for (Node* p : l) { CHECK(p == &nodes[seen]); seen++; } COVER("forward"); }
        CHECK(seen == M);
        for (unsigned i = 0; i < M; i++) {
            if (i % 1000) l.remove(&nodes[i]);
        }
        CHECK(l.length() == 66 && !l.empty());
        seen = 0;
        for (Node* p : l) { CHECK(p == &nodes[seen * 1000]); seen++; }
        CHECK(seen == 66);
        for (unsigned i = 0; i < M; i += 1000) l.remove(&nodes[i]);
        CHECK(l.length() == 0 && l.empty());
    }
    delete[] nodes;
    COVER("end");
}
