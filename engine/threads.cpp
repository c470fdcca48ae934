// amsym: scheduling of threads, happens-before and data races.
#include "exec.h"
using namespace llvm;

int liveThreads(State& s) { int n = 0; for (auto& t : s.th) if (!t.finished) n++; return n; }

static bool enabled(State& s, int i) {
    Thread& t = s.th[i];
    if (t.finished) return false;
    switch (t.pend.k) {
    case PK::None: return false;
    case PK::Join: return s.th[t.pend.tid].finished;
    case PK::Lock: { auto& mx = s.sync->mx; auto it = mx.find(t.pend.addr); return it == mx.end() || it->second.owner < 0; }
    case PK::Mem: return !t.spin;
    default: return true;
    }
}
static bool indep(const Pending& a, const Pending& b) {
    auto mem = [](const Pending& p) { return p.k == PK::Mem || p.k == PK::Lock || p.k == PK::TryLock || p.k == PK::Unlock; };
    if (!mem(a) || !mem(b)) return true;
    if (a.addr + a.size <= b.addr || b.addr + b.size <= a.addr) return true;
    return a.k == PK::Mem && b.k == PK::Mem && !a.write && !b.write;
}

static void grant(State& s, int t) {
    Thread& x = s.th[t];
    if (x.pend.k == PK::Start) x.granted = false; else x.granted = true;
    x.pend = Pending();
    s.cur = t;
    s.sched.push_back((uint8_t)t);
}

// The current thread is parked or finished: choose who runs next, forking over every choice.
void schedule(State& s) {
    gStats.schedPoints++;
    std::vector<int> en;
    for (;;) {
        en.clear();
        int n = s.th.size();
        for (int k = 0; k < n; k++) { int i = (s.cur + k) % n; if (enabled(s, i)) en.push_back(i); }
        if (!en.empty()) break;
        bool any = false;
        for (auto& t : s.th) if (!t.finished && t.spin) { t.spin = false; t.polls.clear(); any = true; }
        if (!any) violation(s, "deadlock", "every thread is blocked");
        if (++s.wakes > 12) violation(s, "deadlock", "threads spin for ever: no thread can make progress");
    }
    std::vector<int> ch;
    if (cfg.preemptions >= 0) {
        ch = en;
        if (!s.th[s.cur].finished && en[0] == s.cur && s.preempt >= cfg.preemptions) ch = {s.cur};
    } else {
        for (int i : en) { bool sl = false; for (auto& p : s.sleep) if (p.first == i) sl = true; if (!sl) ch.push_back(i); }
        if (ch.empty()) { gStats.redundant++; throw PathEnd(); }
    }
    // The choice is a symbolic variable constrained to the enabled threads; the solver enumerates its values.
    E v = nullptr;
    size_t k = s.sched.size();
    std::vector<int> order = ch;
    if (ch.size() > 1) {
        v = mkVar("sched!" + std::to_string(k), 8);
        E any = mkBool(false);
        for (int i : ch) any = mkOr(any, mkEq(v, mkConst(i, 8)));
        s.pc.push_back(any);
        s.m.set(v->aux, ch[0]);
    }
    std::vector<std::pair<int, Pending>> done = s.sleep;
    State base(s);
    for (size_t j = 0; j < ch.size(); j++) {
        int c = ch[j];
        State* o = j == 0 ? &s : new State(base);
        if (v) {
            E q = mkEq(v, mkConst(c, 8));
            Model m;
            if (j) { if (!feasible(*o, q, m)) { delete o; continue; } o->m = m; }
            addConstraint(*o, q);
        }
        Pending pc = base.th[c].pend;
        std::vector<std::pair<int, Pending>> sl;
        for (auto& p : done) if (p.first != c && indep(p.second, pc)) sl.push_back(p);
        done.push_back({c, pc});
        o->sleep = sl;
        if (cfg.preemptions >= 0) { o->sleep.clear(); if (c != base.cur && !base.th[base.cur].finished && en[0] == base.cur) o->preempt++; }
        grant(*o, c);
        if (j) { gStats.forks++; pushState(o); }
    }
}

bool visible(State& s, Pending p) {
    Thread& t = s.th[s.cur];
    if (t.granted) { t.granted = false; return true; }
    if (liveThreads(s) <= 1 && p.k != PK::Join && p.k != PK::Lock) return true;
    if (liveThreads(s) <= 1) {
        t.pend = p;
        bool en = enabled(s, s.cur);
        t.pend = Pending();
        if (en) return true;
        violation(s, "deadlock", "the only running thread is blocked");
    }
    t.pend = p;
    schedule(s);
    return false;
}

static void tick(State& s) { VC& v = s.th[s.cur].vc; if ((int)v.size() <= s.cur) v.resize(s.cur + 1, 0); v[s.cur]++; }
static bool acq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static bool rel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }

static void raceReport(State& s, uint64_t a, const char* what) {
    int i = findObj(s, a);
    std::string d = i >= 0 ? siteName[s.mem[i].o->site] + " offset " + std::to_string(a - s.mem[i].addr) : "memory";
    violation(s, "race", std::string("data race: ") + what + " of " + d + " not ordered with another thread's access");
}
static void touch(State& s, uint64_t addr, uint64_t n, bool wr, bool atomic) {
    RaceMap* rm = s.race.mut();
    int me = s.cur;
    VC& vc = s.th[me].vc;
    auto get = [&](const VC& v, uint32_t i) { return i < v.size() ? v[i] : 0u; };
    uint32_t my = get(vc, me);
    for (uint64_t i = 0; i < n; i++) {
        Shadow& h = rm->m[addr + i];
        if (h.wc && (int)h.wt != me && h.wc > get(vc, h.wt) && !(atomic && h.watomic)) raceReport(s, addr, wr ? "write" : "read");
        if (wr) {
            for (uint32_t t = 0; t < h.r.size(); t++) if ((int)t != me && h.r[t] > get(vc, t)) raceReport(s, addr, "write");
            if (!atomic) for (uint32_t t = 0; t < h.ra.size(); t++) if ((int)t != me && h.ra[t] > get(vc, t)) raceReport(s, addr, "write");
            h.wt = me; h.wc = my; h.watomic = atomic;
            if (!atomic) { h.r.clear(); h.ra.clear(); }
        } else {
            VC& r = atomic ? h.ra : h.r;
            if ((int)r.size() <= me) r.resize(me + 1, 0);
            r[me] = my;
        }
    }
}
void onPlain(State& s, uint64_t addr, uint64_t n, bool wr) {
    if (s.th.size() < 2) return;
    touch(s, addr, n, wr, false);
}
void wroteTo(State& s, uint64_t addr, uint32_t size) {
    for (size_t i = 0; i < s.th.size(); i++) {
        Thread& t = s.th[i];
        if ((int)i == s.cur) continue;
        bool hit = false;
        for (auto& p : t.polls) if (p.addr < addr + size && addr < p.addr + 16) hit = true;
        if (hit) { t.spin = false; t.polls.clear(); }
    }
}
void onAtomic(State& s, uint64_t addr, uint32_t size, bool rd, bool wr, AtomicOrdering ord, bool rmw) {
    if (s.th.size() < 2) return;
    if (rd && !wr) touch(s, addr, size, false, true);
    if (wr) { touch(s, addr, size, true, true); }
    Thread& t = s.th[s.cur];
    SyncMap* sm = s.sync.mut();
    VC& L = sm->loc[addr];
    if (rd) { if (acq(ord)) vcJoin(t.vc, L); else vcJoin(t.acqPend, L); }
    if (wr) {
        VC n;
        if (rmw) n = L;
        if (rel(ord)) vcJoin(n, t.vc); else vcJoin(n, t.relFence);
        L = n;
        if (rel(ord)) tick(s);
        wroteTo(s, addr, size);
    }
}
void spinCheck(State& s, const Instruction* I, uint64_t addr, uint64_t val) {
    Thread& t = s.th[s.cur];
    for (auto& p : t.polls) if (p.I == I && p.addr == addr) {
        if (p.val != val) { p.val = val; p.n = 1; t.spin = false; return; }
        if (++p.n >= 3) t.spin = true;
        return;
    }
    if (t.polls.size() < 8) t.polls.push_back({I, addr, val, 1});
}
void threadCreated(State& s, int tid) {
    Thread& c = s.th[tid];
    c.vc = s.th[s.cur].vc;
    c.vc.resize(std::max<size_t>(c.vc.size(), tid + 1), 0);
    c.vc[tid] = 1;
    c.pend.k = PK::Start;
    tick(s);
    gStats.maxThreads = std::max<uint64_t>(gStats.maxThreads, s.th.size());
}
void finishThread(State& s) {
    s.th[s.cur].finished = true;
    schedule(s);
}
