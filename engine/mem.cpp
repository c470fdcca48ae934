// amsym: memory, constraints, forking.
#include "exec.h"
#include <llvm/IR/Constants.h>
using namespace llvm;
uint64_t exactAlign(uint64_t a, uint64_t al);

static int uninitN = 0;
std::set<uint32_t> gUninitVars;
static E freshUninit(unsigned w) {
    E e = mkVar("uninit!" + std::to_string(uninitN++), w);
    gUninitVars.insert(e->aux);
    return e;
}
E toE(const Val& v, unsigned w) {
    if (v.a) { fprintf(stderr, "amsym: aggregate used as scalar\n"); exit(3); }
    if (!v.e) return mkConst(v.c, w);
    if (v.e == UNDEF_E) return freshUninit(w);
    return v.e;
}
E addrOf(const Val& v) { return toE(v, 64); }

// ---- constraints
static void markFixed(State& s, E c) {
    // c is a new constraint. Eq(e, const) fixes all variables of e when e is built from whole variables only.
    E e = nullptr;
    if (c->op == Op::Eq && c->k[1]->isConst()) e = c->k[0];
    else if (c->op == Op::Eq && c->k[0]->isConst()) e = c->k[1];
    else if (c->op == Op::Var && c->w == 1) e = c;
    else if (c->op == Op::Xor && c->w == 1 && c->k[0]->op == Op::Var && c->k[1]->isConst()) e = c->k[0];
    else if (c->op == Op::Xor && c->w == 1 && c->k[1]->op == Op::Var && c->k[0]->isConst()) e = c->k[1];
    if (!e) return;
    std::vector<E> st{e};
    std::vector<uint32_t> vars;
    while (!st.empty()) {
        E x = st.back();
        st.pop_back();
        if (x->isConst()) continue;
        if (x->op == Op::Var) { vars.push_back(x->aux); continue; }
        if (x->op == Op::Concat) { st.push_back(x->k[0]); st.push_back(x->k[1]); continue; }
        if (x->op == Op::ZExt || x->op == Op::SExt) { st.push_back(x->k[0]); continue; }
        if (x->op == Op::Add && (x->k[0]->isConst() || x->k[1]->isConst())) { st.push_back(x->k[0]); st.push_back(x->k[1]); continue; }
        return;
    }
    for (auto v : vars) { if (s.fixed.size() <= v) s.fixed.resize(v + 1); s.fixed[v] = true; }
}
void addConstraint(State& s, E c) {
    if (c->isTrue()) return;
    if (c->op == Op::And && c->w == 1) { addConstraint(s, c->k[0]); addConstraint(s, c->k[1]); return; }
    for (E p : s.pc) if (p == c) return;
    s.pc.push_back(c);
    markFixed(s, c);
}
static bool allFixed(State& s, E c) {
    for (auto v : varsOf(c)) if (v >= s.fixed.size() || !s.fixed[v]) return false;
    return true;
}

bool feasible(State& s, E c, Model& m) {
    if (c->isTrue()) { m = s.m; return true; }
    if (c->isFalse()) return false;
    if (evalExpr(c, s.m)) { m = s.m; gSolver.modelHits++; return true; }
    if (allFixed(s, c)) return false;
    E n = mkNot(c);
    for (E p : s.pc) if (p == n) return false;
    // slice: constraints connected to c through shared variables
    static std::vector<uint32_t> stamp; static uint32_t gen = 0;
    gen++;
    auto mark = [&](uint32_t v) { if (v >= stamp.size()) stamp.resize(v + 64, 0); if (stamp[v] == gen) return false; stamp[v] = gen; return true; };
    for (auto v : varsOf(c)) mark(v);
    std::vector<E> cs{c};
    std::vector<char> used(s.pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); i++) {
            if (used[i]) continue;
            bool hit = false;
            for (auto v : varsOf(s.pc[i])) if (v < stamp.size() && stamp[v] == gen) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            cs.push_back(s.pc[i]);
            ch = true;
            for (auto v : varsOf(s.pc[i])) mark(v);
        }
    }
    m = s.m;
    Sat r = solverCheck(cs, m);
    if (r == Sat::Unknown) { gIncomplete.insert("solver gave no answer within its limit at " + curLoc(s)); throw PathEnd(); }
    return r == Sat::Sat;
}

static void uninitCheck(State& s, E e, const char* what) {
    if (!cfg.checkUninit || gUninitVars.empty()) return;
    for (auto v : varsOf(e)) if (gUninitVars.count(v)) violation(s, "uninit", std::string(what) + " depends on uninitialised memory");
}

bool decide(State& s, E c) {
    if (c->isConst()) return c->isTrue();
    uninitCheck(s, c, "a branch");
    bool t = evalExpr(c, s.m) != 0;
    if (allFixed(s, c)) return t;
    E nc = mkNot(c);
    for (E p : s.pc) { if (p == c) return true; if (p == nc) return false; }
    Model m;
    E other = t ? nc : c, mine = t ? c : nc;
    if (!feasible(s, other, m)) return t;
    State* o = new State(s);
    o->m = m;
    addConstraint(*o, other);
    o->conc.push_back({c, t ? 0 : 1});
    o->depth++;
    s.depth++;
    addConstraint(s, mine);
    gStats.forks++;
    pushState(o);
    return t;
}

bool concretize(State& s, E e, uint64_t& out, const char* why) {
    if (e->isConst()) { out = e->u64(); return true; }
    for (auto& p : s.conc) if (p.first == e) { out = p.second; return true; }
    uninitCheck(s, e, why);
    uint64_t v0 = (uint64_t)evalExpr(e, s.m);
    if (allFixed(s, e)) { out = v0; return true; }
    E ne = mkNot(mkEq(e, mkConst(v0, e->w)));
    State base(s);
    int n = 0;
    for (;;) {
        Model m;
        if (!feasible(base, ne, m)) break;
        uint64_t v = (uint64_t)evalExpr(e, m);
        State* o = new State(s);
        o->m = m;
        E q = mkEq(e, mkConst(v, e->w));
        addConstraint(*o, q);
        o->conc.push_back({e, v});
        o->depth++;
        gStats.forks++;
        pushState(o);
        base.m = m;
        addConstraint(base, ne);
        ne = mkNot(q);
        if (++n > cfg.concLimit) { gIncomplete.insert(std::string("too many values for ") + why + " at " + curLoc(s)); throw PathEnd(); }
    }
    if (n) { addConstraint(s, mkEq(e, mkConst(v0, e->w))); s.depth++; }
    s.conc.push_back({e, v0});
    out = v0;
    return true;
}

void checkNot(State& s, E bad, const char* kind, const std::string& msg) {
    if (bad->isFalse()) return;
    if (bad->isTrue()) violation(s, kind, msg);
    Model m;
    if (feasible(s, bad, m)) {
        State v(s);
        v.m = m;
        addConstraint(v, bad);
        try { violation(v, kind, msg); } catch (PathEnd&) {}
        E ok = mkNot(bad);
        if (!feasible(s, ok, m)) throw PathEnd();
        s.m = m;
        addConstraint(s, ok);
    }
}

// ---- memory
uint64_t allocObj(State& s, uint64_t size, uint64_t align, OK kind, uint32_t site, const Value* v, bool uninit) {
    uint64_t a = exactAlign(s.bump, align);
    s.bump = a + (size ? size : 1) + 32;
    Obj* o = new Obj;
    o->size = size;
    o->kind = kind;
    o->site = site;
    o->v = v;
    o->b.assign(size, 0);
    if (uninit) o->s.assign(size, UNDEF_E);
    s.mem.push_back({a, Ref<Obj>(o)});
    return a;
}
int findObj(State& s, uint64_t addr) {
    size_t lo = 0, hi = s.mem.size();
    while (lo < hi) { size_t mid = (lo + hi) / 2; if (s.mem[mid].addr <= addr) lo = mid + 1; else hi = mid; }
    if (lo == 0) return -1;
    Slot& sl = s.mem[lo - 1];
    if (addr < sl.addr + sl.o->size || (addr == sl.addr)) return lo - 1;
    return -1;
}
static std::string describe(State& s, uint64_t addr) {
    if (addr < 4096) return "null pointer";
    for (auto& f : s.freed) if (addr >= f.first && addr < f.first + std::max<uint64_t>(f.second, 1)) return "freed heap block of " + std::to_string(f.second) + " bytes";
    size_t best = ~0ull;
    for (size_t i = 0; i < s.mem.size(); i++) if (s.mem[i].addr <= addr) best = i;
    if (best != ~0ull && addr - s.mem[best].addr < s.mem[best].o->size + 64) {
        Slot& sl = s.mem[best];
        return "offset " + std::to_string(addr - sl.addr) + " of a " + std::to_string(sl.o->size) + "-byte object (" + siteName[sl.o->site] + ")";
    }
    return "address outside every object (dangling or wild pointer)";
}
Obj* access(State& s, uint64_t addr, uint64_t n, bool write, uint64_t& off, bool track) {
    int i = findObj(s, addr);
    if (i < 0 || (addr - s.mem[i].addr) + n > s.mem[i].o->size) {
        if (n == 0) { static Obj dummy; off = 0; return &dummy; }
        violation(s, "memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + describe(s, addr));
    }
    Slot& sl = s.mem[i];
    off = addr - sl.addr;
    if (sl.o->dead) violation(s, "memory", std::string(write ? "write to" : "read of") + " a local variable after its scope ended (" + siteName[sl.o->site] + ")");
    if (write) {
        if (sl.o->readonly) violation(s, "memory", "write to read-only memory (" + siteName[sl.o->site] + ")");
        return sl.o.mut();
    }
    return sl.o.p;
}

// Values stored as bytes and loaded again: the bytes of a sum or product may have been simplified one by
// one beyond what concatenation undoes, so remember which value they are the bytes of.
namespace {
struct Bytes { E b[8]; unsigned n; bool operator==(const Bytes& o) const { return n == o.n && !memcmp(b, o.b, n * sizeof(E)); } };
struct BytesHash { size_t operator()(const Bytes& x) const { size_t h = x.n; for (unsigned i = 0; i < x.n; i++) h = h * 1000003 + x.b[i]->id; return h; } };
}
static std::unordered_map<Bytes, E, BytesHash> gWhole;
static bool keepWhole(E e) {
    switch (e->op) {
    case Op::Add: case Op::Sub: case Op::Mul: case Op::Xor: case Op::And: case Op::Or: return e->w == 16 || e->w == 32 || e->w == 64;
    default: return false;
    }
}
static E wholeOf(const E* b, unsigned n) {
    if (gWhole.empty()) return nullptr;
    Bytes x;
    x.n = n;
    for (unsigned i = 0; i < n; i++) { if (!b[i] || b[i] == UNDEF_E) return nullptr; x.b[i] = b[i]; }
    auto it = gWhole.find(x);
    return it == gWhole.end() ? nullptr : it->second;
}
static Val loadScalar(State& s, uint64_t addr, unsigned w) {
    unsigned n = (w + 7) / 8;
    uint64_t off;
    Obj* o = access(s, addr, n, false, off);
    bool conc = true;
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { conc = false; break; }
    if (conc && w <= 64) {
        uint64_t v = 0;
        for (unsigned i = 0; i < n; i++) v |= (uint64_t)o->b[off + i] << (8 * i);
        if (w < 64) v &= (1ull << w) - 1;
        return Val::C(v);
    }
    if (!conc) {
        unsigned un = 0;
        for (unsigned i = 0; i < n; i++) if (o->s[off + i] == UNDEF_E) un++;
        if (un == n) {
            E e = freshUninit(8 * n);
            int si = findObj(s, addr);
            Obj* mo = s.mem[si].o.mut();
            for (unsigned i = 0; i < n; i++) mo->s[off + i] = mkExtract(e, 8 * i, 8);
            o = mo;
        } else if (un) {
            int si = findObj(s, addr);
            Obj* mo = s.mem[si].o.mut();
            for (unsigned i = 0; i < n; i++) if (mo->s[off + i] == UNDEF_E) mo->s[off + i] = freshUninit(8);
            o = mo;
        }
    }
    if (!conc && (n == 2 || n == 4 || n == 8) && w == 8 * n) {
        E whole = wholeOf(&o->s[off], n);
        if (whole) return Val::X(whole);
    }
    E r = nullptr;
    for (unsigned i = 0; i < n; i++) {
        E b = (!o->s.empty() && o->s[off + i]) ? o->s[off + i] : mkConst(o->b[off + i], 8);
        r = r ? mkConcat(b, r) : b;
    }
    if (w != 8 * n) r = mkExtract(r, 0, w);
    return Val::X(r);
}
static void storeScalar(State& s, uint64_t addr, unsigned w, const Val& v) {
    unsigned n = (w + 7) / 8;
    uint64_t off;
    Obj* o = access(s, addr, n, true, off);
    if (v.isC() || (v.e != UNDEF_E && v.e->isConst())) {
        u128 c = v.e ? v.e->val : (u128)v.c;
        for (unsigned i = 0; i < n; i++) o->b[off + i] = (uint8_t)(c >> (8 * i));
        if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
        return;
    }
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    if (v.e == UNDEF_E) { for (unsigned i = 0; i < n; i++) o->s[off + i] = UNDEF_E; return; }
    E e = v.e;
    if (e->w != 8 * n) e = mkZExt(e, 8 * n);
    Bytes by;
    by.n = n;
    bool whole = keepWhole(e);
    for (unsigned i = 0; i < n; i++) {
        E b = mkExtract(e, 8 * i, 8);
        if (whole) { if (b->isConst()) whole = false; else by.b[i] = b; }
        if (b->isConst()) { o->s[off + i] = nullptr; o->b[off + i] = (uint8_t)b->val; } else o->s[off + i] = b;
    }
    if (whole) gWhole.emplace(by, e);
}
static unsigned scalarW(Type* T) {
    if (T->isPointerTy()) return 64;
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isFloatTy()) return 32;
    if (T->isDoubleTy()) return 64;
    if (T->isX86_FP80Ty()) return 80;
    if (T->isFP128Ty()) return 128;
    return 0;
}
Val loadVal(State& s, uint64_t addr, Type* T) {
    if (unsigned w = scalarW(T)) return loadScalar(s, addr, w);
    Agg* a = new Agg;
    Val r;
    r.a = Ref<Agg>(a);
    if (auto* st = dyn_cast<StructType>(T)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) a->v.push_back(loadVal(s, addr + sl->getElementOffset(i), st->getElementType(i)));
    } else if (auto* at = dyn_cast<ArrayType>(T)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) a->v.push_back(loadVal(s, addr + i * es, at->getElementType()));
    } else if (auto* vt = dyn_cast<FixedVectorType>(T)) {
        uint64_t es = DL->getTypeStoreSize(vt->getElementType());
        for (unsigned i = 0; i < vt->getNumElements(); i++) a->v.push_back(loadVal(s, addr + i * es, vt->getElementType()));
    } else { fprintf(stderr, "amsym: load of unsupported type\n"); exit(3); }
    return r;
}
void storeVal(State& s, uint64_t addr, Type* T, const Val& v) {
    if (unsigned w = scalarW(T)) { storeScalar(s, addr, w, v); return; }
    if (!v.a) { // undef aggregate
        uint64_t off, n = DL->getTypeStoreSize(T);
        Obj* o = access(s, addr, n, true, off);
        if (o->s.empty()) o->s.assign(o->size, nullptr);
        for (uint64_t i = 0; i < n; i++) o->s[off + i] = UNDEF_E;
        return;
    }
    if (auto* st = dyn_cast<StructType>(T)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) storeVal(s, addr + sl->getElementOffset(i), st->getElementType(i), v.a->v[i]);
    } else if (auto* at = dyn_cast<ArrayType>(T)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) storeVal(s, addr + i * es, at->getElementType(), v.a->v[i]);
    } else if (auto* vt = dyn_cast<FixedVectorType>(T)) {
        uint64_t es = DL->getTypeStoreSize(vt->getElementType());
        for (unsigned i = 0; i < vt->getNumElements(); i++) storeVal(s, addr + i * es, vt->getElementType(), v.a->v[i]);
    } else { fprintf(stderr, "amsym: store of unsupported type\n"); exit(3); }
}
void copyBytes(State& s, uint64_t d, uint64_t src, uint64_t n, bool overlapOk) {
    if (!n) return;
    if (!overlapOk && d != src && d < src + n && src < d + n) violation(s, "memory", "memcpy between overlapping ranges");
    uint64_t so, dof;
    Obj* a = access(s, src, n, false, so);
    std::vector<uint8_t> b(a->b.begin() + so, a->b.begin() + so + n);
    std::vector<E> e;
    if (!a->s.empty()) e.assign(a->s.begin() + so, a->s.begin() + so + n);
    Obj* o = access(s, d, n, true, dof);
    memcpy(&o->b[dof], b.data(), n);
    bool any = false;
    for (E x : e) if (x) { any = true; break; }
    if (any) { if (o->s.empty()) o->s.assign(o->size, nullptr); for (uint64_t i = 0; i < n; i++) o->s[dof + i] = e[i]; }
    else if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[dof + i] = nullptr;
}
void fillBytes(State& s, uint64_t d, const Val& v, uint64_t n) {
    if (!n) return;
    uint64_t off;
    Obj* o = access(s, d, n, true, off);
    if (v.isC()) {
        memset(&o->b[off], (int)(v.c & 255), n);
        if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[off + i] = nullptr;
    } else {
        E b = toE(v, 8);
        if (b->w > 8) b = mkExtract(b, 0, 8);
        if (o->s.empty()) o->s.assign(o->size, nullptr);
        for (uint64_t i = 0; i < n; i++) o->s[off + i] = b;
    }
}
