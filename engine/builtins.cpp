// amsym: engine API, allocation, intrinsics.
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }

static uint64_t num(State& s, Val& v, unsigned w, const char* why) {
    if (v.isC()) return v.c;
    if (v.e == UNDEF_E) violation(s, "uninit", std::string(why) + " is uninitialised");
    uint64_t r;
    concretize(s, v.e, r, why);
    return r;
}
static std::string cstr(State& s, uint64_t a) {
    std::string r;
    for (int i = 0; i < 400; i++) {
        uint64_t off;
        Obj* o = access(s, a + i, 1, false, off);
        if (!o->s.empty() && o->s[off]) { r += '?'; continue; }
        if (!o->b[off]) break;
        r += (char)o->b[off];
    }
    return r;
}

static void heapFree(State& s, uint64_t p, OK kind, const char* how) {
    if (!p) return;
    int i = findObj(s, p);
    if (i < 0 || s.mem[i].addr != p) {
        for (auto& f : s.freed) if (f.first == p) violation(s, "memory", std::string("double ") + how + " of a block of " + std::to_string(f.second) + " bytes");
        violation(s, "memory", std::string(how) + " of a pointer that is not the start of an allocated block");
    }
    OK k = s.mem[i].o->kind;
    if (k == OK::Global || k == OK::Stack) violation(s, "memory", std::string(how) + " of memory that is not on the heap");
    if (k != kind) violation(s, "memory", std::string("allocation mismatch: ") + how + " of a block obtained by " + (k == OK::Malloc ? "malloc" : k == OK::New ? "operator new" : "operator new[]"));
    if (s.th.size() > 1) onPlain(s, p, s.mem[i].o->size, true);
    s.freed.push_back({p, s.mem[i].o->size});
    s.mem.erase(s.mem.begin() + i);
}
static uint64_t heapAlloc(State& s, uint64_t n, uint64_t al, OK k, const Instruction* I, bool uninit = true) {
    s.nalloc++;
    // attribute the block to the innermost frames that are not standard library
    std::string d = "heap block";
    static std::unordered_map<const Instruction*, uint32_t> sites;
    const Instruction* at = I;
    auto& fr = s.th[s.cur].fr;
    for (size_t i = fr.size(); i-- > 0;) if (fr[i]->fn->repo) { uint32_t pc = fr[i]->pc; if (i + 1 < fr.size() && pc) pc--; at = fr[i]->fn->code[pc].I; break; }
    auto it = sites.find(at);
    if (it == sites.end()) it = sites.emplace(at, siteOf("heap block allocated in " + locOf(at))).first;
    return allocObj(s, n, al, k, it->second, nullptr, uninit);
}

static void ret(State& s, const Inst& x, const Val& v) {
    Frame* f = top(s);
    if (x.dst >= 0) f->r[x.dst] = v;
    f->pc++;
}

E isNaN(E);

void callBuiltin(State& s, const Inst& x, int b, std::vector<Val>& args) {
    auto A = [&](int i, const char* why) { return num(s, args[i], 64, why); };
    unsigned w = x.w;
    auto ew = [&](int i) { unsigned k = 0; Type* T = cast<CallBase>(x.I)->getArgOperand(i)->getType(); k = T->isPointerTy() ? 64 : T->isIntegerTy() ? T->getIntegerBitWidth() : T->getPrimitiveSizeInBits(); return k; };
    auto X = [&](int i) { return toE(args[i], ew(i)); };
    switch (b) {
    case B_nop: ret(s, x, Val::C(0)); return;
    case B_ret0: ret(s, x, Val::C(0)); return;
    case B_symbolic: {
        uint64_t p = A(0, "amsym_symbolic address"), n = A(1, "amsym_symbolic size");
        std::string nm = cstr(s, A(2, "name"));
        int k = s.occ.mut()->m[nm]++;
        nm += "#" + std::to_string(k);
        if (n == 1 || n == 2 || n == 4 || n == 8) {
            E e = mkVar(nm, 8 * n);
            s.inputs.push_back({e->aux, nm});
            uint64_t off;
            Obj* o = access(s, p, n, true, off);
            if (o->s.empty()) o->s.assign(o->size, nullptr);
            for (uint64_t i = 0; i < n; i++) o->s[off + i] = mkExtract(e, 8 * i, 8);
        } else {
            for (uint64_t i = 0; i < n; i++) {
                E e = mkVar(nm + "." + std::to_string(i), 8);
                s.inputs.push_back({e->aux, nm + "." + std::to_string(i)});
                uint64_t off;
                Obj* o = access(s, p + i, 1, true, off);
                if (o->s.empty()) o->s.assign(o->size, nullptr);
                o->s[off] = e;
            }
        }
        ret(s, x, Val::C(0));
        return;
    }
    case B_range: {   // amsym_range(lo, hi, name): a symbolic integer in [lo, hi), one variable
        uint64_t lo = A(0, "lo"), hi = A(1, "hi");
        std::string nm = cstr(s, A(2, "name"));
        int k = s.occ->m.count(nm) ? s.occ->m[nm] : 0;
        std::string full = nm + "#" + std::to_string(k);
        E e = mkVar(full, 64);
        s.occ.mut()->m[nm]++;
        s.inputs.push_back({e->aux, full});
        E c = mkAnd(mkUle(mkConst(lo, 64), e), mkUlt(e, mkConst(hi, 64)));
        Model m;
        State t(s);
        if (!feasible(s, c, m)) throw PathEnd();
        s.m = m;
        addConstraint(s, c);
        ret(s, x, Val::X(e));
        return;
    }
    case B_assume: {
        Val v = args[0];
        if (v.isC()) { if (!(v.c & m64(ew(0)))) { gStats.killed++; throw PathEnd(); } ret(s, x, Val()); return; }
        E c = mkNot(mkEq(toE(v, ew(0)), mkConst(0, ew(0))));
        Model m;
        if (!feasible(s, c, m)) { gStats.killed++; throw PathEnd(); }
        s.m = m;
        addConstraint(s, c);
        ret(s, x, Val());
        return;
    }
    case B_assert: {
        gStats.asserts++;
        Val v = args[0];
        std::string msg;
        if (v.isC()) {
            if (!(v.c & m64(ew(0)))) violation(s, "assert", cstr(s, A(1, "msg")));
            ret(s, x, Val());
            return;
        }
        gStats.symAsserts++;
        if (v.e == UNDEF_E) violation(s, "uninit", "an asserted value is uninitialised: " + cstr(s, A(1, "msg")));
        E bad = mkEq(v.e, mkConst(0, ew(0)));
        if (!bad->isFalse()) checkNot(s, bad, "assert", cstr(s, A(1, "msg")));
        ret(s, x, Val());
        return;
    }
    case B_observe: s.obs.push_back(args[0].isC() ? std::make_pair((E)nullptr, args[0].c) : std::make_pair(X(0), (uint64_t)0)); ret(s, x, Val()); return;
    case B_cover: gCovers.insert(cstr(s, A(0, "cover"))); ret(s, x, Val()); return;
    case B_note: if (cfg.verbose) fprintf(stderr, "note: %s\n", cstr(s, A(0, "note")).c_str()); ret(s, x, Val()); return;
    case B_param: {
        std::string n = cstr(s, A(0, "param"));
        auto it = cfg.params.find(n);
        uint64_t d = A(1, "param default");
        ret(s, x, Val::C((it == cfg.params.end() ? d : (uint64_t)it->second) & m64(w)));
        return;
    }
    case B_is_native: ret(s, x, Val::C(0)); return;
    case B_heap_live: case B_leaks: case B_mark_heap: {
        uint64_t n = 0;
        std::string first;
        if (b == B_mark_heap) { s.heapMark = s.bump; ret(s, x, Val()); return; }
        for (auto& sl : s.mem) if (sl.addr >= s.heapMark && sl.o->kind != OK::Global && sl.o->kind != OK::Stack) { if (!n) first = siteName[sl.o->site] + " (" + std::to_string(sl.o->size) + " bytes)"; n++; }
        if (b == B_leaks) { if (n) violation(s, "leak", std::to_string(n) + " block(s) never freed, first: " + first); ret(s, x, Val()); }
        else ret(s, x, Val::C(n));
        return;
    }
    case B_alloc_count: ret(s, x, Val::C(s.nalloc)); return;
    case B_valid: { // is [p, p+n) inside one live object?
        uint64_t p = A(0, "pointer"), n = A(1, "size");
        int i = findObj(s, p);
        ret(s, x, Val::C(i >= 0 && p - s.mem[i].addr + n <= s.mem[i].o->size && !s.mem[i].o->dead));
        return;
    }
    case B_thread_create: {
        uint64_t fp = A(0, "thread function");
        auto it = fnAt.find(fp);
        if (it == fnAt.end()) violation(s, "memory", "thread created with an invalid function pointer");
        int tid = s.th.size();
        if (tid == 1) { s.th[0].vc = {1}; }
        s.th.emplace_back();
        threadCreated(s, tid);
        int cur = s.cur;
        ret(s, x, Val::C(tid));
        s.cur = tid;
        getFn(it->second->F);
        pushFrame(s, it->second, {args[1]}, -1);
        s.cur = cur;
        return;
    }
    case B_thread_join: {
        int t = A(0, "thread id");
        if (t < 0 || t >= (int)s.th.size()) violation(s, "harness", "join of unknown thread");
        Pending p; p.k = PK::Join; p.tid = t;
        if (!visible(s, p)) return;
        vcJoin(s.th[s.cur].vc, s.th[t].vc);
        ret(s, x, Val());
        return;
    }
    case B_thread_self: ret(s, x, Val::C(s.cur)); return;
    case B_sync: { // a visible operation on an address, for models of library primitives: acquire and release on it
        uint64_t a = A(0, "sync address");
        if (s.th.size() > 1) {
            Pending p; p.k = PK::Mem; p.addr = a; p.size = 1; p.write = A(1, "write");
            if (!visible(s, p)) return;
            SyncMap* sm = s.sync.mut();
            VC& L = sm->loc[a];
            Thread& t = s.th[s.cur];
            vcJoin(t.vc, L);
            if (p.write || A(1, "write")) { vcJoin(L, t.vc); t.vc[s.cur]++; }
            t.polls.clear();
        }
        ret(s, x, Val());
        return;
    }
    case B_yield: ret(s, x, Val::C(0)); return;
    case B_mutex_lock: case B_mutex_trylock: {
        uint64_t a = A(0, "mutex");
        Pending p; p.k = b == B_mutex_lock ? PK::Lock : PK::TryLock; p.addr = a; p.size = 1; p.write = true;
        if (b == B_mutex_lock) { auto& mx = s.sync->mx; auto it = mx.find(a); if (it != mx.end() && it->second.owner == s.cur) violation(s, "deadlock", "a thread locks a non-recursive mutex it already holds"); }
        if (!visible(s, p)) return;
        auto& m = s.sync.mut()->mx[a];
        Thread& t = s.th[s.cur];
        t.polls.clear();
        if (m.owner >= 0) { ret(s, x, Val::C(0)); return; }
        m.owner = s.cur;
        vcJoin(t.vc, m.vc);
        ret(s, x, Val::C(1));
        return;
    }
    case B_mutex_unlock: {
        uint64_t a = A(0, "mutex");
        Pending p; p.k = PK::Unlock; p.addr = a; p.size = 1; p.write = true;
        if (!visible(s, p)) return;
        auto& m = s.sync.mut()->mx[a];
        if (m.owner != s.cur) violation(s, "mutex", "unlock of a mutex the thread does not hold");
        m.owner = -1;
        Thread& t = s.th[s.cur];
        if ((int)t.vc.size() <= s.cur) t.vc.resize(s.cur + 1, 1);
        m.vc = t.vc;
        t.vc[s.cur]++;
        t.polls.clear();
        ret(s, x, Val::C(0));
        return;
    }
    case B_mutex_owner: { auto& mx = s.sync->mx; auto it = mx.find(A(0, "mutex")); ret(s, x, Val::C((uint64_t)(it == mx.end() ? -1 : it->second.owner) & m64(w))); return; }
    // ---- allocation
    case B_malloc: case B_new: case B_newarr: {
        uint64_t n = A(0, "allocation size");
        if (n > cfg.maxAlloc) {
            // larger than any bound used: fails, as it would for sizes no system can satisfy
            if (b == B_malloc || cast<CallBase>(x.I)->arg_size() > 1) { ret(s, x, Val::C(0)); return; }
            violation(s, "throw", "operator new of " + std::to_string(n) + " bytes throws std::bad_alloc");
        }
        ret(s, x, Val::C(heapAlloc(s, n, 16, b == B_malloc ? OK::Malloc : b == B_new ? OK::New : OK::NewArr, x.I)));
        return;
    }
    case B_new_al: case B_newarr_al: { uint64_t n = A(0, "allocation size"), al = A(1, "alignment"); ret(s, x, Val::C(heapAlloc(s, n, al, b == B_new_al ? OK::New : OK::NewArr, x.I))); return; }
    case B_aligned_alloc: { uint64_t al = A(0, "alignment"), n = A(1, "allocation size"); ret(s, x, Val::C(heapAlloc(s, n, al, OK::Malloc, x.I))); return; }
    case B_posix_memalign: {
        uint64_t pp = A(0, "pointer"), al = A(1, "alignment"), n = A(2, "allocation size");
        uint64_t r = heapAlloc(s, n, al, OK::Malloc, x.I);
        uint64_t off; Obj* o = access(s, pp, 8, true, off);
        for (int i = 0; i < 8; i++) { o->b[off + i] = r >> (8 * i); if (!o->s.empty()) o->s[off + i] = nullptr; }
        ret(s, x, Val::C(0));
        return;
    }
    case B_calloc: {
        uint64_t n = A(0, "calloc count"), k = A(1, "calloc size");
        u128 t = (u128)n * k;
        if (t > cfg.maxAlloc) { ret(s, x, Val::C(0)); return; }
        ret(s, x, Val::C(heapAlloc(s, (uint64_t)t, 16, OK::Malloc, x.I, false)));
        return;
    }
    case B_realloc: {
        uint64_t p = A(0, "pointer"), n = A(1, "allocation size");
        if (n > cfg.maxAlloc) { ret(s, x, Val::C(0)); return; }
        uint64_t q = heapAlloc(s, n, 16, OK::Malloc, x.I);
        if (p) {
            int i = findObj(s, p);
            if (i < 0 || s.mem[i].addr != p || s.mem[i].o->kind != OK::Malloc) violation(s, "memory", "realloc of a pointer that is not an allocated block");
            copyBytes(s, q, p, std::min(n, s.mem[i].o->size), true);
            heapFree(s, p, OK::Malloc, "free");
        }
        ret(s, x, Val::C(q));
        return;
    }
    case B_free: heapFree(s, A(0, "pointer"), OK::Malloc, "free"); ret(s, x, Val()); return;
    case B_del: heapFree(s, A(0, "pointer"), OK::New, "delete"); ret(s, x, Val()); return;
    case B_delarr: heapFree(s, A(0, "pointer"), OK::NewArr, "delete[]"); ret(s, x, Val()); return;
    // ---- memory
    case B_memcpy: case B_memmove: {
        uint64_t n = A(2, "copy length");
        if (n) {
            uint64_t d = A(0, "copy destination"), c = A(1, "copy source");
            if (s.th.size() > 1 && !top(s)->fn->rt) { onPlain(s, c, n, false); onPlain(s, d, n, true); }
            if (b == B_memcpy && d == c && x.callee && x.callee->isIntrinsic()) {}   // self copy: allowed by the intrinsic
            else copyBytes(s, d, c, n, b == B_memmove);
            if (x.callee && x.callee->isIntrinsic()) {
                auto* mi = cast<MemIntrinsic>(x.I);
                if (mi->getDestAlign() && d % mi->getDestAlign()->value()) violation(s, "alignment", "misaligned copy destination: address is not a multiple of " + std::to_string(mi->getDestAlign()->value()));
            }
        }
        ret(s, x, args[0]);
        return;
    }
    case B_memset: {
        uint64_t n = A(2, "fill length");
        if (n) { uint64_t d = A(0, "fill destination"); if (s.th.size() > 1 && !top(s)->fn->rt) onPlain(s, d, n, true); fillBytes(s, d, args[1], n); }
        ret(s, x, args[0]);
        return;
    }
    // ---- termination
    case B_finish: pathDone(s); throw PathEnd();
    case B_abort: violation(s, "abort", "the program calls abort or terminate");
    case B_assert_fail: violation(s, "assertion", "assertion in the code fails: " + (args.size() && args[0].isC() ? cstr(s, (x.callee && x.callee->getName().contains("glibcxx") && args.size() > 3) ? args[3].c : args[0].c) : std::string("?")));
    case B_throw: violation(s, "throw", "library throws: " + demangle(x.callee->getName().str()));
    case B_exit: violation(s, "exit", "the program calls exit");
    case B_purevirt: violation(s, "memory", "pure virtual function called");
    case B_trap: violation(s, "trap", "undefined arithmetic, or a trap instruction");
    // ---- intrinsics
    case B_lifetime_start: case B_lifetime_end: {
        uint64_t p = A(1, "lifetime");
        int i = findObj(s, p);
        if (i >= 0 && s.mem[i].addr == p && s.mem[i].o->kind == OK::Stack) {
            Obj* o = s.mem[i].o.mut();
            if (b == B_lifetime_start) { o->dead = false; o->s.assign(o->size, UNDEF_E); }
            else o->dead = true;
        }
        ret(s, x, Val());
        return;
    }
    case B_stacksave: ret(s, x, Val::C(0)); return;
    case B_expect: ret(s, x, args[0]); return;
    case B_isconst: ret(s, x, Val::C(0)); return;
    case B_objectsize: { bool mn = args[1].isC() && (args[1].c & 1); ret(s, x, Val::C(mn ? 0 : m64(w))); return; }
    case B_ctlz: case B_cttz: {
        bool poison = args[1].isC() && (args[1].c & 1);
        if (args[0].isC() && w <= 64) {
            uint64_t v = args[0].c;
            if (!v) { if (poison && top(s)->fn->repo) violation(s, "arithmetic", "bit scan of zero is undefined"); ret(s, x, Val::C(w)); return; }
            ret(s, x, Val::C(b == B_ctlz ? __builtin_clzll(v) - (64 - w) : __builtin_ctzll(v)));
            return;
        }
        E v = X(0);
        if (poison && top(s)->fn->repo) checkNot(s, mkEq(v, mkConst(0, w)), "arithmetic", "bit scan of zero is undefined");
        E r = mkConst(w, w);
        if (b == B_ctlz) for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(v, i, 1), mkConst(w - 1 - i, w), r);
        else for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(v, i, 1), mkConst(i, w), r);
        ret(s, x, Val::X(r));
        return;
    }
    case B_ctpop: {
        if (args[0].isC()) { ret(s, x, Val::C(__builtin_popcountll(args[0].c))); return; }
        E v = X(0), r = mkConst(0, w);
        for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(v, i, 1), w));
        ret(s, x, Val::X(r));
        return;
    }
    case B_bswap: { E v = X(0), r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E by = mkExtract(v, 8 * i, 8); r = r ? mkConcat(r, by) : by; } ret(s, x, Val::X(r)); return; }
    case B_bitreverse: { E v = X(0), r = nullptr; for (unsigned i = 0; i < w; i++) { E by = mkExtract(v, i, 1); r = r ? mkConcat(r, by) : by; } ret(s, x, Val::X(r)); return; }
    case B_sadd_o: case B_uadd_o: case B_ssub_o: case B_usub_o: case B_smul_o: case B_umul_o: {
        unsigned k = ew(0);
        E p = X(0), q = X(1);
        bool sg = b == B_sadd_o || b == B_ssub_o || b == B_smul_o;
        Op op = (b == B_sadd_o || b == B_uadd_o) ? Op::Add : (b == B_ssub_o || b == B_usub_o) ? Op::Sub : Op::Mul;
        unsigned ww = op == Op::Mul ? 2 * k : k + 1;
        if (ww > 128) { gIncomplete.insert("overflow intrinsic too wide"); throw PathEnd(); }
        E r = mkBin(op, p, q);
        E wide = mkBin(op, sg ? mkSExt(p, ww) : mkZExt(p, ww), sg ? mkSExt(q, ww) : mkZExt(q, ww));
        E o = mkNot(mkEq(wide, sg ? mkSExt(r, ww) : mkZExt(r, ww)));
        Agg* ag = new Agg;
        ag->v.push_back(Val::X(r));
        ag->v.push_back(Val::X(o));
        Val v;
        v.a = Ref<Agg>(ag);
        ret(s, x, v);
        return;
    }
    case B_smax: ret(s, x, Val::X(mkIte(mkSlt(X(0), X(1)), X(1), X(0)))); return;
    case B_smin: ret(s, x, Val::X(mkIte(mkSlt(X(0), X(1)), X(0), X(1)))); return;
    case B_umax: ret(s, x, Val::X(mkIte(mkUlt(X(0), X(1)), X(1), X(0)))); return;
    case B_umin: ret(s, x, Val::X(mkIte(mkUlt(X(0), X(1)), X(0), X(1)))); return;
    case B_abs: {
        E p = X(0), z = mkConst(0, w);
        bool poison = args[1].isC() && (args[1].c & 1);
        if (poison && top(s)->fn->repo) checkNot(s, mkEq(p, mkConst((u128)1 << (w - 1), w)), "arithmetic", "absolute value of the smallest integer overflows");
        ret(s, x, Val::X(mkIte(mkSlt(p, z), mkSub(z, p), p)));
        return;
    }
    case B_fshl: case B_fshr: {
        E hi = X(0), lo = X(1), sh = mkBin(Op::URem, X(2), mkConst(w, w));
        if (2 * w > 128) { gIncomplete.insert("funnel shift too wide"); throw PathEnd(); }
        E cat = mkConcat(hi, lo), sz = mkZExt(sh, 2 * w);
        E r = b == B_fshl ? mkExtract(mkBin(Op::Shl, cat, sz), w, w) : mkExtract(mkBin(Op::LShr, cat, sz), 0, w);
        ret(s, x, Val::X(r));
        return;
    }
    case B_uadd_sat: { E r = mkAdd(X(0), X(1)); ret(s, x, Val::X(mkIte(mkUlt(r, X(0)), mkConst(maskw(w), w), r))); return; }
    case B_usub_sat: { E p = X(0), q = X(1); ret(s, x, Val::X(mkIte(mkUlt(p, q), mkConst(0, w), mkSub(p, q)))); return; }
    case B_ptrmask: ret(s, x, Val::X(mkAnd(X(0), X(1)))); return;
    case B_fabs: ret(s, x, Val::X(mkAnd(toE(args[0], w), mkConst(maskw(w) >> 1, w)))); return;
    case B_copysign: ret(s, x, Val::X(mkOr(mkAnd(toE(args[0], w), mkConst(maskw(w) >> 1, w)), mkAnd(toE(args[1], w), mkConst((u128)1 << (w - 1), w))))); return;
    case B_fmuladd: ret(s, x, Val::X(mkFP(Op::FAdd, mkFP(Op::FMul, toE(args[0], w), toE(args[1], w), w), toE(args[2], w), w))); return;
    case B_isfpclass: {
        unsigned k = cast<CallBase>(x.I)->getArgOperand(0)->getType()->getPrimitiveSizeInBits(), man = k == 32 ? 23 : 52;
        E v = toE(args[0], k);
        unsigned mask = args[1].c;
        E sign = mkExtract(v, k - 1, 1), mag = mkExtract(v, 0, k - 1);
        u128 inf = ((((u128)1 << (k - 1 - man)) - 1) << man), q = inf | ((u128)1 << (man - 1)), mn = (u128)1 << man;
        auto C = [&](u128 c) { return mkConst(c, k - 1); };
        E isnan = mkUlt(C(inf), mag), isq = mkNot(mkUlt(mag, C(q))), isinf = mkEq(mag, C(inf)), iszero = mkEq(mag, C(0)), issub = mkAnd(mkNot(iszero), mkUlt(mag, C(mn))), isnorm = mkAnd(mkNot(mkUlt(mag, C(mn))), mkUlt(mag, C(inf)));
        E r = mkBool(false), ns = mkNot(sign);
        if (mask & 1) r = mkOr(r, mkAnd(isnan, mkNot(isq)));
        if (mask & 2) r = mkOr(r, isq);
        if (mask & 4) r = mkOr(r, mkAnd(isinf, sign));
        if (mask & 8) r = mkOr(r, mkAnd(isnorm, sign));
        if (mask & 16) r = mkOr(r, mkAnd(issub, sign));
        if (mask & 32) r = mkOr(r, mkAnd(iszero, sign));
        if (mask & 64) r = mkOr(r, mkAnd(iszero, ns));
        if (mask & 128) r = mkOr(r, mkAnd(issub, ns));
        if (mask & 256) r = mkOr(r, mkAnd(isnorm, ns));
        if (mask & 512) r = mkOr(r, mkAnd(isinf, ns));
        ret(s, x, Val::X(r));
        return;
    }
    case B_va_start: {
        uint64_t p = A(0, "va_list");
        uint64_t va = top(s)->va;
        Type* I32 = Type::getInt32Ty(x.I->getContext());
        Type* I64 = Type::getInt64Ty(x.I->getContext());
        storeVal(s, p, I32, Val::C(48));
        storeVal(s, p + 4, I32, Val::C(176));
        storeVal(s, p + 8, I64, Val::C(va));
        storeVal(s, p + 16, I64, Val::C(0));
        ret(s, x, Val());
        return;
    }
    case B_va_copy: copyBytes(s, A(0, "va_list"), A(1, "va_list"), 24, true); ret(s, x, Val()); return;
    case B_tls: {
        if (s.cur == 0) { ret(s, x, args[0]); return; }
        // other threads: a copy per thread, found through a table kept in the sync map
        uint64_t g = A(0, "thread-local");
        auto& loc = s.sync.mut()->loc[(uint64_t)1 << 63 | g << 6 | (unsigned)s.cur];
        if (loc.empty()) {
            int i = findObj(s, g);
            uint64_t n = s.mem[i].o->size;
            const auto* gv = cast<GlobalVariable>(s.mem[i].o->v);
            uint64_t a = allocObj(s, n, 16, OK::Stack, s.mem[i].o->site, nullptr, false);
            if (gv->hasInitializer() && !gv->getInitializer()->isNullValue()) { gIncomplete.insert("thread_local with non-zero initialiser"); throw PathEnd(); }
            loc = {(uint32_t)a, (uint32_t)(a >> 32)};
        }
        ret(s, x, Val::C(loc[0] | (uint64_t)loc[1] << 32));
        return;
    }
    }
    gIncomplete.insert("unsupported builtin at " + curLoc(s));
    throw PathEnd();
}
