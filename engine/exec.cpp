// amsym: the instruction interpreter.
#include "exec.h"
#include <llvm/IR/Constants.h>
using namespace llvm;
extern std::set<uint32_t> gUninitVars;

static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); return (int64_t)((v ^ m) - m); }

static inline Val& get(State& s, Frame* f, Opnd o) { return o.i >= 0 ? f->r[o.i] : consts[~o.i]; }

std::string curLoc(State& s) {
    auto& t = s.th[s.cur];
    if (t.fr.empty()) return "?";
    Frame* f = t.fr.back().p;
    // innermost frame that is not in the runtime library or system headers
    for (size_t i = t.fr.size(); i-- > 0;) {
        Frame* g = t.fr[i].p;
        uint32_t pc = g->pc;
        if (i + 1 < t.fr.size() && pc) pc--;
        if (pc >= g->fn->code.size()) continue;
        if (g->fn->repo || i == 0) return locOf(g->fn->code[pc].I);
    }
    return locOf(f->fn->code[std::min<size_t>(f->pc, f->fn->code.size() - 1)].I);
}

Frame* pushFrame(State& s, Fn* f, const std::vector<Val>& args, int dst) {
    Frame* fr = new Frame;
    fr->fn = f;
    fr->pc = f->entry;
    fr->r.resize(f->nslots);
    size_t na = f->F->arg_size();
    for (size_t i = 0; i < na && i < args.size(); i++) fr->r[i] = args[i];
    fr->dst = dst;
    f->hits++;
    s.th[s.cur].fr.push_back(Ref<Frame>(fr));
    if (s.th[s.cur].fr.size() > 400) violation(s, "recursion", "call depth exceeds 400 frames");
    return fr;
}

static void popFrame(State& s) {
    Frame* f = s.th[s.cur].fr.back().p;
    for (auto a : f->allocas) {
        int i = findObj(s, a);
        if (i >= 0 && s.mem[i].addr == a) s.mem.erase(s.mem.begin() + i);
    }
    s.th[s.cur].fr.pop_back();
}

static void take(State& s, const Edge& e) {
    Frame* f = top(s);
    if (e.mv.size() == 1) f->r[e.mv[0].dst] = get(s, f, e.mv[0].src);
    else if (!e.mv.empty()) {
        std::vector<Val> t;
        t.reserve(e.mv.size());
        for (auto& m : e.mv) t.push_back(get(s, f, m.src));
        for (size_t i = 0; i < t.size(); i++) f->r[e.mv[i].dst] = std::move(t[i]);
    }
    f->pc = e.pc;
}

static E bin(Op op, E a, E b) { return mkBin(op, a, b); }

static Val doBin(State& s, const Inst& x, const Val& va, const Val& vb, bool strict) {
    unsigned w = x.w;
    bool isF = x.sub == Instruction::FAdd || x.sub == Instruction::FSub || x.sub == Instruction::FMul || x.sub == Instruction::FDiv || x.sub == Instruction::FRem;
    if (va.isC() && vb.isC() && w <= 64 && !isF) {
        uint64_t a = va.c, b = vb.c, r = 0;
        int64_t sa = sx(a, w), sb = sx(b, w);
        bool ov = false;
        switch (x.sub) {
        case Instruction::Add: r = a + b; if (strict && x.nsw) ov = (s128)sa + sb != (s128)sx(r & m64(w), w); break;
        case Instruction::Sub: r = a - b; if (strict && x.nsw) ov = (s128)sa - sb != (s128)sx(r & m64(w), w); break;
        case Instruction::Mul: r = a * b; if (strict && x.nsw) ov = (s128)sa * sb != (s128)sx(r & m64(w), w); break;
        case Instruction::UDiv: if (!b) violation(s, "arithmetic", "division by zero"); r = a / b; break;
        case Instruction::URem: if (!b) violation(s, "arithmetic", "division by zero"); r = a % b; break;
        case Instruction::SDiv: case Instruction::SRem:
            if (!b) violation(s, "arithmetic", "division by zero");
            if (sb == -1) { if (a == (1ull << (w - 1))) violation(s, "arithmetic", "signed division overflow"); r = x.sub == Instruction::SDiv ? (uint64_t)-sa : 0; }
            else r = x.sub == Instruction::SDiv ? sa / sb : sa % sb;
            break;
        case Instruction::And: r = a & b; break;
        case Instruction::Or: r = a | b; break;
        case Instruction::Xor: r = a ^ b; break;
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            if (b >= w) { if (strict) violation(s, "arithmetic", "shift by " + std::to_string(b) + " bits of a " + std::to_string(w) + "-bit value"); r = 0; break; }
            r = x.sub == Instruction::Shl ? a << b : x.sub == Instruction::LShr ? a >> b : (uint64_t)(sa >> b);
            break;
        }
        if (ov) violation(s, "arithmetic", "signed integer overflow");
        return Val::C(r & m64(w));
    }
    E a = toE(va, w), b = toE(vb, w);
    E z = mkConst(0, w);
    auto ovf = [&](Op op) {
        if (!strict || !x.nsw) return;
        unsigned ww = op == Op::Mul ? 2 * w : w + 1;
        if (ww > 128) return;
        E wide = bin(op, mkSExt(a, ww), mkSExt(b, ww));
        E nar = mkSExt(bin(op, a, b), ww);
        checkNot(s, mkNot(mkEq(wide, nar)), "arithmetic", "signed integer overflow");
    };
    switch (x.sub) {
    case Instruction::Add: ovf(Op::Add); return Val::X(mkAdd(a, b));
    case Instruction::Sub: ovf(Op::Sub); return Val::X(mkSub(a, b));
    case Instruction::Mul: ovf(Op::Mul); return Val::X(mkMul(a, b));
    case Instruction::UDiv: checkNot(s, mkEq(b, z), "arithmetic", "division by zero"); return Val::X(bin(Op::UDiv, a, b));
    case Instruction::URem: checkNot(s, mkEq(b, z), "arithmetic", "division by zero"); return Val::X(bin(Op::URem, a, b));
    case Instruction::SDiv: case Instruction::SRem: {
        checkNot(s, mkEq(b, z), "arithmetic", "division by zero");
        E mn = mkConst((u128)1 << (w - 1), w), m1 = mkConst(maskw(w), w);
        checkNot(s, mkAnd(mkEq(a, mn), mkEq(b, m1)), "arithmetic", "signed division overflow");
        return Val::X(bin(x.sub == Instruction::SDiv ? Op::SDiv : Op::SRem, a, b));
    }
    case Instruction::And: return Val::X(mkAnd(a, b));
    case Instruction::Or: return Val::X(mkOr(a, b));
    case Instruction::Xor: return Val::X(mkXor(a, b));
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        if (strict) checkNot(s, mkNot(mkUlt(b, mkConst(w, w))), "arithmetic", "shift exponent too large");
        return Val::X(bin(x.sub == Instruction::Shl ? Op::Shl : x.sub == Instruction::LShr ? Op::LShr : Op::AShr, a, b));
    case Instruction::FAdd: return Val::X(mkFP(Op::FAdd, a, b, w));
    case Instruction::FSub: return Val::X(mkFP(Op::FSub, a, b, w));
    case Instruction::FMul: return Val::X(mkFP(Op::FMul, a, b, w));
    case Instruction::FDiv: return Val::X(mkFP(Op::FDiv, a, b, w));
    }
    fprintf(stderr, "amsym: unsupported binary op\n");
    exit(3);
}

static Val doCmp(const Inst& x, const Val& va, const Val& vb) {
    unsigned w = x.sw;
    if (va.isC() && vb.isC() && w <= 64) {
        uint64_t a = va.c, b = vb.c;
        int64_t p = sx(a, w), q = sx(b, w);
        bool r = false;
        switch (x.sub) {
        case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break;
        case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_UGE: r = a >= b; break;
        case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_ULE: r = a <= b; break;
        case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break;
        case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break;
        }
        return Val::C(r);
    }
    E a = toE(va, w), b = toE(vb, w), r = nullptr;
    switch (x.sub) {
    case CmpInst::ICMP_EQ: r = mkEq(a, b); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(a, b)); break;
    case CmpInst::ICMP_UGT: r = mkUlt(b, a); break; case CmpInst::ICMP_UGE: r = mkUle(b, a); break;
    case CmpInst::ICMP_ULT: r = mkUlt(a, b); break; case CmpInst::ICMP_ULE: r = mkUle(a, b); break;
    case CmpInst::ICMP_SGT: r = mkSlt(b, a); break; case CmpInst::ICMP_SGE: r = mkSle(b, a); break;
    case CmpInst::ICMP_SLT: r = mkSlt(a, b); break; case CmpInst::ICMP_SLE: r = mkSle(a, b); break;
    }
    return Val::X(r);
}

E isNaN(E e) { unsigned w = e->w, m = w == 32 ? 23 : 52; return mkUlt(mkConst((((u128)1 << (w - 1 - m)) - 1) << m, w - 1), mkExtract(e, 0, w - 1)); }

static Val doFCmp(const Inst& x, const Val& va, const Val& vb) {
    unsigned w = x.sw;
    E a = toE(va, w), b = toE(vb, w);
    E uno = mkOr(isNaN(a), isNaN(b)), r = nullptr;
    E lt = mkFP(Op::FLt, a, b, 1), gt = mkFP(Op::FLt, b, a, 1), eq = mkFP(Op::FEq, a, b, 1), le = mkFP(Op::FLe, a, b, 1), ge = mkFP(Op::FLe, b, a, 1);
    switch (x.sub) {
    case CmpInst::FCMP_FALSE: r = mkBool(false); break; case CmpInst::FCMP_TRUE: r = mkBool(true); break;
    case CmpInst::FCMP_OEQ: r = eq; break; case CmpInst::FCMP_OLT: r = lt; break; case CmpInst::FCMP_OGT: r = gt; break; case CmpInst::FCMP_OLE: r = le; break; case CmpInst::FCMP_OGE: r = ge; break;
    case CmpInst::FCMP_ONE: r = mkAnd(mkNot(uno), mkNot(eq)); break; case CmpInst::FCMP_ORD: r = mkNot(uno); break; case CmpInst::FCMP_UNO: r = uno; break;
    case CmpInst::FCMP_UEQ: r = mkOr(uno, eq); break; case CmpInst::FCMP_ULT: r = mkNot(ge); break; case CmpInst::FCMP_UGT: r = mkNot(le); break;
    case CmpInst::FCMP_ULE: r = mkNot(gt); break; case CmpInst::FCMP_UGE: r = mkNot(lt); break; case CmpInst::FCMP_UNE: r = mkNot(eq); break;
    }
    return Val::X(r);
}

static Val doCast(State& s, const Inst& x, const Val& v) {
    unsigned w = x.w, sw = x.sw;
    if (v.e == UNDEF_E) return v;
    switch (x.sub) {
    case Instruction::Trunc: if (v.isC()) return Val::C(v.c & m64(w)); return Val::X(mkExtract(v.e, 0, w));
    case Instruction::ZExt: if (v.isC() && w <= 64) return Val::C(v.c); return Val::X(mkZExt(toE(v, sw), w));
    case Instruction::SExt: if (v.isC() && w <= 64) return Val::C((uint64_t)sx(v.c, sw) & m64(w)); return Val::X(mkSExt(toE(v, sw), w));
    case Instruction::PtrToInt: if (w == 64) return v; if (w < 64) return v.isC() ? Val::C(v.c & m64(w)) : Val::X(mkExtract(v.e, 0, w)); return Val::X(mkZExt(toE(v, sw), w));
    case Instruction::IntToPtr: if (sw == 64) return v; if (sw < 64) return v.isC() ? v : Val::X(mkZExt(v.e, 64)); return Val::X(mkExtract(v.e, 0, 64));
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
    case Instruction::FPExt: return Val::X(mkFP(Op::FExt, toE(v, sw), nullptr, w));
    case Instruction::FPTrunc: return Val::X(mkFP(Op::FTrunc, toE(v, sw), nullptr, w));
    case Instruction::SIToFP: return Val::X(mkFP(Op::SIToF, toE(v, sw), nullptr, w));
    case Instruction::UIToFP: return Val::X(mkFP(Op::UIToF, toE(v, sw), nullptr, w));
    case Instruction::FPToSI: return Val::X(mkFP(Op::FToSI, toE(v, sw), nullptr, w));
    case Instruction::FPToUI: return Val::X(mkFP(Op::FToUI, toE(v, sw), nullptr, w));
    }
    fprintf(stderr, "amsym: unsupported cast at %s\n", curLoc(s).c_str());
    exit(3);
}

static uint64_t ptrVal(State& s, Val& v, const char* why) {
    if (v.isC()) return v.c;
    if (v.e == UNDEF_E) violation(s, "uninit", std::string(why) + " through an uninitialised pointer");
    uint64_t a;
    concretize(s, v.e, a, why);
    return a;
}

static void alignCheck(State& s, uint64_t a, uint32_t al, const char* what) {
    if (al > 1 && a % al) violation(s, "alignment", std::string("misaligned ") + what + ": address is not a multiple of " + std::to_string(al));
}

static Val rdPtr(State& s, Frame* f, Opnd o) { return get(s, f, o); }

// Load through a symbolic address into a table of constants: one expression per run of entries that are equal or rise in step.
static bool tableLoad(State& s, const Inst& x, E a, const std::vector<uint64_t>& vs, Val& out) {
    struct Ent { uint64_t at, val; };
    std::vector<Ent> es;
    for (auto v : vs) {
        int i = findObj(s, v);
        bool bad = i < 0 || v - s.mem[i].addr + (x.w + 7) / 8 > s.mem[i].o->size || s.mem[i].o->dead || v % x.align;
        if (!bad && i >= 0 && !es.empty() && findObj(s, es[0].at) != i) bad = true;
        if (bad) {
            Model m;
            if (feasible(s, mkEq(a, mkConst(v, 64)), m)) return false;
            continue;
        }
        E q = toE(loadVal(s, v, x.ty), x.w);
        if (!q->isConst()) return false;
        es.push_back({v, q->u64()});
    }
    if (es.size() < 2) return false;
    uint64_t mask = x.w == 64 ? ~0ull : (1ull << x.w) - 1, step = es[1].at - es[0].at;
    E r = nullptr;
    int runs = 0;
    for (size_t i = 0; i < es.size();) {
        size_t j = i + 1;
        uint64_t d = 0;
        if (j < es.size() && es[j].at - es[i].at == step) {
            d = (es[j].val - es[i].val) & mask;
            if (d != 0 && (d != 1 || (step & (step - 1)))) d = 2;
            if (d != 2) while (j < es.size() && es[j].at - es[j - 1].at == step && ((es[j].val - es[j - 1].val) & mask) == d) j++;
        }
        E q = mkConst(es[i].val, x.w);
        if (j > i + 1 && d == 1) {
            unsigned sh = __builtin_ctzll(step);
            E off = mkBin(Op::LShr, mkSub(a, mkConst(es[i].at, 64)), mkConst(sh, 64));
            q = mkAdd(x.w == 64 ? off : mkExtract(off, 0, x.w), q);
        }
        r = r ? mkIte(mkUlt(a, mkConst(es[i].at, 64)), r, q) : q;
        if (++runs > 64) return false;
        i = j;
    }
    out = Val::X(r);
    return true;
}

// Load through a symbolic address with few possible targets: an if-then-else over them.
static bool iteLoad(State& s, const Inst& x, E a, Val& out) {
    if (!x.w || x.w > 64 || x.ty->isPointerTy()) return false;
    std::vector<uint64_t> vs;
    if (!valueSet(a, vs, 256)) return false;
    if (vs.size() < 2) return false;
    if (vs.size() > 40) return tableLoad(s, x, a, vs, out);
    std::vector<uint64_t> ok;
    for (auto v : vs) {
        Model m;
        if (feasible(s, mkEq(a, mkConst(v, 64)), m)) ok.push_back(v);
    }
    if (ok.empty()) return false;
    for (auto v : ok) {
        int i = findObj(s, v);
        if (i < 0 || v - s.mem[i].addr + (x.w + 7) / 8 > s.mem[i].o->size || s.mem[i].o->dead) return false; // let the fork report it
        if (v % x.align) return false;
    }
    E r = nullptr;
    for (auto v : ok) {
        E q = toE(loadVal(s, v, x.ty), x.w);
        r = r ? mkIte(mkEq(a, mkConst(v, 64)), q, r) : q;
    }
    out = Val::X(r);
    return true;
}

static void doRet(State& s, const Val& v) {
    Thread& t = s.th[s.cur];
    int dst = t.fr.back()->dst;
    Val r = v;
    popFrame(s);
    if (t.fr.empty()) {
        if (s.cur == 0) { throw 1; }   // normal end of path
        finishThread(s);
        return;
    }
    if (dst >= 0) top(s)->r[dst] = r;
}

static void doCall(State& s, const Inst& x) {
    Frame* f = top(s);
    Function* F = x.callee;
    Fn* fn = x.fn;
    int b = x.builtin;
    std::vector<Val> args;
    args.reserve(x.args.size());
    for (auto& o : x.args) args.push_back(get(s, f, o));
    if (!F) {
        Val p = get(s, f, x.a);
        uint64_t a = ptrVal(s, p, "indirect call");
        auto it = fnAt.find(a);
        if (it == fnAt.end()) violation(s, "memory", a < 4096 ? "call through a null function pointer" : "call through an invalid function pointer");
        fn = it->second;
        F = fn->F;
        extern int builtinOf(const Function*);
        b = builtinOf(F);
    }
    if (b != B_none) { callBuiltin(s, x, b, args); return; }
    if (F->isDeclaration()) {
        gIncomplete.insert("call of external function without a model: " + F->getName().str());
        throw PathEnd();
    }
    if (!fn) fn = fnOf[F];
    getFn(F);
    // byval arguments are copied
    auto* cb = cast<CallBase>(x.I);
    std::vector<uint64_t> copies;
    for (unsigned i = 0; i < args.size(); i++) if (cb->isByValArgument(i)) {
        Type* T = cb->getParamByValType(i);
        uint64_t n = DL->getTypeAllocSize(T);
        uint64_t src = ptrVal(s, args[i], "byval argument");
        uint64_t al = cb->getParamAlign(i) ? cb->getParamAlign(i)->value() : 8;
        uint64_t d = allocObj(s, n, al, OK::Stack, siteOf("argument copy"), x.I, true);
        copyBytes(s, d, src, n, true);
        copies.push_back(d);
        args[i] = Val::C(d);
    }
    f = top(s);
    f->pc++;
    // variadic arguments go to an overflow area
    uint64_t va = 0;
    if (F->isVarArg()) {
        size_t na = F->arg_size();
        uint64_t n = 0;
        for (size_t i = na; i < args.size(); i++) n += 16;
        va = allocObj(s, n + 16, 16, OK::Stack, siteOf("variadic arguments"), x.I, true);
        copies.push_back(va);
        uint64_t off = 0;
        for (size_t i = na; i < args.size(); i++) {
            Type* T = cb->getArgOperand(i)->getType();
            uint64_t n2 = DL->getTypeStoreSize(T);
            if (n2 > 8 && off % 16) off += 8;
            if (T->isIntegerTy() && n2 < 8) { // promoted to int at least; upper bits unspecified
                storeVal(s, va + off, T, args[i]);
            } else storeVal(s, va + off, T, args[i]);
            off += (n2 + 7) / 8 * 8;
        }
    }
    Frame* g = pushFrame(s, fn, args, x.dst);
    g->va = va;
    g->allocas = copies;
}

bool runInst(State& s) {
    Frame* f = s.th[s.cur].fr.back().mut();
    const Inst& x = f->fn->code[f->pc];
    s.steps++;
    gStats.instr++;
    switch (x.op) {
    case IC::Bin: f->r[x.dst] = doBin(s, x, get(s, f, x.a), get(s, f, x.b), !f->fn->rt && (f->fn->repo)); f->pc++; return true;
    case IC::Cmp: f->r[x.dst] = doCmp(x, get(s, f, x.a), get(s, f, x.b)); f->pc++; return true;
    case IC::FCmp: f->r[x.dst] = doFCmp(x, get(s, f, x.a), get(s, f, x.b)); f->pc++; return true;
    case IC::Cast: f->r[x.dst] = doCast(s, x, get(s, f, x.a)); f->pc++; return true;
    case IC::FNeg: { Val v = get(s, f, x.a); f->r[x.dst] = Val::X(mkXor(toE(v, x.w), mkConst((u128)1 << (x.w - 1), x.w))); f->pc++; return true; }
    case IC::Freeze: { Val v = get(s, f, x.a); if (v.e == UNDEF_E) v = Val::X(toE(v, x.w)); f->r[x.dst] = v; f->pc++; return true; }
    case IC::Nop: f->pc++; return true;
    case IC::Gep: {
        const Val& b = get(s, f, x.a);
        bool conc = b.isC();
        uint64_t off = x.goff;
        for (auto& g : x.gep) { const Val& i = get(s, f, g.o); if (!i.isC()) { conc = false; break; } off += g.scale * (uint64_t)sx(i.c, g.w); }
        if (conc) f->r[x.dst] = Val::C(b.c + off);
        else {
            E e = mkAdd(toE(b, 64), mkConst(x.goff, 64));
            for (auto& g : x.gep) { E i = toE(get(s, f, g.o), g.w); e = mkAdd(e, mkMul(mkSExt(i, 64), mkConst(g.scale, 64))); }
            f->r[x.dst] = Val::X(e);
        }
        f->pc++;
        return true;
    }
    case IC::Select: {
        Val c = get(s, f, x.a);
        if (c.isC()) f->r[x.dst] = get(s, f, c.c & 1 ? x.b : x.c);
        else {
            if (c.e == UNDEF_E) violation(s, "uninit", "a selection depends on uninitialised memory");
            const Val &t = get(s, f, x.b), &e = get(s, f, x.c);
            if (t.a || e.a || !x.w) { bool d = decide(s, c.e); f = top(s); f->r[x.dst] = get(s, f, d ? x.b : x.c); }
            else f->r[x.dst] = Val::X(mkIte(c.e, toE(t, x.w), toE(e, x.w)));
        }
        f->pc++;
        return true;
    }
    case IC::Load: {
        Val p = rdPtr(s, f, x.a);
        if (!p.isC() && p.e != UNDEF_E && s.th.size() < 2) {
            bool known = false;
            for (auto& c : s.conc) if (c.first == p.e) known = true;
            Val out;
            if (!known && iteLoad(s, x, p.e, out)) { top(s)->r[x.dst] = out; top(s)->pc++; return true; }
        }
        uint64_t a = ptrVal(s, p, "load address");
        f = top(s);
        alignCheck(s, a, x.align, "read");
        if (s.th.size() > 1 && !f->fn->rt) {
            uint32_t n = DL->getTypeStoreSize(x.ty);
            if (x.atomic || x.vol) {
                uint64_t off; access(s, a, n, false, off);
                Pending pd; pd.k = PK::Mem; pd.addr = a; pd.size = n; pd.write = false;
                if (!visible(s, pd)) return true;
                f = top(s);
                Val v = loadVal(s, a, x.ty);
                if (x.atomic) onAtomic(s, a, n, true, false, x.ord, false); else onPlain(s, a, n, false);
                if (v.isC()) spinCheck(s, x.I, a, v.c);
                f = top(s);
                f->r[x.dst] = v;
                f->pc++;
                return true;
            }
            Val v = loadVal(s, a, x.ty);
            onPlain(s, a, n, false);
            f->r[x.dst] = v;
            f->pc++;
            return true;
        }
        f->r[x.dst] = loadVal(s, a, x.ty);
        f->pc++;
        return true;
    }
    case IC::Store: {
        Val p = rdPtr(s, f, x.b);
        uint64_t a = ptrVal(s, p, "store address");
        f = top(s);
        alignCheck(s, a, x.align, "write");
        if (s.th.size() > 1 && !f->fn->rt) {
            uint32_t n = DL->getTypeStoreSize(x.ty);
            if (x.atomic || x.vol) {
                uint64_t off; access(s, a, n, true, off);
                Pending pd; pd.k = PK::Mem; pd.addr = a; pd.size = n; pd.write = true;
                if (!visible(s, pd)) return true;
                f = top(s);
                if (x.atomic) onAtomic(s, a, n, false, true, x.ord, false); else { onPlain(s, a, n, true); wroteTo(s, a, n); }
                s.th[s.cur].polls.clear();
            } else { uint64_t off; access(s, a, n, true, off); onPlain(s, a, n, true); }
        }
        storeVal(s, a, x.ty, get(s, f, x.a));
        f->pc++;
        return true;
    }
    case IC::Cmpxchg: case IC::Rmw: {
        Val p = rdPtr(s, f, x.a);
        uint64_t a = ptrVal(s, p, "atomic address");
        f = top(s);
        uint32_t n = (x.w + 7) / 8;
        alignCheck(s, a, n, "atomic access");
        uint64_t off; access(s, a, n, true, off);
        if (s.th.size() > 1) {
            Pending pd; pd.k = PK::Mem; pd.addr = a; pd.size = n; pd.write = true;
            if (!visible(s, pd)) return true;
            f = top(s);
        }
        Type* T = x.op == IC::Cmpxchg ? x.ty : x.I->getType();
        Val old = loadVal(s, a, T);
        if (x.op == IC::Cmpxchg) {
            Val cmp = get(s, f, x.b), nv = get(s, f, x.c);
            bool eq;
            if (old.isC() && cmp.isC()) eq = old.c == cmp.c;
            else {
                // the grant must survive re-execution by a forked state
                s.th[s.cur].granted = s.th.size() > 1 && liveThreads(s) > 1;
                eq = decide(s, mkEq(toE(old, x.w), toE(cmp, x.w)));
                s.th[s.cur].granted = false;
                f = top(s);
            }
            onAtomic(s, a, n, true, eq, eq ? x.ord : (AtomicOrdering)x.sub, true);
            if (eq) { storeVal(s, a, T, nv); s.th[s.cur].polls.clear(); }
            else if (old.isC() && s.th.size() > 1) spinCheck(s, x.I, a, old.c);
            Agg* ag = new Agg;
            ag->v.push_back(old);
            ag->v.push_back(Val::C(eq));
            Val r;
            r.a = Ref<Agg>(ag);
            f = top(s);
            f->r[x.dst] = r;
        } else {
            onAtomic(s, a, n, true, true, x.ord, true);
            s.th[s.cur].polls.clear();
            Val b = get(s, f, x.b);
            unsigned w = x.w;
            E o = toE(old, w), v = toE(b, w), nv = nullptr;
            switch (x.sub) {
            case AtomicRMWInst::Xchg: nv = v; break;
            case AtomicRMWInst::Add: nv = mkAdd(o, v); break;
            case AtomicRMWInst::Sub: nv = mkSub(o, v); break;
            case AtomicRMWInst::And: nv = mkAnd(o, v); break;
            case AtomicRMWInst::Or: nv = mkOr(o, v); break;
            case AtomicRMWInst::Xor: nv = mkXor(o, v); break;
            case AtomicRMWInst::Nand: nv = mkXor(mkAnd(o, v), mkConst(maskw(w), w)); break;
            case AtomicRMWInst::Max: nv = mkIte(mkSlt(o, v), v, o); break;
            case AtomicRMWInst::Min: nv = mkIte(mkSlt(o, v), o, v); break;
            case AtomicRMWInst::UMax: nv = mkIte(mkUlt(o, v), v, o); break;
            case AtomicRMWInst::UMin: nv = mkIte(mkUlt(o, v), o, v); break;
            default: fprintf(stderr, "amsym: atomicrmw op\n"); exit(3);
            }
            // an exchange that stores the value already there is a spin when repeated (test-and-set lock)
            if (x.sub == AtomicRMWInst::Xchg && old.isC() && b.isC() && old.c == b.c && s.th.size() > 1) spinCheck(s, x.I, a, old.c);
            storeVal(s, a, T, Val::X(nv));
            f = top(s);
            f->r[x.dst] = old;
        }
        top(s)->pc++;
        return true;
    }
    case IC::Fence: {
        if (s.th.size() > 1) {
            Thread& t = s.th[s.cur];
            if (x.ord != AtomicOrdering::Release) vcJoin(t.vc, t.acqPend);
            if (x.ord != AtomicOrdering::Acquire) { t.relFence = t.vc; t.vc[s.cur]++; }
        }
        f->pc++;
        return true;
    }
    case IC::Alloca: {
        Val n = get(s, f, x.a);
        uint64_t cnt = ptrVal(s, n, "stack array size");
        f = top(s);
        static std::unordered_map<const Instruction*, uint32_t> sites;
        auto it = sites.find(x.I);
        if (it == sites.end()) it = sites.emplace(x.I, siteOf("local '" + x.I->getName().str() + "' of " + locOf(x.I))).first;
        uint64_t a = allocObj(s, x.goff * cnt, x.align, OK::Stack, it->second, x.I, true);
        f->allocas.push_back(a);
        f->r[x.dst] = Val::C(a);
        f->pc++;
        return true;
    }
    case IC::Br: take(s, x.edges[0]); return true;
    case IC::CondBr: {
        Val c = get(s, f, x.a);
        bool b;
        if (c.isC()) b = c.c & 1;
        else {
            if (c.e == UNDEF_E) violation(s, "uninit", "a branch depends on uninitialised memory");
            b = decide(s, c.e);
        }
        take(s, x.edges[b ? 0 : 1]);
        return true;
    }
    case IC::Switch: {
        Val v = get(s, f, x.a);
        if (v.isC()) {
            int e = 0;
            for (auto& c : x.cases) if (c.first == (u128)v.c) { e = c.second; break; }
            take(s, x.edges[e]);
            return true;
        }
        if (v.e == UNDEF_E) violation(s, "uninit", "a switch depends on uninitialised memory");
        // group cases by target block
        std::map<uint32_t, std::vector<int>> byPc;
        for (size_t i = 0; i < x.cases.size(); i++) byPc[x.edges[x.cases[i].second].pc].push_back(i);
        for (auto& g : byPc) {
            E q = mkBool(false);
            for (int i : g.second) q = mkOr(q, mkEq(v.e, mkConst(x.cases[i].first, x.sw)));
            bool phi = !x.edges[x.cases[g.second[0]].second].mv.empty();
            if (phi) {
                for (int i : g.second) if (decide(s, mkEq(v.e, mkConst(x.cases[i].first, x.sw)))) { take(s, x.edges[x.cases[i].second]); return true; }
            } else if (decide(s, q)) { take(s, x.edges[x.cases[g.second[0]].second]); return true; }
        }
        take(s, x.edges[0]);
        return true;
    }
    case IC::Ret: { Val v; if (x.sub) v = get(s, f, x.a); doRet(s, v); return true; }
    case IC::Call: doCall(s, x); return true;
    case IC::ExtractV: {
        Val v = get(s, f, x.a);
        for (unsigned i : x.idx) { if (v.e == UNDEF_E) break; Val n = v.a->v[i]; v = n; }
        f->r[x.dst] = v;
        f->pc++;
        return true;
    }
    case IC::InsertV: {
        Val v = get(s, f, x.a);
        Val el = get(s, f, x.b);
        Val r = v;
        Val* p = &r;
        for (unsigned i : x.idx) { Agg* ag = p->a.mut(); p = &ag->v[i]; }
        *p = el;
        f->r[x.dst] = r;
        f->pc++;
        return true;
    }
    case IC::Unreachable: violation(s, "unreachable", "execution reaches code the compiler assumes unreachable (missing return or undefined behaviour)"); return false;
    default: {
        gIncomplete.insert("unsupported instruction at " + curLoc(s));
        throw PathEnd();
    }
    }
}
