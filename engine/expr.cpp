#include "expr.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <unordered_set>

std::vector<VarInfo> gVars;
std::vector<Expr*> gExprs;
SolverStats gSolver;
SolverConfig gSolverCfg;

namespace {
struct Key { Op op; uint16_t w; uint32_t aux; u128 val; E k[3];
    bool operator==(const Key& o) const { return op == o.op && w == o.w && aux == o.aux && val == o.val && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2]; } };
struct KeyHash { size_t operator()(const Key& x) const {
    uint64_t h = (uint64_t)x.op * 0x9E3779B97F4A7C15ull + x.w;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(x.aux); mix((uint64_t)x.val); mix((uint64_t)(x.val >> 64));
    for (auto p : x.k) mix(p ? p->id + 1 : 0);
    return h; } };
std::unordered_map<Key, Expr*, KeyHash> table;
std::unordered_map<std::string, E> varByName;
E smallConst[65][257];

E intern(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, uint32_t aux = 0, u128 val = 0) {
    Key k{op, (uint16_t)w, aux, val, {a, b, c}};
    auto it = table.find(k);
    if (it != table.end()) return it->second;
    Expr* e = new Expr();
    e->op = op; e->w = w; e->aux = aux; e->val = val; e->k[0] = a; e->k[1] = b; e->k[2] = c;
    e->id = gExprs.size();
    e->hasNL = ((op == Op::Mul || op == Op::UDiv || op == Op::URem || op == Op::SDiv || op == Op::SRem) && w >= 24 && !(op == Op::Mul ? (a->isConst() || b->isConst()) : (w < 48 && b->isConst()))) ||
               (a && a->hasNL) || (b && b->hasNL) || (c && c->hasNL);
    e->hasFP = (op >= Op::FAdd) || (a && a->hasFP) || (b && b->hasFP) || (c && c->hasFP);
    gExprs.push_back(e);
    table.emplace(k, e);
    return e;
}

bool constEval(Op op, u128 a, u128 b, unsigned w, u128& r) {
    u128 m = maskw(w);
    switch (op) {
    case Op::Add: r = (a + b) & m; return true;
    case Op::Sub: r = (a - b) & m; return true;
    case Op::Mul: r = (a * b) & m; return true;
    case Op::UDiv: r = b ? a / b : m; return true;
    case Op::URem: r = b ? a % b : a; return true;
    case Op::SDiv: { s128 x = sext128(a, w), y = sext128(b, w); if (y == 0) r = x < 0 ? 1 : m; else if (y == -1) r = (u128)(0 - (u128)x) & m; else r = (u128)(x / y) & m; return true; }
    case Op::SRem: { s128 x = sext128(a, w), y = sext128(b, w); if (y == 0) r = a; else if (y == -1) r = 0; else r = (u128)(x % y) & m; return true; }
    case Op::And: r = a & b; return true;
    case Op::Or: r = a | b; return true;
    case Op::Xor: r = a ^ b; return true;
    case Op::Shl: r = b >= w ? 0 : (a << (unsigned)b) & m; return true;
    case Op::LShr: r = b >= w ? 0 : a >> (unsigned)b; return true;
    case Op::AShr: { s128 x = sext128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; r = (u128)(x >> s) & m; return true; }
    case Op::Eq: r = a == b; return true;
    case Op::Ult: r = a < b; return true;
    case Op::Slt: r = sext128(a, w) < sext128(b, w); return true;
    default: return false;
    }
}
template <typename F, typename B> F bitsTo(B b) { F f; static_assert(sizeof f == sizeof b, ""); memcpy(&f, &b, sizeof f); return f; }
template <typename B, typename F> B toBits(F f) { B b; static_assert(sizeof f == sizeof b, ""); memcpy(&b, &f, sizeof f); return b; }
double asD(u128 v, unsigned w) { return w == 32 ? (double)bitsTo<float>((uint32_t)v) : bitsTo<double>((uint64_t)v); }
u128 fromD(double d, unsigned w) { return w == 32 ? (u128)toBits<uint32_t>((float)d) : (u128)toBits<uint64_t>(d); }
bool fpEval(Op op, u128 a, u128 b, unsigned aw, unsigned w, u128& r) {
    switch (op) {
    case Op::FAdd: r = aw == 32 ? (u128)toBits<uint32_t>(bitsTo<float>((uint32_t)a) + bitsTo<float>((uint32_t)b)) : fromD(asD(a, 64) + asD(b, 64), 64); return true;
    case Op::FSub: r = aw == 32 ? (u128)toBits<uint32_t>(bitsTo<float>((uint32_t)a) - bitsTo<float>((uint32_t)b)) : fromD(asD(a, 64) - asD(b, 64), 64); return true;
    case Op::FMul: r = aw == 32 ? (u128)toBits<uint32_t>(bitsTo<float>((uint32_t)a) * bitsTo<float>((uint32_t)b)) : fromD(asD(a, 64) * asD(b, 64), 64); return true;
    case Op::FDiv: r = aw == 32 ? (u128)toBits<uint32_t>(bitsTo<float>((uint32_t)a) / bitsTo<float>((uint32_t)b)) : fromD(asD(a, 64) / asD(b, 64), 64); return true;
    case Op::FExt: r = fromD(asD(a, 32), 64); return true;
    case Op::FTrunc: r = fromD(asD(a, 64), 32); return true;
    case Op::FLt: r = asD(a, aw) < asD(b, aw); return true;
    case Op::FLe: r = asD(a, aw) <= asD(b, aw); return true;
    case Op::FEq: r = asD(a, aw) == asD(b, aw); return true;
    case Op::SIToF: { s128 x = sext128(a, aw); r = w == 32 ? (u128)toBits<uint32_t>((float)(int64_t)x) : fromD((double)(int64_t)x, 64); return true; }
    case Op::UIToF: r = w == 32 ? (u128)toBits<uint32_t>((float)(uint64_t)a) : fromD((double)(uint64_t)a, 64); return true;
    case Op::FToSI: r = (u128)(s128)(int64_t)asD(a, aw) & maskw(w); return true;
    case Op::FToUI: r = (u128)(uint64_t)asD(a, aw) & maskw(w); return true;
    default: return false;
    }
}
bool commutative(Op op) { return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq; }
} // namespace

E mkConst(u128 v, unsigned w) {
    v &= maskw(w);
    if (v <= 256 && w <= 64) {
        E& s = smallConst[w][(unsigned)v];
        if (!s) s = intern(Op::Const, w, nullptr, nullptr, nullptr, 0, v);
        return s;
    }
    return intern(Op::Const, w, nullptr, nullptr, nullptr, 0, v);
}

E mkVar(const std::string& name, unsigned w) {
    std::string key = name + ":" + std::to_string(w);
    auto it = varByName.find(key);
    if (it != varByName.end()) return it->second;
    uint32_t idx = gVars.size();
    gVars.push_back({name, w});
    E e = intern(Op::Var, w, nullptr, nullptr, nullptr, idx, 0);
    varByName[key] = e;
    return e;
}

E mkNot(E a) {
    if (a->isConst()) return mkBool(a->val == 0);
    if (a->op == Op::Xor && a->k[1]->isTrue()) return a->k[0];
    return intern(Op::Xor, 1, a, mkBool(true));
}

// Sums in a normal form, so that differently written but equal ones become the same node:
// atoms with constant coefficients, like atoms merged.
struct Linear { std::vector<std::pair<E, u128>> t; u128 c = 0; bool merged = false; };
static bool linTerms(E e, u128 k, Linear& L, int depth) {
    unsigned w = e->w;
    if (L.t.size() > 12 || depth > 24) return false;
    if (e->isConst()) { L.c += k * e->val; return true; }
    if (e->op == Op::Add) return linTerms(e->k[0], k, L, depth + 1) && linTerms(e->k[1], k, L, depth + 1);
    if (e->op == Op::Sub) return linTerms(e->k[0], k, L, depth + 1) && linTerms(e->k[1], 0 - k, L, depth + 1);
    if (e->op == Op::Mul && e->k[1]->isConst()) return linTerms(e->k[0], k * e->k[1]->val, L, depth + 1);
    if (e->op == Op::Xor && e->k[1]->isConst() && e->k[1]->val == maskw(w)) { L.c -= k; return linTerms(e->k[0], 0 - k, L, depth + 1); }
    if (e->op == Op::Concat && e->k[1]->isFalse() && e->k[0]->op == Op::Extract && e->k[0]->aux == 0 && e->k[0]->k[0]->w == w)
        return linTerms(e->k[0]->k[0], k << e->k[1]->w, L, depth + 1);
    for (auto& p : L.t) if (p.first == e) { p.second += k; L.merged = true; return true; }
    L.t.push_back({e, k});
    return true;
}
// A shifted copy of an atom also present unshifted: its low part may have been simplified beyond recognition.
static void linShifted(Linear& L, unsigned w) {
    for (size_t i = 0; i < L.t.size(); i++) {
        E e = L.t[i].first;
        if (e->op != Op::Concat || !e->k[1]->isFalse()) continue;
        unsigned s = e->k[1]->w;
        for (size_t j = 0; j < L.t.size(); j++) {
            E y = L.t[j].first;
            if (j == i || mkExtract(y, 0, w - s) != e->k[0]) continue;
            L.t[j].second += L.t[i].second << s;
            L.t.erase(L.t.begin() + i);
            L.merged = true;
            i--;
            break;
        }
    }
}
static E linBuild(Linear& L, unsigned w) {
    u128 m = maskw(w);
    std::vector<E> pos, neg;
    for (auto& p : L.t) {
        u128 k = p.second & m;
        if (!k) continue;
        if (k == m) { neg.push_back(p.first); continue; }
        if (k == 1) pos.push_back(p.first);
        else if (!(k & (k - 1))) { unsigned s = 0; while (((u128)1 << s) != k) s++; pos.push_back(mkConcat(mkExtract(p.first, 0, w - s), mkConst(0, s))); }
        else pos.push_back(intern(Op::Mul, w, p.first, mkConst(k, w)));
    }
    auto byId = [](E a, E b) { return a->id < b->id; };
    std::sort(pos.begin(), pos.end(), byId);
    std::sort(neg.begin(), neg.end(), byId);
    E r = nullptr;
    for (E e : pos) r = r ? intern(Op::Add, w, r, e) : e;
    if (!r && !neg.empty()) r = mkConst(0, w);
    for (E e : neg) r = intern(Op::Sub, w, r, e);
    if (!r) return mkConst(L.c, w);
    u128 c = L.c & m;
    if (!c) return r;
    return r->isConst() ? mkConst(r->val + c, w) : intern(Op::Add, w, r, mkConst(c, w));
}

E mkBin(Op op, E a, E b) {
    if (op == Op::Eq) return mkEq(a, b);
    if (op == Op::Ult) return mkUlt(a, b);
    if (op == Op::Slt) return mkSlt(a, b);
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch %d op %d: %s | %s\n", (int)a->w, (int)op, exprStr(a).c_str(), exprStr(b).c_str()); abort(); }
    u128 r;
    if (a->isConst() && b->isConst() && constEval(op, a->val, b->val, w, r)) return mkConst(r, w);
    if (commutative(op)) {
        if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
    }
    u128 m = maskw(w);
    if (w == 1) switch (op) { // Booleans: no arithmetic reaches the solver
    case Op::Add: case Op::Sub: return mkXor(a, b);
    case Op::Mul: return mkAnd(a, b);
    case Op::UDiv: case Op::SDiv: return mkOr(a, mkNot(b));
    case Op::URem: case Op::SRem: return mkAnd(a, mkNot(b));
    case Op::Shl: case Op::LShr: return mkAnd(a, mkNot(b));
    case Op::AShr: return a;
    default: break;
    }
    if ((op == Op::Add || op == Op::Sub) && w >= 8 && !a->isConst() && !b->isConst() && a->op != Op::Ite && b->op != Op::Ite) {
        Linear L;
        if (linTerms(a, 1, L, 0) && linTerms(b, op == Op::Add ? 1 : (u128)0 - 1, L, 0)) {
            linShifted(L, w);
            if (L.merged || L.t.size() > 2) return linBuild(L, w);
        }
    }
    if (op == Op::Mul && w >= 8 && b->isConst() && (a->op == Op::Add || a->op == Op::Sub)) {
        Linear L;
        if (linTerms(a, b->val, L, 0)) return linBuild(L, w);
    }
    switch (op) {
    case Op::Add:
        if (b->isFalse()) return a;
        if (b->isConst() && a->op == Op::Add && a->k[1]->isConst()) return mkAdd(a->k[0], mkConst(a->k[1]->val + b->val, w));
        if (b->isConst() && a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
        if (!b->isConst() && a->op == Op::Add && a->k[1]->isConst()) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
        if (!b->isConst() && b->op == Op::Add && b->k[1]->isConst()) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
        break;
    case Op::Sub:
        if (a == b) return mkConst(0, w);
        if (b->isConst()) return mkAdd(a, mkConst(0 - b->val, w));
        if (a->op == Op::Add && a->k[1]->isConst()) return mkAdd(mkSub(a->k[0], b), a->k[1]);
        if (b->op == Op::Add && b->k[1]->isConst()) return mkAdd(mkSub(a, b->k[0]), mkConst(0 - b->k[1]->val, w));
        if (b->op == Op::Add) { if (b->k[0] == a) return mkSub(mkConst(0, w), b->k[1]); if (b->k[1] == a) return mkSub(mkConst(0, w), b->k[0]); }
        if (a->op == Op::Add) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
        break;
    case Op::Mul:
        if (b->isFalse()) return b;
        if (b->isConst() && b->val == 1) return a;
        if (b->isConst() && !(b->val & (b->val - 1))) { unsigned s = 0; while (((u128)1 << s) != b->val) s++; return mkBin(Op::Shl, a, mkConst(s, w)); }
        if (b->isConst() && a->op == Op::Mul && a->k[1]->isConst()) return mkMul(a->k[0], mkConst(a->k[1]->val * b->val, w));
        if (b->isConst() && a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
        break;
    case Op::UDiv:
        if (b->isConst() && b->val == 1) return a;
        if (b->isConst() && b->val && !(b->val & (b->val - 1))) { unsigned s = 0; while (((u128)1 << s) != b->val) s++; return mkBin(Op::LShr, a, mkConst(s, w)); }
        break;
    case Op::URem:
        if (b->isConst() && b->val && !(b->val & (b->val - 1))) return mkAnd(a, mkConst(b->val - 1, w));
        break;
    case Op::And:
        if (a == b) return a;
        if (b->isFalse()) return b;
        if (b->isConst() && b->val == m) return a;
        if (b->isConst() && a->op == Op::And && a->k[1]->isConst()) return mkAnd(a->k[0], mkConst(a->k[1]->val & b->val, w));
        if (b->isConst() && a->op == Op::ZExt) {
            u128 im = maskw(a->k[0]->w);
            if ((b->val & im) == im) return a;
            return mkZExt(mkAnd(a->k[0], mkConst(b->val & im, a->k[0]->w)), w);
        }
        if (b->isConst() && a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkAnd(a->k[1], b), mkAnd(a->k[2], b));
        if (w == 1 && ((a->op == Op::Xor && a->k[1]->isTrue() && a->k[0] == b) || (b->op == Op::Xor && b->k[1]->isTrue() && b->k[0] == a))) return mkBool(false);
        if (b->isConst() && w > 1) { // low mask
            u128 v = b->val;
            if ((v & (v + 1)) == 0 && v) { unsigned n = 0; while (n < w && ((v >> n) & 1)) n++; return mkZExt(mkExtract(a, 0, n), w); }
        }
        break;
    case Op::Or:
        if (a == b) return a;
        if (b->isFalse()) return a;
        if (b->isConst() && b->val == m) return b;
        if (w == 1 && ((a->op == Op::Xor && a->k[1]->isTrue() && a->k[0] == b) || (b->op == Op::Xor && b->k[1]->isTrue() && b->k[0] == a))) return mkBool(true);
        if (b->isConst() && a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkOr(a->k[1], b), mkOr(a->k[2], b));
        break;
    case Op::Xor:
        if (a == b) return mkConst(0, w);
        if (b->isFalse()) return a;
        if (w == 1 && b->isTrue()) return mkNot(a);
        if (b->isConst() && a->op == Op::Xor && a->k[1]->isConst()) return mkXor(a->k[0], mkConst(a->k[1]->val ^ b->val, w));
        break;
    case Op::Shl: case Op::LShr: case Op::AShr:
        if (b->isFalse()) return a;
        if (a->isFalse()) return a;
        if (b->isConst()) {
            if (b->val >= w) { if (op == Op::AShr) b = mkConst(w - 1, w); else return mkConst(0, w); }
            unsigned s = (unsigned)b->val;
            if (op == Op::Shl) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
            if (op == Op::LShr) return mkZExt(mkExtract(a, s, w - s), w);
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    default: break;
    }
    return intern(op, w, a, b);
}

E mkEq(E a, E b) {
    if (a->w != b->w) { fprintf(stderr, "mkEq width\n"); abort(); }
    if (a == b) return mkBool(true);
    if (a->isConst() && b->isConst()) return mkBool(a->val == b->val);
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
    if (a->w == 1) {
        if (b->isTrue()) return a;
        if (b->isFalse()) return mkNot(a);
    }
    if (b->isConst()) {
        if (a->op == Op::ZExt) {
            if (b->val >> a->k[0]->w) return mkBool(false);
            return mkEq(a->k[0], mkConst(b->val, a->k[0]->w));
        }
        if (a->op == Op::SExt) {
            E t = mkConst(b->val, a->k[0]->w);
            if (mkSExt(t, a->w) != b) return mkBool(false);
            return mkEq(a->k[0], t);
        }
        if (a->op == Op::Add && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->val - a->k[1]->val, a->w));
        if (a->op == Op::Xor && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->val ^ a->k[1]->val, a->w));
        if (a->op == Op::Mul && a->k[1]->isConst() && a->k[0]->op == Op::ZExt && a->w <= 64) {
            E x = a->k[0]->k[0];
            u128 c = a->k[1]->val;
            if (x->w <= 60 && maskw(x->w) * c <= maskw(a->w)) { // no wrap
                if (b->val % c) return mkBool(false);
                if (b->val / c > maskw(x->w)) return mkBool(false);
                return mkEq(x, mkConst(b->val / c, x->w));
            }
        }
        if (a->op == Op::Concat) {
            unsigned lw = a->k[1]->w;
            return mkAnd(mkEq(a->k[0], mkConst(b->val >> lw, a->k[0]->w)), mkEq(a->k[1], mkConst(b->val, lw)));
        }
        if (a->op == Op::Ite) {
            E t = a->k[1], f = a->k[2];
            if (t->isConst() || f->isConst()) {
                if (t->isConst() && t->val != b->val) return mkAnd(mkNot(a->k[0]), mkEq(f, b));
                if (f->isConst() && f->val != b->val) return mkAnd(a->k[0], mkEq(t, b));
                if (t->isConst()) return mkOr(a->k[0], mkEq(f, b));
                return mkOr(mkNot(a->k[0]), mkEq(t, b));
            }
        }
    } else {
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
    }
    return intern(Op::Eq, 1, a, b);
}

E mkUlt(E a, E b) {
    if (a == b) return mkBool(false);
    if (a->isConst() && b->isConst()) return mkBool(a->val < b->val);
    unsigned w = a->w;
    if (b->isFalse()) return mkBool(false);
    if (b->isConst() && b->val == 1) return mkEq(a, mkConst(0, w));
    if (a->isConst() && a->val == maskw(w)) return mkBool(false);
    if (a->isFalse()) return mkNot(mkEq(b, a));
    if (a->op == Op::ZExt && b->isConst()) {
        if (b->val > maskw(a->k[0]->w)) return mkBool(true);
        return mkUlt(a->k[0], mkConst(b->val, a->k[0]->w));
    }
    if (b->op == Op::ZExt && a->isConst()) {
        if (a->val >= maskw(b->k[0]->w)) return mkBool(false);
        return mkUlt(mkConst(a->val, b->k[0]->w), b->k[0]);
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkUlt(a->k[0], b->k[0]);
    if (a->op == Op::Ite && b->isConst() && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
    if (b->op == Op::Ite && a->isConst() && b->k[1]->isConst() && b->k[2]->isConst()) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
    if (w == 1) return mkAnd(mkNot(a), b);
    return intern(Op::Ult, 1, a, b);
}

E mkSlt(E a, E b) {
    if (a == b) return mkBool(false);
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) return mkBool(sext128(a->val, w) < sext128(b->val, w));
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w < w && b->k[0]->w < w) return mkUlt(a, b);
    if (a->op == Op::ZExt && a->k[0]->w < w && b->isConst()) {
        if (sext128(b->val, w) < 0) return mkBool(false);
        return mkUlt(a, b);
    }
    if (b->op == Op::ZExt && b->k[0]->w < w && a->isConst()) {
        if (sext128(a->val, w) < 0) return mkBool(true);
        return mkUlt(a, b);
    }
    if (a->op == Op::Ite && b->isConst() && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
    if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkSlt(a->k[0], b->k[0]);
    return intern(Op::Slt, 1, a, b);
}

E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
    if (hi->isFalse()) return mkZExt(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(hi->k[0], lo->aux, w);
    if (lo->op == Op::Concat) {
        E m = lo->k[0];
        if (hi->op == Op::Extract && m->op == Op::Extract && hi->k[0] == m->k[0] && hi->aux == m->aux + m->w) return mkConcat(mkExtract(hi->k[0], m->aux, hi->w + m->w), lo->k[1]);
        if (hi->isConst() && m->isConst()) return mkConcat(mkConcat(hi, m), lo->k[1]);
        if (hi->op == Op::Ite && m->op == Op::Ite && hi->k[0] == m->k[0]) return mkConcat(mkConcat(hi, m), lo->k[1]);
    }
    // reassemble the parts of a zero-extension
    if (hi->op == Op::ZExt && hi->k[0]->op == Op::Extract && lo->op == Op::Extract && hi->k[0]->k[0] == lo->k[0] && hi->k[0]->aux == lo->aux + lo->w)
        return mkZExt(mkExtract(lo->k[0], lo->aux, lo->w + hi->k[0]->w), w);
    if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    if (hi->op == Op::Ite && lo->isConst() && hi->k[1]->isConst() && hi->k[2]->isConst()) return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
    if (lo->op == Op::Ite && hi->isConst() && lo->k[1]->isConst() && lo->k[2]->isConst()) return mkIte(lo->k[0], mkConcat(hi, lo->k[1]), mkConcat(hi, lo->k[2]));
    // bitwise operations that were split into bytes
    if (w <= 64 && (lo->op == Op::Xor || lo->op == Op::Or || lo->op == Op::And)) {
        Op op = lo->op;
        E h0 = nullptr, h1 = nullptr;
        if (hi->op == op) { h0 = hi->k[0]; h1 = hi->k[1]; }
        else if (op != Op::And && hi->op == Op::Extract) { h0 = hi; h1 = mkConst(0, hi->w); }
        if (h0) for (int swap = 0; swap < 2; swap++) {
            E l0 = lo->k[swap], l1 = lo->k[1 - swap];
            auto merges = [](E h, E l) {
                if (h->isConst()) return l->isConst() || h->isFalse();
                if (h->op == Op::Extract && l->op == Op::Extract) return h->k[0] == l->k[0] && h->aux == l->aux + l->w;
                if (h->op == Op::Extract) return h->k[0] == l && h->aux == l->w;
                if (h->op == Op::ZExt && h->k[0]->op == Op::Extract && l->op == Op::Extract) return h->k[0]->k[0] == l->k[0] && h->k[0]->aux == l->aux + l->w;
                return false;
            };
            if (merges(h0, l0) && merges(h1, l1)) return mkBin(op, mkConcat(h0, l0), mkConcat(h1, l1));
        }
    }
    // sign-extension pieces
    if (hi->op == Op::Extract && hi->k[0]->op == Op::SExt) {
        E s = hi->k[0];
        if (s->k[0] == lo && hi->aux == lo->w) return mkSExt(lo, w);
        if (lo->op == Op::SExt && s->k[0] == lo->k[0] && hi->aux == lo->w) return mkSExt(lo->k[0], w);
    }
    return intern(Op::Concat, w, hi, lo);
}

static bool narrowed(E e, unsigned w) {
    return e->isConst() || ((e->op == Op::ZExt || e->op == Op::SExt) && e->k[0]->w <= w);
}

E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (lo + w > a->w) { fprintf(stderr, "extract range\n"); abort(); }
    switch (a->op) {
    case Op::Const: return mkConst(a->val >> lo, w);
    case Op::Extract: return mkExtract(a->k[0], a->aux + lo, w);
    case Op::Concat: {
        unsigned lw = a->k[1]->w;
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case Op::ZExt: {
        unsigned iw = a->k[0]->w;
        if (lo >= iw) return mkConst(0, w);
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        return mkZExt(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case Op::SExt: {
        unsigned iw = a->k[0]->w;
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        if (lo < iw) return mkSExt(mkExtract(a->k[0], lo, iw - lo), w);
        break;
    }
    case Op::Ite:
        if (a->k[1]->isConst() || a->k[2]->isConst()) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    case Op::And: case Op::Or: case Op::Xor:
        return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case Op::Add: case Op::Sub: case Op::Mul:
        // Push inwards only where it undoes an extension: splitting a wide sum or product into bytes
        // (every store does) must leave the bytes recognisable as parts of one value.
        if (lo == 0 && narrowed(a->k[0], w) && narrowed(a->k[1], w)) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    default: break;
    }
    return intern(Op::Extract, w, a, nullptr, nullptr, lo);
}

E mkZExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isConst()) return mkConst(a->val, w);
    if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
    if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
    return intern(Op::ZExt, w, a);
}
E mkSExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isConst()) return mkConst((u128)sext128(a->val, a->w), w);
    if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
    if (a->op == Op::SExt) return mkSExt(a->k[0], w);
    if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
    return intern(Op::SExt, w, a);
}
E mkIte(E c, E t, E f) {
    if (c->isConst()) return c->val ? t : f;
    if (t == f) return t;
    if (c->op == Op::Xor && c->k[1]->isTrue()) return mkIte(c->k[0], f, t);
    if (t->w == 1) {
        if (t->isTrue() && f->isFalse()) return c;
        if (t->isFalse() && f->isTrue()) return mkNot(c);
        if (t->isTrue()) return mkOr(c, f);
        if (t->isFalse()) return mkAnd(mkNot(c), f);
        if (f->isTrue()) return mkOr(mkNot(c), t);
        if (f->isFalse()) return mkAnd(c, t);
    }
    if (f->op == Op::Ite && f->k[0] == c) return mkIte(c, t, f->k[2]);
    if (t->op == Op::Ite && t->k[0] == c) return mkIte(c, t->k[1], f);
    if (f->op == Op::Ite && f->k[1] == t) return mkIte(mkOr(c, f->k[0]), t, f->k[2]);
    return intern(Op::Ite, t->w, c, t, f);
}
E mkFP(Op op, E a, E b, unsigned w) {
    u128 r;
    if (a->isConst() && (!b || b->isConst()) && fpEval(op, a->val, b ? b->val : 0, a->w, w, r)) return mkConst(r, w);
    return intern(op, w, a, b);
}

// ---------------------------------------------------------------- evaluation
static std::vector<u128> evMemo;
static std::vector<uint32_t> evStamp;
static uint32_t evGen = 1;
void newEvalGeneration() { evGen++; }
static u128 evalRec(E e, const Model& m) {
    if (e->op == Op::Const) return e->val;
    if (e->op == Op::Var) return m.get(e->aux) & maskw(e->w);
    if (e->id >= evMemo.size()) { evMemo.resize(gExprs.size() + 1024); evStamp.resize(gExprs.size() + 1024, 0); }
    if (evStamp[e->id] == evGen) return evMemo[e->id];
    u128 r = 0;
    switch (e->op) {
    case Op::Concat: r = (evalRec(e->k[0], m) << e->k[1]->w) | evalRec(e->k[1], m); break;
    case Op::Extract: r = (evalRec(e->k[0], m) >> e->aux) & maskw(e->w); break;
    case Op::ZExt: r = evalRec(e->k[0], m); break;
    case Op::SExt: r = (u128)sext128(evalRec(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case Op::Ite: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
    default: {
        u128 a = evalRec(e->k[0], m), b = e->k[1] ? evalRec(e->k[1], m) : 0;
        if (e->op >= Op::FAdd) fpEval(e->op, a, b, e->k[0]->w, e->w, r);
        else constEval(e->op, a, b, e->k[0]->w, r);
    }
    }
    evMemo[e->id] = r;
    evStamp[e->id] = evGen;
    return r;
}
u128 evalExpr(E e, const Model& m) { newEvalGeneration(); return evalRec(e, m); }

static std::vector<std::vector<uint32_t>*> varMemo;
const std::vector<uint32_t>& varsOf(E e) {
    if (e->id >= varMemo.size()) varMemo.resize(gExprs.size() + 1024, nullptr);
    if (varMemo[e->id]) return *varMemo[e->id];
    auto* out = new std::vector<uint32_t>();
    if (e->op == Op::Var) out->push_back(e->aux);
    else
        for (E k : e->k) {
            if (!k) continue;
            const auto& s = varsOf(k);
            if (s.empty()) continue;
            std::vector<uint32_t> t;
            std::set_union(out->begin(), out->end(), s.begin(), s.end(), std::back_inserter(t));
            out->swap(t);
        }
    if (e->id >= varMemo.size()) varMemo.resize(gExprs.size() + 1024, nullptr);
    varMemo[e->id] = out;
    return *out;
}

static bool vs(E e, std::vector<uint64_t>& out, size_t limit, int depth) {
    auto norm = [&]() { std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); return out.size() <= limit; };
    if (e->w > 64 || depth > 64) return false;
    if (e->isConst()) { out.push_back(e->u64()); return true; }
    if (e->w <= 10 && ((size_t)1 << e->w) <= limit && e->op != Op::Ite && e->op != Op::Add) { for (uint64_t i = 0; i < (1ull << e->w); i++) out.push_back(i); return true; }
    uint64_t m = (uint64_t)maskw(e->w);
    switch (e->op) {
    case Op::ZExt: return vs(e->k[0], out, limit, depth + 1);
    case Op::SExt: {
        if (!vs(e->k[0], out, limit, depth + 1)) return false;
        for (auto& x : out) x = (uint64_t)sext128(x, e->k[0]->w) & m;
        return norm();
    }
    case Op::Extract:
        if (!vs(e->k[0], out, limit, depth + 1)) return false;
        for (auto& x : out) x = (x >> e->aux) & m;
        return norm();
    case Op::Ite: {
        std::vector<uint64_t> b;
        if (!vs(e->k[1], out, limit, depth + 1) || !vs(e->k[2], b, limit, depth + 1)) return false;
        out.insert(out.end(), b.begin(), b.end());
        return norm();
    }
    case Op::Concat: case Op::Add: case Op::Sub: case Op::Mul: case Op::And: case Op::Or: case Op::Xor: {
        std::vector<uint64_t> a, b;
        if (!vs(e->k[0], a, limit, depth + 1) || !vs(e->k[1], b, limit, depth + 1)) return false;
        if (a.size() * b.size() > 4 * limit) return false;
        for (uint64_t x : a) for (uint64_t y : b) {
            u128 r;
            if (e->op == Op::Concat) r = ((u128)x << e->k[1]->w) | y;
            else constEval(e->op, x, y, e->w, r);
            out.push_back((uint64_t)r & m);
        }
        return norm();
    }
    default: return false;
    }
}
bool valueSet(E e, std::vector<uint64_t>& out, size_t limit) { out.clear(); return vs(e, out, limit, 0); }

std::string exprStr(E e, int depth) {
    static const char* names[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","fext","ftrunc","flt","fle","feq","sitof","uitof","ftosi","ftoui"};
    if (e->isConst()) { char b[64]; snprintf(b, sizeof b, "0x%llx:%d", (unsigned long long)e->val, e->w); return b; }
    if (e->op == Op::Var) return gVars[e->aux].name;
    if (depth <= 0) return "...";
    std::string s = std::string("(") + names[(int)e->op];
    if (e->op == Op::Extract) s += "@" + std::to_string(e->aux) + "+" + std::to_string(e->w);
    for (E k : e->k) if (k) s += " " + exprStr(k, depth - 1);
    return s + ")";
}

// ---------------------------------------------------------------- Z3
static Z3_context ctx;
static Z3_solver fdSolver, fpSolver;
static std::vector<Z3_ast> z3Memo;
static std::unordered_map<uint32_t, Z3_ast> litOf, litOfFP;
static unsigned fdAsserted = 0;

static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }

static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
static Z3_ast z3e(E e);
static Z3_ast z3bv(E e) { // as a bit-vector even when width 1
    Z3_ast a = z3e(e);
    if (e->w == 1) return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1)));
    return a;
}
static Z3_ast z3fp(E e) { return Z3_mk_fpa_to_fp_bv(ctx, z3e(e), fps(e->w)); }
static Z3_ast z3e0(E e) {
    auto B = [&](int i) { return z3e(e->k[i]); };
    switch (e->op) {
    case Op::Const:
        if (e->w == 1) return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        if (e->w <= 64) return Z3_mk_unsigned_int64(ctx, e->u64(), bvs(e->w));
        return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)(e->val >> 64), bvs(e->w - 64)), Z3_mk_unsigned_int64(ctx, (uint64_t)e->val, bvs(64)));
    case Op::Var: {
        std::string n = gVars[e->aux].name + "!" + std::to_string(e->aux);
        Z3_symbol s = Z3_mk_string_symbol(ctx, n.c_str());
        return Z3_mk_const(ctx, s, e->w == 1 ? Z3_mk_bool_sort(ctx) : bvs(e->w));
    }
    case Op::And: if (e->w == 1) { Z3_ast a[2] = {B(0), B(1)}; return Z3_mk_and(ctx, 2, a); } return Z3_mk_bvand(ctx, B(0), B(1));
    case Op::Or: if (e->w == 1) { Z3_ast a[2] = {B(0), B(1)}; return Z3_mk_or(ctx, 2, a); } return Z3_mk_bvor(ctx, B(0), B(1));
    case Op::Xor: if (e->w == 1) { if (e->k[1]->isTrue()) return Z3_mk_not(ctx, B(0)); return Z3_mk_xor(ctx, B(0), B(1)); } return Z3_mk_bvxor(ctx, B(0), B(1));
    case Op::Add: return Z3_mk_bvadd(ctx, B(0), B(1));
    case Op::Sub: return Z3_mk_bvsub(ctx, B(0), B(1));
    case Op::Mul: return Z3_mk_bvmul(ctx, B(0), B(1));
    case Op::UDiv: return Z3_mk_bvudiv(ctx, B(0), B(1));
    case Op::SDiv: return Z3_mk_bvsdiv(ctx, B(0), B(1));
    case Op::URem: return Z3_mk_bvurem(ctx, B(0), B(1));
    case Op::SRem: return Z3_mk_bvsrem(ctx, B(0), B(1));
    case Op::Shl: return Z3_mk_bvshl(ctx, B(0), B(1));
    case Op::LShr: return Z3_mk_bvlshr(ctx, B(0), B(1));
    case Op::AShr: return Z3_mk_bvashr(ctx, B(0), B(1));
    case Op::Eq: return Z3_mk_eq(ctx, B(0), B(1));
    case Op::Ult: return Z3_mk_bvult(ctx, z3bv(e->k[0]), z3bv(e->k[1]));
    case Op::Slt: return Z3_mk_bvslt(ctx, z3bv(e->k[0]), z3bv(e->k[1]));
    case Op::Concat: return Z3_mk_concat(ctx, z3bv(e->k[0]), z3bv(e->k[1]));
    case Op::Extract: {
        Z3_ast x = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, z3bv(e->k[0]));
        if (e->w == 1) return Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, bvs(1)));
        return x;
    }
    case Op::ZExt: return Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, z3bv(e->k[0]));
    case Op::SExt: return Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, z3bv(e->k[0]));
    case Op::Ite: return Z3_mk_ite(ctx, B(0), B(1), B(2));
    case Op::FAdd: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, Z3_mk_fpa_rne(ctx), z3fp(e->k[0]), z3fp(e->k[1])));
    case Op::FSub: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, Z3_mk_fpa_rne(ctx), z3fp(e->k[0]), z3fp(e->k[1])));
    case Op::FMul: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, Z3_mk_fpa_rne(ctx), z3fp(e->k[0]), z3fp(e->k[1])));
    case Op::FDiv: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, Z3_mk_fpa_rne(ctx), z3fp(e->k[0]), z3fp(e->k[1])));
    case Op::FExt: case Op::FTrunc: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), z3fp(e->k[0]), fps(e->w)));
    case Op::FLt: return Z3_mk_fpa_lt(ctx, z3fp(e->k[0]), z3fp(e->k[1]));
    case Op::FLe: return Z3_mk_fpa_leq(ctx, z3fp(e->k[0]), z3fp(e->k[1]));
    case Op::FEq: return Z3_mk_fpa_eq(ctx, z3fp(e->k[0]), z3fp(e->k[1]));
    case Op::SIToF: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), B(0), fps(e->w)));
    case Op::UIToF: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), B(0), fps(e->w)));
    case Op::FToSI: return Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), z3fp(e->k[0]), e->w);
    case Op::FToUI: return Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), z3fp(e->k[0]), e->w);
    }
    abort();
}
static Z3_ast z3e(E e) {
    if (e->id >= z3Memo.size()) z3Memo.resize(gExprs.size() + 1024, nullptr);
    if (z3Memo[e->id]) return z3Memo[e->id];
    Z3_ast r = z3e0(e);
    z3Memo[e->id] = r;
    return r;
}

static Z3_solver newSolver(const char* logic) {
    Z3_solver s = logic ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic)) : Z3_mk_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gSolverCfg.timeoutMs);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), gSolverCfg.seed);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    return s;
}

void solverInit() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, z3err);
    fdSolver = newSolver("QF_FD");
    fpSolver = newSolver(nullptr);
    (void)fpSolver;
}

static void readModel(Z3_model zm, const std::vector<uint32_t>& vars, Model& m) {
    for (uint32_t v : vars) {
        E e = nullptr;
        // find the Var expr: variables are interned, look it up by name
        e = mkVar(gVars[v].name, gVars[v].w);
        Z3_ast out;
        u128 val = 0;
        if (Z3_model_eval(ctx, zm, z3e(e), true, &out)) {
            if (e->w == 1) val = Z3_get_bool_value(ctx, out) == Z3_L_TRUE;
            else if (e->w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(ctx, out, &x); val = x; }
            else {
                std::string s = Z3_get_numeral_string(ctx, out);
                for (char c : s) val = val * 10 + (c - '0');
            }
        }
        m.set(v, val);
    }
}

static std::string smt2Of(const std::vector<E>& cs, const std::vector<uint32_t>& vars) {
    Z3_solver s = newSolver(nullptr);
    for (E c : cs) Z3_solver_assert(ctx, s, z3e(c));
    std::string body = Z3_solver_to_string(ctx, s);
    Z3_solver_dec_ref(ctx, s);
    std::string r = body + "\n(check-sat)\n";
    if (!vars.empty()) {
        r += "(get-value (";
        for (uint32_t v : vars) r += " |" + gVars[v].name + "!" + std::to_string(v) + "|";
        r += "))\n";
    }
    return r;
}

// Portfolio of external solvers on one query, first definite answer wins.
static Sat portfolio(const std::vector<E>& cs, const std::vector<uint32_t>& vars, Model& m) {
    gSolver.fallback++;
    char dir[] = "/tmp/amsymXXXXXX";
    if (!mkdtemp(dir)) return Sat::Unknown;
    bool fp = false;
    for (E c : cs) fp |= c->hasFP;
    std::string file = std::string(dir) + "/q.smt2";
    FILE* f = fopen(file.c_str(), "w");
    std::string text = std::string("(set-option :produce-models true)\n(set-logic ") + (fp ? "QF_BVFP" : "QF_BV") + ")\n" + smt2Of(cs, vars);
    fputs(text.c_str(), f);
    fclose(f);
    std::string tmo = std::to_string(gSolverCfg.timeoutMs / 1000 + 1);
    std::string tl = "--tlimit=" + std::to_string(gSolverCfg.timeoutMs);
    std::vector<std::vector<std::string>> cmds = {
        {"cvc5", tl, "--solve-bv-as-int=sum", file},
        {"cvc5", tl, file},
        {"z3-new", "-T:" + tmo, file},
        {"z3", "-T:" + tmo, file},
    };
    struct P { pid_t pid; int fd; std::string out; bool done; };
    std::vector<P> ps;
    for (auto& c : cmds) {
        int pf[2];
        if (pipe(pf)) continue;
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            dup2(pf[1], 1);
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 2);
            close(pf[0]);
            std::vector<char*> av;
            for (auto& s : c) av.push_back((char*)s.c_str());
            av.push_back(nullptr);
            execvp(av[0], av.data());
            _exit(127);
        }
        close(pf[1]);
        ps.push_back({pid, pf[0], "", false});
    }
    Sat res = Sat::Unknown;
    std::string winner;
    auto start = std::chrono::steady_clock::now();
    size_t open_ = ps.size();
    while (open_ && res == Sat::Unknown) {
        std::vector<pollfd> pfds;
        for (auto& p : ps) if (!p.done) pfds.push_back({p.fd, POLLIN, 0});
        int n = poll(pfds.data(), pfds.size(), 500);
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > gSolverCfg.timeoutMs / 1000.0 + 10) break;
        if (n <= 0) continue;
        for (auto& p : ps) {
            if (p.done) continue;
            for (auto& q : pfds) if (q.fd == p.fd && (q.revents & (POLLIN | POLLHUP))) {
                char buf[65536];
                ssize_t r = read(p.fd, buf, sizeof buf);
                if (r > 0) { p.out.append(buf, r); }
                else {
                    p.done = true;
                    open_--;
                    if (p.out.compare(0, 5, "unsat") == 0) { res = Sat::Unsat; }
                    else if (p.out.compare(0, 3, "sat") == 0 && p.out.find("(error") == std::string::npos) { res = Sat::Sat; winner = p.out; }
                }
            }
        }
    }
    for (auto& p : ps) { kill(-p.pid, SIGKILL); kill(p.pid, SIGKILL); close(p.fd); int st; waitpid(p.pid, &st, 0); }
    unlink(file.c_str());
    rmdir(dir);
    if (res == Sat::Sat) {
        // parse "(|name!idx| #x..|#b..|true|false)"
        for (uint32_t v : vars) {
            std::string key = gVars[v].name + "!" + std::to_string(v);
            size_t p = winner.find("|" + key + "| ");
            size_t off = 3;
            if (p == std::string::npos) { p = winner.find("(" + key + " "); off = 2; }
            if (p == std::string::npos) continue;
            p += key.size() + off;
            while (p < winner.size() && winner[p] == ' ') p++;
            u128 val = 0;
            if (winner.compare(p, 2, "#x") == 0) for (p += 2; isxdigit((unsigned char)winner[p]); p++) val = val * 16 + (isdigit((unsigned char)winner[p]) ? winner[p] - '0' : (winner[p] | 32) - 'a' + 10);
            else if (winner.compare(p, 2, "#b") == 0) for (p += 2; winner[p] == '0' || winner[p] == '1'; p++) val = val * 2 + (winner[p] - '0');
            else if (winner.compare(p, 4, "true") == 0) val = 1;
            m.set(v, val);
        }
        newEvalGeneration();
        for (E c : cs) if (!evalRec(c, m)) return Sat::Unknown; // a model that does not check is no answer
    }
    return res;
}

struct QKey { std::vector<uint32_t> ids; bool operator==(const QKey& o) const { return ids == o.ids; } };
struct QHash { size_t operator()(const QKey& k) const { uint64_t h = 1469598103934665603ull; for (auto i : k.ids) { h ^= i; h *= 1099511628211ull; } return h; } };
struct QRes { Sat r; std::vector<std::pair<uint32_t, u128>> model; };
static std::unordered_map<QKey, QRes, QHash> qcache;

Sat solverCheck(const std::vector<E>& cs0, Model& m) {
    std::vector<E> cs = cs0;
    std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    QKey key;
    for (E c : cs) { if (c->isFalse()) return Sat::Unsat; if (!c->isTrue()) key.ids.push_back(c->id); }
    if (key.ids.empty()) return Sat::Sat;
    auto it = qcache.find(key);
    if (it != qcache.end()) {
        gSolver.cacheHits++;
        if (it->second.r == Sat::Sat) for (auto& p : it->second.model) m.set(p.first, p.second);
        return it->second.r;
    }
    std::vector<uint32_t> vars;
    bool fp = false, nl = false;
    for (E c : cs) {
        fp |= c->hasFP;
        nl |= c->hasNL;
        const auto& s = varsOf(c);
        std::vector<uint32_t> t;
        std::set_union(vars.begin(), vars.end(), s.begin(), s.end(), std::back_inserter(t));
        vars.swap(t);
    }
    gSolver.queries++;
    auto t0 = std::chrono::steady_clock::now();
    Sat res = Sat::Unknown;
    // Wide products and quotients: bit-blasting rarely ends, cvc5's integer encoding usually does.
    bool tried = false;
    if (nl && !fp) { res = portfolio(cs, vars, m); tried = true; }
    if (res != Sat::Unknown) {
    } else if (fp) {
        Z3_solver s = newSolver(nullptr);
        for (E c : cs) Z3_solver_assert(ctx, s, z3e(c));
        Z3_lbool r = Z3_solver_check(ctx, s);
        if (r == Z3_L_TRUE) { Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm); readModel(zm, vars, m); Z3_model_dec_ref(ctx, zm); res = Sat::Sat; }
        else if (r == Z3_L_FALSE) res = Sat::Unsat;
        Z3_solver_dec_ref(ctx, s);
    } else {
        if (fdAsserted > 3000) {
            Z3_solver_dec_ref(ctx, fdSolver);
            fdSolver = newSolver("QF_FD");
            litOf.clear();
            fdAsserted = 0;
        }
        std::vector<Z3_ast> lits;
        for (E c : cs) {
            if (c->isTrue()) continue;
            auto l = litOf.find(c->id);
            if (l == litOf.end()) {
                std::string n = "p!" + std::to_string(c->id);
                Z3_ast lit = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bool_sort(ctx));
                Z3_solver_assert(ctx, fdSolver, Z3_mk_implies(ctx, lit, z3e(c)));
                fdAsserted++;
                l = litOf.emplace(c->id, lit).first;
            }
            lits.push_back(l->second);
        }
        // A hard query is given a short time in-process, then goes to the portfolio.
        static unsigned lastT = 0;
        unsigned t = std::min(gSolverCfg.timeoutMs, 8000u);
        if (lastT != t || true) {
            Z3_params p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), t);
            Z3_solver_set_params(ctx, fdSolver, p);
            Z3_params_dec_ref(ctx, p);
            lastT = t;
        }
        Z3_lbool r = Z3_solver_check_assumptions(ctx, fdSolver, lits.size(), lits.data());
        if (r == Z3_L_TRUE) { Z3_model zm = Z3_solver_get_model(ctx, fdSolver); Z3_model_inc_ref(ctx, zm); readModel(zm, vars, m); Z3_model_dec_ref(ctx, zm); res = Sat::Sat; }
        else if (r == Z3_L_FALSE) res = Sat::Unsat;
        else {
            Z3_solver_dec_ref(ctx, fdSolver);
            fdSolver = newSolver("QF_FD");
            litOf.clear();
            fdAsserted = 0;
        }
    }
    if (res == Sat::Unknown && !tried) res = portfolio(cs, vars, m);
    if (res == Sat::Sat && !fp) {
        // Trust, but check: the model must satisfy the constraints under our own evaluator.
        newEvalGeneration();
        for (E c : cs) if (!evalRec(c, m)) { fprintf(stderr, "amsym: solver model does not satisfy constraint %s\n", exprStr(c, 6).c_str()); exit(3); }
    }
    double ms = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
    gSolver.ms += ms;
    if (ms > gSolver.maxMs) gSolver.maxMs = ms;
    if (!gSolverCfg.dumpDir.empty()) {
        static int n = 0;
        std::string fn = gSolverCfg.dumpDir + "/q" + std::to_string(n++) + (res == Sat::Sat ? "-sat" : res == Sat::Unsat ? "-unsat" : "-unknown") + ".smt2";
        if (FILE* f = fopen(fn.c_str(), "w")) { fputs((std::string("; ms ") + std::to_string(ms) + "\n(set-logic " + (fp ? "QF_BVFP" : "QF_BV") + ")\n" + smt2Of(cs, {})).c_str(), f); fclose(f); }
    }
    if (res == Sat::Sat) gSolver.sat++; else if (res == Sat::Unsat) gSolver.unsat++; else gSolver.unknown++;
    if (res != Sat::Unknown) {
        QRes q;
        q.r = res;
        if (res == Sat::Sat) for (uint32_t v : vars) q.model.push_back({v, m.get(v)});
        qcache.emplace(std::move(key), std::move(q));
    }
    return res;
}
