// amsym: bit-vector expressions, hash-consed, with light simplification, and the Z3 back end.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum class Op : uint8_t {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt,
    Concat, Extract, ZExt, SExt, Ite,
    // floating point, operands and results as IEEE bit patterns
    FAdd, FSub, FMul, FDiv, FExt, FTrunc, FLt, FLe, FEq, SIToF, UIToF, FToSI, FToUI
};

struct Expr {
    Op op;
    uint16_t w;
    uint32_t id;
    uint32_t aux;      // Extract: low bit; Var: variable index
    u128 val;          // Const
    const Expr* k[3];
    bool hasFP;
    bool hasNL;        // contains a wide product or quotient of two symbolic values
    bool isConst() const { return op == Op::Const; }
    bool isTrue() const { return op == Op::Const && val == 1; }
    bool isFalse() const { return op == Op::Const && val == 0; }
    uint64_t u64() const { return (uint64_t)val; }
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sext128(u128 v, unsigned w) {
    if (w >= 128) return (s128)v;
    u128 m = (u128)1 << (w - 1);
    return (s128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; };

// Assignment of variables; missing variables are 0.
struct Model {
    std::vector<u128> v;
    u128 get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
    void set(uint32_t i, u128 x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; }
};

extern std::vector<VarInfo> gVars;
extern std::vector<Expr*> gExprs;

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(Op op, E a, E b);
inline E mkAdd(E a, E b) { return mkBin(Op::Add, a, b); }
inline E mkSub(E a, E b) { return mkBin(Op::Sub, a, b); }
inline E mkMul(E a, E b) { return mkBin(Op::Mul, a, b); }
inline E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }
inline E mkXor(E a, E b) { return mkBin(Op::Xor, a, b); }
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkSlt(E a, E b);
E mkNot(E a);               // width 1
inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkFP(Op op, E a, E b, unsigned w);
inline E mkBool(bool b) { return mkConst(b ? 1 : 0, 1); }

u128 evalExpr(E e, const Model& m);
void newEvalGeneration();
const std::vector<uint32_t>& varsOf(E e);
// All values e can take, by structure only (an over-approximation). False if more than limit.
bool valueSet(E e, std::vector<uint64_t>& out, size_t limit);
std::string exprStr(E e, int depth = 4);

enum class Sat { Sat, Unsat, Unknown };

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, fallback = 0; double ms = 0; double maxMs = 0; };
extern SolverStats gSolver;

struct SolverConfig { unsigned timeoutMs = 60000; std::string dumpDir; unsigned seed = 1; bool cross = false; };
extern SolverConfig gSolverCfg;

void solverInit();
// Is the conjunction of cs satisfiable? On Sat, values of the variables occurring in cs are stored in m.
Sat solverCheck(const std::vector<E>& cs, Model& m);
