// amsym: program representation, memory, threads and states.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <set>
#include <string.h>

// Intrusive, non-atomic reference; copy-on-write through mut().
template <typename T> struct Ref {
    T* p = nullptr;
    Ref() {}
    explicit Ref(T* x) : p(x) { if (p) p->rc++; }
    Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
    ~Ref() { drop(); }
    void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
    Ref& operator=(Ref o) { std::swap(p, o.p); return *this; }
    T* operator->() const { return p; }
    T& operator*() const { return *p; }
    explicit operator bool() const { return p; }
    T* mut() { if (p->rc > 1) { T* n = new T(*p); n->rc = 1; p->rc--; p = n; } return p; }
};

struct Agg;
extern Expr UNDEF_EXPR;              // sentinel: undefined scalar
#define UNDEF_E ((E)&UNDEF_EXPR)

// A runtime value: concrete scalar (c), symbolic scalar (e), or aggregate.
struct Val {
    E e = nullptr;
    uint64_t c = 0;
    Ref<Agg> a;
    bool isC() const { return !e && !a; }
    static Val C(uint64_t v) { Val r; r.c = v; return r; }
    static Val X(E e) { Val r; if (e->isConst() && e->w <= 64) r.c = (uint64_t)e->val; else r.e = e; return r; }
    static Val U() { Val r; r.e = UNDEF_E; return r; }
};
struct Agg { int rc = 0; std::vector<Val> v; };

enum class OK : uint8_t { Global, Stack, Malloc, New, NewArr };   // object kinds
struct Obj {
    int rc = 0;
    uint64_t size = 0;
    OK kind = OK::Global;
    bool readonly = false, dead = false, opaque = false, rt = false;
    uint32_t site = 0;                     // allocation site (index in site table)
    std::vector<uint8_t> b;
    std::vector<E> s;                      // empty: all concrete. UNDEF_E: uninitialised byte
    const llvm::Value* v = nullptr;
};
struct Slot { uint64_t addr; Ref<Obj> o; };

struct Fn;
struct Frame {
    int rc = 0;
    Fn* fn = nullptr;
    uint32_t pc = 0;
    std::vector<Val> r;
    std::vector<uint64_t> allocas;
    uint64_t va = 0;                       // address of variadic area
    int dst = -1;                          // caller's slot for the result
};

typedef std::vector<uint32_t> VC;
inline void vcJoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }

enum class PK : uint8_t { None, Start, Mem, Lock, TryLock, Unlock, Join, Yield };
struct Pending { PK k = PK::None; uint64_t addr = 0; uint32_t size = 0; bool write = false; int tid = -1; };

struct Thread {
    std::vector<Ref<Frame>> fr;
    bool finished = false, granted = false;
    Pending pend;
    VC vc, relFence, acqPend;
    // spin detection
    // Atomic reads since this thread last changed anything: one that keeps returning the same value is polling.
    struct Poll { const llvm::Instruction* I; uint64_t addr, val; int n; };
    std::vector<Poll> polls; bool spin = false;
};

struct Shadow { uint32_t wt = 0, wc = 0; bool watomic = false; VC r; VC ra; };   // last write epoch, reads, atomic reads
struct RaceMap { int rc = 0; std::unordered_map<uint64_t, Shadow> m; };
struct SyncMap { int rc = 0; std::map<uint64_t, VC> loc; struct Mx { int owner = -1, count = 0; VC vc; }; std::map<uint64_t, Mx> mx; };
struct OccMap { int rc = 0; std::map<std::string, int> m; };

struct State {
    std::vector<Slot> mem;                 // ascending addresses
    uint64_t bump = 0;
    std::vector<E> pc;
    std::vector<bool> fixed;               // variables forced by pc
    std::vector<std::pair<E, uint64_t>> conc;  // expressions forced to a value
    Model m;
    std::vector<Thread> th;
    int cur = 0;
    uint64_t steps = 0;
    Ref<OccMap> occ;
    std::vector<std::pair<uint32_t, std::string>> inputs;  // variable index, name (order of creation)
    std::vector<std::pair<E, uint64_t>> obs; // E or concrete
    std::vector<uint8_t> sched;            // chosen threads, in order
    std::vector<std::pair<int, Pending>> sleep;
    Ref<RaceMap> race;
    Ref<SyncMap> sync;
    std::vector<std::pair<uint64_t, uint64_t>> freed;
    uint64_t nalloc = 0;
    uint64_t heapMark = 0;
    int preempt = 0, wakes = 0;
    int depth = 0;
};

// ---- compiled program
struct Opnd { int i; };                    // >=0: frame slot; <0: constant ~i
enum class IC : uint8_t { Bin, Cmp, Cast, Load, Store, Alloca, Gep, Br, CondBr, Switch, Ret, Call, Select, ExtractV, InsertV, Phi, Cmpxchg, Rmw, Fence, Unreachable, FNeg, Freeze, FCmp, VaArg, Nop, Unsup, ExtractE, InsertE, Shuffle };
struct PhiMove { int dst; Opnd src; };
struct Edge { uint32_t pc; std::vector<PhiMove> mv; };
struct GepStep { Opnd o; uint64_t scale; unsigned w; };
struct Inst {
    IC op; uint8_t sub = 0;
    bool nsw = false, nuw = false, exact = false, vol = false, atomic = false;
    uint16_t w = 0, sw = 0;
    int dst = -1;
    uint32_t align = 1;
    Opnd a{0}, b{0}, c{0};
    llvm::Type* ty = nullptr;
    llvm::Instruction* I = nullptr;
    std::vector<Edge> edges;
    std::vector<std::pair<u128, int>> cases;  // switch: value -> edge
    std::vector<GepStep> gep; uint64_t goff = 0;
    std::vector<Opnd> args;
    llvm::Function* callee = nullptr;
    int builtin = -1;                         // resolved builtin index
    Fn* fn = nullptr;
    std::vector<unsigned> idx;
    llvm::AtomicOrdering ord = llvm::AtomicOrdering::NotAtomic;
};
struct Fn {
    llvm::Function* F = nullptr;
    bool compiled = false, repo = false, rt = false;
    uint64_t hits = 0;
    unsigned nslots = 0;
    std::vector<Inst> code;
    uint32_t entry = 0;
};
