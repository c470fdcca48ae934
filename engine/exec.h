#pragma once
#include "prog.h"
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/IntrinsicInst.h>
#include <deque>

struct Config {
    std::string entry, out;
    uint64_t maxSteps = 3000000;       // per path
    uint64_t maxAlloc = 1 << 20;       // larger blocks cannot be had
    double timeout = 600;              // whole run, seconds
    int maxViol = 6;
    int preemptions = -1;              // -1: unbounded
    int witnesses = 12;
    int concLimit = 5000;
    bool checkUninit = true;
    bool verbose = false;
    int shard = 0, shards = 1, shardDepth = 0;
    std::map<std::string, long> params;
};
extern Config cfg;

struct Violation { std::string kind, msg, loc; std::vector<std::string> trace; std::vector<std::pair<std::string, std::vector<uint8_t>>> inputs; std::vector<uint8_t> sched; };
struct Witness { std::vector<std::pair<std::string, std::vector<uint8_t>>> inputs; std::vector<uint64_t> obs; std::vector<uint8_t> sched; bool leakOk = true; };
struct Stats { uint64_t paths = 0, killed = 0, instr = 0, forks = 0, redundant = 0, maxThreads = 1, schedPoints = 0, asserts = 0, symAsserts = 0; };
extern Stats gStats;
extern std::vector<Violation> gViol;
extern std::vector<Witness> gWit;
extern std::set<std::string> gCovers;
extern std::set<std::string> gIncomplete;   // reasons why the exploration is not exhaustive

struct PathEnd {};                           // thrown to end the current path

E toE(const Val& v, unsigned w);
bool concretize(State& s, E e, uint64_t& out, const char* why);   // may fork; throws PathEnd
bool decide(State& s, E cond);               // forks when both are feasible; returns the branch taken by s
void violation(State& s, const std::string& kind, const std::string& msg);  // records; throws PathEnd
void pathDone(State& s);       // records a path that ended as it should
void checkNot(State& s, E bad, const char* kind, const std::string& msg);   // violation if bad feasible; continues with !bad
void addConstraint(State& s, E c);
bool feasible(State& s, E c, Model& m);      // false if pc & c is unsatisfiable
std::string curLoc(State& s);
void pushState(State* s);
// memory
uint64_t allocObj(State& s, uint64_t size, uint64_t align, OK kind, uint32_t site, const llvm::Value* v, bool uninit);
int findObj(State& s, uint64_t addr);        // slot containing addr, or -1
Obj* access(State& s, uint64_t addr, uint64_t n, bool write, uint64_t& off, bool track = true);
Val loadVal(State& s, uint64_t addr, llvm::Type* T);
void storeVal(State& s, uint64_t addr, llvm::Type* T, const Val& v);
Val loadBytes(State& s, Obj* ro, int slot, uint64_t off, unsigned w);
void copyBytes(State& s, uint64_t d, uint64_t src, uint64_t n, bool overlapOk);
void fillBytes(State& s, uint64_t d, const Val& v, uint64_t n);
E addrOf(const Val& v);
// threads
void schedule(State& s);
void threadCreated(State& s, int tid);
bool visible(State& s, Pending p);           // true when the operation may run now; otherwise a switch took place
void onAtomic(State& s, uint64_t addr, uint32_t size, bool rd, bool wr, llvm::AtomicOrdering ord, bool rmw);
void onPlain(State& s, uint64_t addr, uint64_t size, bool wr);
void finishThread(State& s);
void spinCheck(State& s, const llvm::Instruction* I, uint64_t addr, uint64_t val);
void wroteTo(State& s, uint64_t addr, uint32_t size);
inline Frame* top(State& s) { return s.th[s.cur].fr.back().mut(); }
Frame* pushFrame(State& s, Fn* f, const std::vector<Val>& args, int dst);
void callBuiltin(State& s, const Inst& x, int b, std::vector<Val>& args);
int liveThreads(State& s);
bool runInst(State& s);
