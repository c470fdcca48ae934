// amsym: symbolic executor for LLVM bitcode. Entry point, exploration loop, report.
#include "exec.h"
#include <chrono>
#include <random>
#include <sys/resource.h>
using namespace llvm;

Config cfg;
Stats gStats;
std::vector<Violation> gViol;
std::vector<Witness> gWit;
std::set<std::string> gCovers;
std::set<std::string> gIncomplete;
static std::vector<State*> work;
static std::chrono::steady_clock::time_point t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

void pushState(State* s) { work.push_back(s); }

static std::vector<std::pair<std::string, std::vector<uint8_t>>> inputsOf(State& s, const Model& m) {
    std::vector<std::pair<std::string, std::vector<uint8_t>>> r;
    std::set<uint32_t> seen;
    for (auto& i : s.inputs) {
        if (!seen.insert(i.first).second) continue;
        u128 v = m.get(i.first);
        std::vector<uint8_t> b;
        for (unsigned k = 0; k < gVars[i.first].w / 8; k++) b.push_back((uint8_t)(v >> (8 * k)));
        r.push_back({i.second, b});
    }
    return r;
}

static std::vector<std::string> traceOf(State& s) {
    std::vector<std::string> r;
    auto& t = s.th[s.cur];
    for (size_t i = t.fr.size(); i-- > 0;) {
        Frame* f = t.fr[i].p;
        uint32_t pc = f->pc;
        if (i + 1 < t.fr.size() && pc) pc--;
        if (pc < f->fn->code.size()) r.push_back(locOf(f->fn->code[pc].I));
        if (r.size() > 25) break;
    }
    return r;
}

static std::map<std::string, int> violSeen;
void violation(State& s, const std::string& kind, const std::string& msg) {
    std::string loc = curLoc(s);
    std::string key = kind + "|" + msg + "|" + loc;
    // keep up to three instances per distinct violation so that one that is hard to replay has alternatives
    if (violSeen.empty()) {          // the answer is known; look on for other violations, but not for long
        cfg.timeout = std::min(cfg.timeout, now() + 90);
        gSolverCfg.timeoutMs = std::min(gSolverCfg.timeoutMs, 15000u);
    }
    int& n = violSeen[key];
    if (n++ < 3) {
        Violation v;
        v.kind = kind;
        v.msg = msg;
        v.loc = loc;
        v.trace = traceOf(s);
        v.inputs = inputsOf(s, s.m);
        v.sched = s.sched;
        gViol.push_back(v);
        if (cfg.verbose) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str());
    }
    gStats.killed++;
    throw PathEnd();
}

static std::mt19937_64 rng(1);
void pathDone(State& s) {
    gStats.paths++;
    // reservoir sample of completed paths, replayed natively by the driver
    size_t k = gStats.paths;
    size_t pos = gWit.size();
    if ((int)gWit.size() >= cfg.witnesses) { pos = rng() % k; if (pos >= (size_t)cfg.witnesses) return; }
    Witness w;
    w.inputs = inputsOf(s, s.m);
    newEvalGeneration();
    for (auto& o : s.obs) w.obs.push_back(o.first ? (uint64_t)evalExpr(o.first, s.m) : o.second);
    w.sched = s.sched;
    if (pos < gWit.size()) gWit[pos] = w; else gWit.push_back(w);
}

static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void jInputs(FILE* f, const std::vector<std::pair<std::string, std::vector<uint8_t>>>& in) {
    fprintf(f, "[");
    for (size_t i = 0; i < in.size(); i++) {
        fprintf(f, "%s[\"%s\",\"", i ? "," : "", esc(in[i].first).c_str());
        for (auto b : in[i].second) fprintf(f, "%02x", b);
        fprintf(f, "\"]");
    }
    fprintf(f, "]");
}
static void report() {
    FILE* f = cfg.out.empty() ? stdout : fopen(cfg.out.c_str(), "w");
    if (!f) { perror("out"); exit(3); }
    fprintf(f, "{\n\"entry\":\"%s\",\n", esc(cfg.entry).c_str());
    fprintf(f, "\"incomplete\":[");
    bool first = true;
    for (auto& i : gIncomplete) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(i).c_str()); first = false; }
    fprintf(f, "],\n\"covers\":[");
    first = true;
    for (auto& i : gCovers) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(i).c_str()); first = false; }
    fprintf(f, "],\n\"violations\":[");
    for (size_t i = 0; i < gViol.size(); i++) {
        auto& v = gViol[i];
        fprintf(f, "%s\n{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"trace\":[", i ? "," : "", esc(v.kind).c_str(), esc(v.msg).c_str(), esc(v.loc).c_str());
        for (size_t j = 0; j < v.trace.size(); j++) fprintf(f, "%s\"%s\"", j ? "," : "", esc(v.trace[j]).c_str());
        fprintf(f, "],\"sched\":[");
        for (size_t j = 0; j < v.sched.size(); j++) fprintf(f, "%s%d", j ? "," : "", v.sched[j]);
        fprintf(f, "],\"inputs\":");
        jInputs(f, v.inputs);
        fprintf(f, "}");
    }
    fprintf(f, "],\n\"witnesses\":[");
    for (size_t i = 0; i < gWit.size(); i++) {
        auto& w = gWit[i];
        fprintf(f, "%s\n{\"inputs\":", i ? "," : "");
        jInputs(f, w.inputs);
        fprintf(f, ",\"sched\":[");
        for (size_t j = 0; j < w.sched.size(); j++) fprintf(f, "%s%d", j ? "," : "", w.sched[j]);
        fprintf(f, "],\"obs\":[");
        for (size_t j = 0; j < w.obs.size(); j++) fprintf(f, "%s\"%llx\"", j ? "," : "", (unsigned long long)w.obs[j]);
        fprintf(f, "]}");
    }
    fprintf(f, "],\n\"functions\":[");
    std::set<std::string> names;
    for (auto& p : fnOf) if (p.second->hits && p.second->repo) names.insert(fnName(p.first));
    first = true;
    for (auto& n : names) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(n).c_str()); first = false; }
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    fprintf(f, "],\n\"stats\":{\"paths\":%llu,\"killed\":%llu,\"instructions\":%llu,\"forks\":%llu,\"redundant\":%llu,\"schedule_points\":%llu,\"threads\":%llu,\"asserts\":%llu,\"symbolic_asserts\":%llu,"
        "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"portfolio\":%llu,\"solver_ms\":%.1f,\"max_query_ms\":%.1f,\"wall_s\":%.2f,\"rss_mb\":%ld,\"exprs\":%zu}\n}\n",
        (unsigned long long)gStats.paths, (unsigned long long)gStats.killed, (unsigned long long)gStats.instr, (unsigned long long)gStats.forks, (unsigned long long)gStats.redundant,
        (unsigned long long)gStats.schedPoints, (unsigned long long)gStats.maxThreads, (unsigned long long)gStats.asserts, (unsigned long long)gStats.symAsserts,
        (unsigned long long)gSolver.queries, (unsigned long long)gSolver.sat, (unsigned long long)gSolver.unsat, (unsigned long long)gSolver.unknown, (unsigned long long)gSolver.cacheHits,
        (unsigned long long)gSolver.modelHits, (unsigned long long)gSolver.fallback, gSolver.ms, gSolver.maxMs, now(), ru.ru_maxrss / 1024, gExprs.size());
    if (f != stdout) fclose(f);
}

static void runPath(State* s) {
    try {
        uint64_t n = 0;
        for (;;) {
            runInst(*s);
            if (s->steps > cfg.maxSteps) violation(*s, "nontermination", "more than " + std::to_string(cfg.maxSteps) + " steps without finishing");
            if ((++n & 0xfff) == 0 && now() > cfg.timeout) { gIncomplete.insert("time limit of the exploration reached"); throw PathEnd(); }
        }
    } catch (PathEnd&) {
    } catch (int) {
        if (liveThreads(*s) > 1) { try { violation(*s, "harness", "entry returned while threads still run"); } catch (PathEnd&) {} }
        else pathDone(*s);
    }
    delete s;
}

void instrumentProgram(const std::string& out, const std::string& sanitize);
int main(int argc, char** argv) {
    t0 = std::chrono::steady_clock::now();
    std::vector<std::string> files;
    std::string instr, san;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { if (++i >= argc) { fprintf(stderr, "amsym: %s needs a value\n", a.c_str()); exit(3); } return argv[i]; };
        if (a == "--entry") cfg.entry = next();
        else if (a == "--out") cfg.out = next();
        else if (a == "--max-steps") cfg.maxSteps = std::stoull(next());
        else if (a == "--max-alloc") cfg.maxAlloc = std::stoull(next());
        else if (a == "--timeout") cfg.timeout = std::stod(next());
        else if (a == "--max-violations") cfg.maxViol = std::stoi(next());
        else if (a == "--preemptions") cfg.preemptions = std::stoi(next());
        else if (a == "--witnesses") cfg.witnesses = std::stoi(next());
        else if (a == "--query-timeout") gSolverCfg.timeoutMs = std::stoul(next());
        else if (a == "--dump") gSolverCfg.dumpDir = next();
        else if (a == "--seed") { gSolverCfg.seed = std::stoul(next()); rng.seed(gSolverCfg.seed); }
        else if (a == "--no-uninit") cfg.checkUninit = false;
        else if (a == "--instrument") instr = next();
        else if (a == "--sanitize") san = next();
        else if (a == "-v") cfg.verbose = true;
        else if (a == "--param") { std::string p = next(); size_t e = p.find('='); cfg.params[p.substr(0, e)] = std::stol(p.substr(e + 1)); }
        else files.push_back(a);
    }
    loadProgram(files);
    if (!instr.empty()) { instrumentProgram(instr, san); return 0; }
    solverInit();
    State* s = new State;
    s->occ = Ref<OccMap>(new OccMap);
    s->race = Ref<RaceMap>(new RaceMap);
    s->sync = Ref<SyncMap>(new SyncMap);
    s->th.emplace_back();
    s->th[0].vc = {1};
    siteOf("?");
    layoutGlobals(*s);
    Function* F = M->getFunction(cfg.entry);
    if (!F || F->isDeclaration()) { fprintf(stderr, "amsym: no entry %s\n", cfg.entry.c_str()); return 3; }
    // static initialisers run first
    std::vector<std::pair<uint64_t, Function*>> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& o : ca->operands()) if (auto* cs = dyn_cast<ConstantStruct>(o)) if (auto* cf = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cf});
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : ctors) {
        getFn(c.second);
        pushFrame(*s, fnOf[c.second], {}, -1);
        try { for (;;) { runInst(*s); if (s->steps > 20000000) { fprintf(stderr, "amsym: initialiser does not finish\n"); return 3; } } }
        catch (int) {}
        catch (PathEnd&) { fprintf(stderr, "amsym: static initialiser failed\n"); report(); return 3; }
        if (!work.empty()) { fprintf(stderr, "amsym: static initialiser forked\n"); return 3; }
    }
    s->steps = 0;
    s->heapMark = s->bump;
    s->nalloc = 0;
    getFn(F);
    pushFrame(*s, fnOf[F], {}, -1);
    work.push_back(s);
    while (!work.empty()) {
        if ((int)violSeen.size() >= cfg.maxViol) { gIncomplete.insert("stopped after the configured number of violations"); break; }
        if (now() > cfg.timeout) { gIncomplete.insert("time limit of the exploration reached"); break; }
        State* x = work.back();
        work.pop_back();
        runPath(x);
    }
    report();
    return 0;
}
