#pragma once
#include "state.h"
extern llvm::Module* M;
extern const llvm::DataLayout* DL;
extern std::unordered_map<const llvm::Function*, Fn*> fnOf;
extern std::unordered_map<uint64_t, Fn*> fnAt;          // function address -> function
extern std::vector<Val> consts;                          // constant pool
extern std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
extern std::set<std::string> repoPrefix;
enum Builtin : int {
    B_none = -1,
    // engine API
    B_symbolic, B_assume, B_assert, B_observe, B_cover, B_finish, B_leaks, B_param, B_thread_create, B_thread_join, B_thread_self, B_sync,
    B_mutex_lock, B_mutex_trylock, B_mutex_unlock, B_yield, B_heap_live, B_alloc_count, B_is_native, B_mark_heap, B_valid, B_range, B_note, B_mutex_owner,
    // allocation
    B_malloc, B_free, B_calloc, B_realloc, B_aligned_alloc, B_posix_memalign, B_new, B_newarr, B_new_al, B_newarr_al, B_del, B_delarr,
    // memory
    B_memcpy, B_memmove, B_memset,
    // termination
    B_abort, B_assert_fail, B_throw, B_exit, B_purevirt, B_ret0,
    // intrinsics
    B_nop, B_lifetime_start, B_lifetime_end, B_ctlz, B_cttz, B_ctpop, B_bswap, B_expect, B_objectsize, B_isconst,
    B_sadd_o, B_uadd_o, B_ssub_o, B_usub_o, B_smul_o, B_umul_o, B_smax, B_smin, B_umax, B_umin, B_abs, B_trap,
    B_fshl, B_fshr, B_uadd_sat, B_usub_sat, B_sadd_sat, B_ssub_sat, B_ptrmask, B_fabs, B_isfpclass, B_stacksave, B_va_start, B_va_copy, B_tls, B_fptoui_sat, B_copysign, B_fmuladd, B_bitreverse
};
void loadProgram(const std::vector<std::string>& files);
void layoutGlobals(State& s);
Fn* getFn(llvm::Function* F);      // compiled on demand
uint32_t siteOf(const std::string& d);
extern std::vector<std::string> siteName;
std::string locOf(const llvm::Instruction* I);
std::string fnName(const llvm::Function* F);
Val constVal(const llvm::Constant* C);
bool inRepo(const llvm::Function* F);
