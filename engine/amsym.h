// Interface between a verification harness and the two ways of running it:
// symbolically (engine/amsym) and natively (engine/native.cpp, used to replay inputs against the real build).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
void amsym_symbolic(void* p, size_t n, const char* name);      // n bytes at p become arbitrary
uint64_t amsym_range(uint64_t lo, uint64_t hi, const char* name); // arbitrary value in [lo, hi)
void amsym_assume(int cond);
void amsym_assert(int cond, const char* msg);
void amsym_observe(uint64_t v);                                 // compared between symbolic and native runs
void amsym_cover(const char* name);                             // reachability witness
void amsym_check_leaks(void);                                   // every heap block allocated since entry was freed
void amsym_mark_heap(void);                                     // forget blocks allocated so far
uint64_t amsym_heap_live(void);
void amsym_finish(void) __attribute__((noreturn));              // the run ends here, successfully, whatever the other threads are doing
uint64_t amsym_alloc_count(void);
uint64_t amsym_param(const char* name, uint64_t dflt);
int amsym_is_native(void);
int amsym_valid(const void* p, size_t n);
void amsym_note(const char*);
int amsym_thread_create(void (*fn)(void*), void* arg);
void amsym_thread_join(int t);
int amsym_thread_self(void);
void amsym_sync(void* addr, int write);
void amsym_mutex_lock(void* m);
int amsym_mutex_trylock(void* m);
void amsym_mutex_unlock(void* m);
int amsym_mutex_owner(void* m);
int amsym_yield(void);
FILE* amsym_out_open(void);                                     // a stream whose text can be read back
const char* amsym_out_text(FILE*);
void amsym_out_close(FILE*);
const char* amsym_thread_name(void);
#ifdef __cplusplus
}
template <typename T> inline T amsym_any(const char* name) { T v; amsym_symbolic(&v, sizeof v, name); return v; }
inline bool amsym_bool(const char* name) { return amsym_range(0, 2, name) != 0; }
inline int amsym_choice(int n, const char* name) {   // one of 0..n-1, concrete on each path
    uint64_t v = amsym_range(0, n, name);
    for (int i = 0; i < n - 1; i++) if (v == (uint64_t)i) return i;
    return n - 1;
}
#define CHECK(c) amsym_assert(!!(c), #c " (line " AMSYM_STR(__LINE__) ")")
#define CHECKM(c, m) amsym_assert(!!(c), m)
#define COVER(n) amsym_cover(n)
#define AMSYM_STR2(x) #x
#define AMSYM_STR(x) AMSYM_STR2(x)
#define ENTRY(name) extern "C" __attribute__((used, visibility("default"))) void name()
#endif
