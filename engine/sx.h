// Harness interface of the symbolic executor (see DESIGN.md).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sx_bytes(void* p, uint64_t n, const char* name);          // n fresh symbolic bytes
int64_t sx_range(int64_t lo, int64_t hi, const char* name);    // symbolic integer in [lo,hi]
uint64_t sx_u64(const char* name);                             // any 64-bit value
void sx_assume(int c);
void sx_assert(int c, const char* msg);
void sx_fail(const char* msg);
void sx_reach(const char* label);                              // reachability witness
void sx_note(int tag, uint64_t v);                             // observable recorded for native cross-validation
int sx_thread_create(void (*fn)(void*), void* arg);
void sx_join_all(void);
void sx_allow_deadlock(void);
void sx_sched_point(void);
void sx_access(void* p, uint64_t n, int st);
void sx_block_on(int* p, int want_nonzero);
void sx_yield(void);                                           // let another enabled thread run (a fair poll loop)
void sx_quiet(int on);                                         // 1: schedule deterministically (set-up and tear-down phases)
int sx_tid(void);
void sx_hb_acq(const volatile void* a);                        // happens-before edges for the race detector (a is only a key)
void sx_hb_rel(const volatile void* a);
void sx_race(const void* p, int st);                           // an access to a container of the code under test
int sx_race_ctx(int on);                                       // inside a container operation of the code under test; returns the old value
void sx_race_c(const void* p, int st);                         // an access that counts only inside such an operation
int64_t sx_heap_live(void);
void sx_watch(const volatile void* p, uint64_t n);             // plain accesses to this range become scheduling points
uint64_t sx_concretize(uint64_t v);                            // exhaustive case split
int sx_is_symbolic(uint64_t v);
int sx_arg(int i);                                             // configuration argument
int sx_native(void);
int sx_valid(const void* p, uint64_t n);                       // range inside one live object (always 1 natively)
void sx_end_path(void);
void sx_dbg(const char* s, uint64_t v);
extern int64_t sx_clock_us;                                     // the clock, microseconds (advanced by the harness)
void sx_main(void);
#ifdef __cplusplus
}
#endif
#define SX_ASSERT(c) sx_assert(!!(c), #c)
