// pthread / time model shared by the symbolic run and the native replay.
#include "sx.h"
#include <pthread.h>
#include <time.h>
#include <errno.h>
#include <sys/time.h>
extern "C" {
static int32_t* W(volatile void* m) { return (int32_t*)m; }
int sx_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { W(m)[0] = 0; W(m)[1] = 0; return 0; }
int sx_pthread_mutex_destroy(pthread_mutex_t* m) { if (W(m)[0]) sx_fail("mutex destroyed while locked"); return 0; }
int sx_pthread_mutex_lock(pthread_mutex_t* m) { sx_sched_point(); while (W(m)[0]) sx_block_on(&W(m)[0], 0); W(m)[0] = 1; W(m)[1] = sx_tid() + 1; sx_hb_acq(m); return 0; }
int sx_pthread_mutex_trylock(pthread_mutex_t* m) { sx_sched_point(); if (W(m)[0]) return EBUSY; W(m)[0] = 1; W(m)[1] = sx_tid() + 1; sx_hb_acq(m); return 0; }
int sx_pthread_mutex_unlock(pthread_mutex_t* m) { if (!W(m)[0]) sx_fail("unlock of a mutex that is not locked"); if (W(m)[1] != sx_tid() + 1) sx_fail("mutex unlocked by another thread"); sx_hb_rel(m); W(m)[0] = 0; W(m)[1] = 0; sx_sched_point(); return 0; }
// condition variable: [0]=number of waiters, [2..] = queue of pointers to granted flags (max 5)
static int** Q(pthread_cond_t* c) { return (int**)((char*)c + 8); }
int sx_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { W(c)[0] = 0; return 0; }
int sx_pthread_cond_destroy(pthread_cond_t*) { return 0; }
int sx_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  int granted = 0; int n = W(c)[0]; if (n >= 5) sx_fail("cond model: too many waiters"); Q(c)[n] = &granted; W(c)[0] = n + 1;
  sx_pthread_mutex_unlock(m); while (!granted) sx_block_on(&granted, 1); return sx_pthread_mutex_lock(m); }
int sx_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  if (sx_range(0, 1, "timedwait_expires")) { sx_pthread_mutex_unlock(m); sx_pthread_mutex_lock(m); return ETIMEDOUT; }
  return sx_pthread_cond_wait(c, m); }
int sx_pthread_cond_signal(pthread_cond_t* c) { sx_sched_point(); int n = W(c)[0]; if (!n) return 0; *Q(c)[0] = 1; for (int i = 1; i < n; i++) Q(c)[i - 1] = Q(c)[i]; W(c)[0] = n - 1; return 0; }
int sx_pthread_cond_broadcast(pthread_cond_t* c) { sx_sched_point(); int n = W(c)[0]; for (int i = 0; i < n; i++) *Q(c)[i] = 1; W(c)[0] = 0; return 0; }
int sx_pthread_spin_init(pthread_spinlock_t* l, int) { *W(l) = 0; return 0; }
int sx_pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int sx_pthread_spin_lock(pthread_spinlock_t* l) { sx_sched_point(); while (*W(l)) sx_block_on(W(l), 0); *W(l) = 1; sx_hb_acq(l); return 0; }
int sx_pthread_spin_trylock(pthread_spinlock_t* l) { sx_sched_point(); if (*W(l)) return EBUSY; *W(l) = 1; sx_hb_acq(l); return 0; }
int sx_pthread_spin_unlock(pthread_spinlock_t* l) { if (!*W(l)) sx_fail("unlock of a spin lock that is not locked"); sx_hb_rel(l); *W(l) = 0; sx_sched_point(); return 0; }
// rwlock: [0]=writer, [1]=readers, [2]=any (writer or readers)
int sx_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { W(l)[0] = W(l)[1] = W(l)[2] = 0; return 0; }
int sx_pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int sx_pthread_rwlock_rdlock(pthread_rwlock_t* l) { sx_sched_point(); while (W(l)[0]) sx_block_on(&W(l)[0], 0); W(l)[1]++; W(l)[2] = 1; sx_hb_acq(l); return 0; }
int sx_pthread_rwlock_wrlock(pthread_rwlock_t* l) { sx_sched_point(); while (W(l)[2]) sx_block_on(&W(l)[2], 0); W(l)[0] = 1; W(l)[2] = 1; sx_hb_acq(l); sx_hb_acq(W(l) + 1); return 0; }
int sx_pthread_rwlock_unlock(pthread_rwlock_t* l) { sx_hb_rel(W(l)[0] ? W(l) : W(l) + 1); if (W(l)[0]) W(l)[0] = 0; else if (W(l)[1] > 0) W(l)[1]--; else sx_fail("rwlock unlocked while not held"); W(l)[2] = W(l)[1] > 0; sx_sched_point(); return 0; }
unsigned long sx_pthread_self() { return (unsigned long)sx_tid() + 1; }
int sx_pthread_once(pthread_once_t* o, void (*f)()) { if (*W(o) == 0) { *W(o) = 1; f(); sx_hb_rel(o); } sx_hb_acq(o); return 0; }
static void* g_tls[64][8];
static unsigned g_nkeys;
int sx_pthread_key_create(pthread_key_t* k, void (*)(void*)) { *k = g_nkeys++; return 0; }
int sx_pthread_key_delete(pthread_key_t) { return 0; }
void* sx_pthread_getspecific(pthread_key_t k) { return g_tls[k][sx_tid()]; }
int sx_pthread_setspecific(pthread_key_t k, const void* v) { g_tls[k][sx_tid()] = (void*)v; return 0; }
struct sx_pt { void* (*fn)(void*); void* arg; int done; };
static sx_pt g_pt[16];
static void sx_pt_run(void* p) { sx_pt* t = (sx_pt*)p; t->fn(t->arg); sx_hb_rel(t); t->done = 1; }
static int g_npt;
__attribute__((weak)) int sx_hook_thread_create_fails() { return 0; }
int sx_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (sx_hook_thread_create_fails()) return EAGAIN;
  int i = g_npt++; if (i >= 16) sx_fail("thread model: too many threads"); g_pt[i].fn = fn; g_pt[i].arg = arg; g_pt[i].done = 0; *t = (pthread_t)(i + 100); sx_thread_create(sx_pt_run, &g_pt[i]); sx_sched_point(); return 0; }
int sx_pthread_join(pthread_t t, void**) { int i = (int)t - 100; while (!g_pt[i].done) sx_block_on(&g_pt[i].done, 1); sx_hb_acq(&g_pt[i]); return 0; }
int sx_pthread_detach(pthread_t) { return 0; }
// clock: controlled by the harness; microseconds since the epoch
int64_t sx_clock_us = 1000000000LL * 1000000LL;
__attribute__((weak)) void sx_hook_clock() {}
int sx_gettimeofday(struct timeval* tv, void*) { sx_hook_clock(); tv->tv_sec = sx_clock_us / 1000000; tv->tv_usec = sx_clock_us % 1000000; return 0; }
int sx_clock_gettime(clockid_t, struct timespec* ts) { sx_hook_clock(); ts->tv_sec = sx_clock_us / 1000000; ts->tv_nsec = (sx_clock_us % 1000000) * 1000; return 0; }
time_t sx_time(time_t* t) { sx_hook_clock(); time_t r = sx_clock_us / 1000000; if (t) *t = r; return r; }
__attribute__((weak)) void sx_hook_sleep(int64_t) {}
int sx_usleep(unsigned us) { sx_hook_sleep(us); sx_yield(); return 0; }
int sx_nanosleep(const struct timespec* ts, struct timespec*) { sx_hook_sleep(ts->tv_sec * 1000000 + ts->tv_nsec / 1000); sx_yield(); return 0; }
unsigned sx_sleep(unsigned s) { sx_hook_sleep((int64_t)s * 1000000); sx_yield(); return 0; }
int sx_sched_yield() { sx_yield(); return 0; }
struct tm* sx_localtime_r(const time_t*, struct tm* t) { for (unsigned i = 0; i < sizeof *t; i++) ((char*)t)[i] = 0; t->tm_mday = 1; t->tm_year = 100; return t; }
struct tm* sx_gmtime_r(const time_t* c, struct tm* t) { return sx_localtime_r(c, t); }
static struct tm g_tm;
struct tm* sx_localtime(const time_t* c) { return sx_localtime_r(c, &g_tm); }
int sx_rand() { return (int)sx_range(0, 0x7fffffff, "rand"); }
void sx_srand(unsigned) {}
int sx_getpid() { return 4242; }
int sx_fcntl(int, int, ...) { return 0; }
}
