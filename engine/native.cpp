// Native replay runtime: feeds the solver's values to the compiled harness and follows the recorded schedule.
#include "sx.h"
#include "race.h"
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <unistd.h>
#include <new>
#include <malloc.h>
struct In { std::string name; unsigned w; uint64_t v; };
static std::vector<In> ins; static size_t pos = 0; static int preemptBound = -1, preempts = 0; static std::vector<int> args; static bool pad = false;
static long heapLive = 0;
static void done(int rc) { fflush(stdout); fflush(stderr); _exit(rc); }
static uint64_t next(const char* name) {
  if (pos >= ins.size()) { printf("SX-END inputs exhausted at %s\n", name); done(3); }
  if (ins[pos].name != name) { printf("SX-DIVERGED expected input %s got %s at %zu\n", name, ins[pos].name.c_str(), pos); done(4); }
  return ins[pos++].v; }
struct Th { std::thread* t; int status = 0; int* blk = nullptr; int want = 0; };
static std::mutex mu; static std::condition_variable cv; static std::vector<Th*> ths; static int cur = 0; static thread_local int me = 0; static thread_local bool fresh = false;
static bool allowDead = false; static int quiet = 0;
static bool enabled(int t) { Th* T = ths[t]; if (T->status >= 2) return false; if (T->status == 0) return true; return T->want ? *T->blk != 0 : *T->blk == 0; }
static void waitTurn(std::unique_lock<std::mutex>& l) { cv.wait(l, [] { return cur == me; }); }
static void dead() { printf("SX-VIOLATION deadlock: all remaining threads are blocked forever\n"); done(77); }
static void pick(bool meEn, std::unique_lock<std::mutex>& l, bool block) {
  std::vector<int> en; for (int t = 0; t < (int)ths.size(); t++) if (t == me ? meEn : enabled(t)) en.push_back(t);
  if (en.empty()) { 
    int j = -1; for (int t = 0; t < (int)ths.size(); t++) if (ths[t]->status == 3) j = t;
    bool others = true; for (int t = 0; t < (int)ths.size(); t++) if (t != j && ths[t]->status != 2) others = false;
    if (j >= 0 && (others || allowDead)) { cur = j; ths[j]->status = 0; cv.notify_all(); if (block && cur != me) waitTurn(l); return; }
    dead(); }
  int ch;
  if (en.size() == 1) ch = en[0];
  else if (quiet) { ch = me; if (!meEn) { ch = en[0]; for (size_t i = en.size(); i-- > 0;) if (en[i] > me) ch = en[i]; } }
  else if (meEn && preemptBound >= 0 && preempts >= preemptBound) ch = me;
  else { uint64_t i = next("sched"); if (i >= en.size()) { printf("SX-DIVERGED sched\n"); done(4); } ch = en[i]; if (meEn && ch != me) preempts++; }
  cur = ch; if (ths[ch]->status == 1) ths[ch]->status = 0; cv.notify_all(); if (block && cur != me) waitTurn(l); }
extern "C" {
void sx_bytes(void* p, uint64_t n, const char* name) { for (uint64_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next(name); }
int64_t sx_range(int64_t lo, int64_t hi, const char* name) { if (lo > hi) { printf("SX-END range\n"); done(3); } if (lo == hi) return lo; return (int64_t)((uint64_t)lo + next(name)); }
uint64_t sx_u64(const char* name) { return next(name); }
void sx_assume(int c) { if (!c) { printf("SX-END assume\n"); done(3); } }
void sx_fail(const char* m) { printf("SX-VIOLATION assert: %s\n", m); done(77); }
void sx_assert(int c, const char* m) { if (!c) sx_fail(m); }
void sx_reach(const char* l) { printf("SX-REACH %s\n", l); }
void sx_note(int t, uint64_t v) { printf("SX-NOTE %d %llu\n", t, (unsigned long long)v); }
extern "C" __attribute__((weak)) int sx_cfg_race; static bool raceOn() { return &sx_cfg_race && ths.size() > 1 && !quiet; }
static std::mutex rmu; static thread_local int inRace; struct RLock { RLock() { inRace++; rmu.lock(); } ~RLock() { rmu.unlock(); inRace--; } }; static Race& RC() { static Race r; return r; }
static bool onStack(const void* p) { static thread_local char *lo = 0, *hi = 0; if (!hi) { pthread_attr_t a; void* b; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &b, &n); pthread_attr_destroy(&a); lo = (char*)b; hi = lo + n; } return (const char*)p >= lo && (const char*)p < hi; }
void sx_hb_acq(const volatile void* a) { if (raceOn()) { RLock l; RC().acq(me, (uint64_t)a); } }
void sx_hb_rel(const volatile void* a) { if (raceOn()) { RLock l; RC().rel(me, (uint64_t)a); } }
int sx_race_ctx(int on) { RLock l; Race& r = RC(); r.grow(me); int o = r.ctx[me]; r.ctx[me] = on; return o; }
void sx_race(const void* p, int st) { if (!raceOn() || onStack(p)) return; RLock l; if (RC().access(me, (uint64_t)p, st)) { printf("SX-VIOLATION race: unordered accesses to one container or smart pointer\n"); done(77); } }
void sx_race_c(const void* p, int st) { if (!raceOn()) return; bool in; { RLock l; RC().grow(me); in = RC().ctx[me]; } if (in) sx_race(p, st); }
int sx_thread_create(void (*fn)(void*), void* arg) { std::unique_lock<std::mutex> l(mu); int id = ths.size(); Th* T = new Th; ths.push_back(T); { RLock l3; RC().grow(me); RC().create(me, id); }
  T->t = new std::thread([=] { me = id; fresh = true; { std::unique_lock<std::mutex> l2(mu); waitTurn(l2); } fn(arg); std::unique_lock<std::mutex> l2(mu); ths[me]->status = 2; pick(false, l2, false); }); T->t->detach(); return id; }
void sx_sched_point() { if (ths.size() <= 1) return; if (fresh) { fresh = false; return; } std::unique_lock<std::mutex> l(mu); pick(true, l, true); }
void sx_quiet(int q) { quiet = q; if (raceOn()) { RLock l; RC().barrier(); } }
void sx_yield() { if (ths.size() <= 1) return; if (fresh) { fresh = false; RLock l3; RC().acqAll(me); return; } std::unique_lock<std::mutex> l(mu); bool other = false; for (int t = 0; t < (int)ths.size(); t++) if (t != me && enabled(t)) other = true; if (other) pick(false, l, true); RLock l3; RC().acqAll(me); }
struct WR { const volatile char* p; uint64_t n; }; 
static std::vector<WR> watches;
void sx_watch(const volatile void* p, uint64_t n) { watches.push_back({(const volatile char*)p, n}); }
void sx_access(void* p, uint64_t n, int) { if (ths.size() <= 1) return; for (auto& w : watches) if ((const volatile char*)p < w.p + w.n && w.p < (const volatile char*)p + n) { sx_sched_point(); return; } }
void sx_block_on(int* p, int want) { fresh = false; if (want ? *p != 0 : *p == 0) return; std::unique_lock<std::mutex> l(mu); ths[me]->status = 1; ths[me]->blk = p; ths[me]->want = want; pick(false, l, true); }
void sx_join_all() { std::unique_lock<std::mutex> l(mu); bool all = true; for (int t = 0; t < (int)ths.size(); t++) if (t != me && ths[t]->status != 2) all = false; if (!all) { ths[me]->status = 3; pick(false, l, true); } RLock l3; RC().acqAll(me); }
void sx_allow_deadlock() { allowDead = true; }
int sx_tid() { return me; }
int64_t sx_heap_live() { return heapLive; }
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_is_symbolic(uint64_t) { return 0; }
int sx_arg(int i) { return i < (int)args.size() ? args[i] : 0; }
int sx_native() { return 1; }
int sx_valid(const void*, uint64_t) { return 1; }
void sx_end_path() { printf("SX-END path\n"); done(3); }
void sx_dbg(const char* s, uint64_t v) { fprintf(stderr, "DBG %s %lld\n", s, (long long)v); }
}
static void sx_freed(void* p) { if (!inRace && &sx_cfg_race && ths.size() > 1) { size_t n = malloc_usable_size(p); RLock l; RC().freed((uint64_t)p, n); } }
void* operator new(size_t n) { heapLive++; void* p = malloc(n); if (!p) { printf("SX-VIOLATION exception: bad_alloc\n"); done(77); } memset(p, 0xCD, n < (1u << 20) ? n : 0); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { heapLive--; sx_freed(p); free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
extern "C" void* sx_m_malloc(size_t n) { heapLive++; void* p = malloc(n); if (p) memset(p, 0xCD, n < (1u << 20) ? n : 0); return p; }
extern "C" void sx_m_free(void* p) { if (p) { heapLive--; sx_freed(p); free(p); } }
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r"); if (!f) return 9; char name[256]; unsigned w; unsigned long long v; 
  while (fscanf(f, "%255s %u %llu", name, &w, &v) == 3) { if (!strcmp(name, "@preempt")) preemptBound = w == 1 ? (int)v : -1; else if (!strcmp(name, "@arg")) args.push_back((int)(long long)v); else ins.push_back({name, w, v}); }
  fclose(f); Th* T = new Th; ths.push_back(T); heapLive = 0; setvbuf(stdout, 0, _IOLBF, 0);
  sx_main(); printf("SX-DONE\n"); done(0); }
