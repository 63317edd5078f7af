// Timeout events of sofa::pbrpc::TimeoutManager: each one-time callback runs exactly once with the right type, repeating ones repeat until erased or cleared.
// The first interval is any value of 0..40 ms, the others 0, 12 or 25.
// args: mode (0 histories, 1 erase racing with the timer, 2 clear racing with the timer, 3 erase racing with erase, 4 erase and add from inside callbacks), steps
#include "client.h"
#include <sofa/pbrpc/timeout_manager.h>
enum { TICK = 10000, SLACK = 20000, MAXE = 6 };
struct Ev { TimeoutManager::Id id; int64_t at, interval, last; bool rep, live; int runs[3]; bool finished; int running; int erase_true; Ev() : id(0), at(0), interval(0), last(0), rep(false), live(false), finished(false), running(0), erase_true(0) { runs[0] = runs[1] = runs[2] = 0; } };
static Ev ev[MAXE]; static int nev; static TimeoutManager* tm; static int MODE; static int hook_ev = -1, hook_act; static bool cleared;
static void on_event(int k, TimeoutManager::Id id, TimeoutManager::Type ty) {
  Ev& e = ev[k]; e.running++; if (e.id) CHECK(id == e.id, "callback of another event"); CHECK(ty >= 0 && ty <= 2, "type"); e.runs[ty]++;
  if (ty == TimeoutManager::TIMEOUTED && MODE == 0) { CHECK(!e.finished, "a timeout after the event ended"); CHECK(sx_clock_us - e.last >= e.interval * 1000 - TICK, "fired too early"); CHECK(sx_clock_us - e.last <= e.interval * 1000 + SLACK, "fired too late"); sx_reach("timeout"); }
  if (ty != TimeoutManager::TIMEOUTED) { CHECK(e.runs[1] + e.runs[2] == 1, "event ended twice"); if (!e.rep) CHECK(e.runs[0] == 0, "a one-time event ran twice"); }
  if (!e.rep) CHECK(e.runs[0] + e.runs[1] + e.runs[2] == 1, "a one-time event ran twice"); if (ty == TimeoutManager::CLEARED) CHECK(cleared, "cleared though nobody cleared");
  if (!e.rep || ty != TimeoutManager::TIMEOUTED) e.finished = true; e.last = sx_clock_us;
  if (k == hook_ev && ty == TimeoutManager::TIMEOUTED) { hook_ev = -1; sx_reach("inside"); void act(); act(); }
  e.running--; }
static int add(bool rep, int64_t iv) { int k = nev++; Ev& e = ev[k]; e.rep = rep; e.interval = iv; e.at = e.last = sx_clock_us; e.live = true; TimeoutManager::Id id = rep ? tm->add_repeating(iv, NewPermanentExtClosure(&on_event, k)) : tm->add(iv, NewExtClosure(&on_event, k)); for (int i = 0; i < k; i++) CHECK(ev[i].id != id, "id reused"); e.id = id; return k; }
static void erase(int k) { Ev& e = ev[k]; bool was = e.finished; int n = e.runs[1]; bool r = tm->erase(e.id); if (MODE == 0 || MODE == 4) { if (MODE == 0) CHECK(r == !was, "erase() misreports whether the event existed"); CHECK(e.runs[1] - n == (r ? 1 : 0), "erase() reports success without the ERASED callback or fails with it"); } if (r) { e.erase_true++; CHECK(e.erase_true == 1, "erased twice"); sx_reach("erased"); } }
void act() { if (hook_act == 0) add(false, 10); if (hook_act >= 1) for (int i = 0; i < 2; i++) if (i == hook_act - 1) erase(i); }
static void clear() { cleared = true; tm->clear(); for (int i = 0; i < nev; i++) if (MODE == 0) CHECK(ev[i].finished, "clear() left an event"); sx_reach("cleared"); }
static void tick(int n) { for (int i = 0; i < 2 * n; i++) { sx_clock_us += TICK / 2; if (DT::sx_fire_due()) IOS::sx_pump(); } }
static void eraser(void*) { erase(0); } static void clearer(void*) { clear(); } static void pumper(void*) { tick(2); }
static int64_t interval() { if (nev == 0) return sx_range(0, 40, "interval"); static const int V[] = {0, 12, 25}; return V[sx_concretize(sx_range(0, 2, "interval"))]; }
static void overdue() { for (int i = 0; i < nev; i++) { Ev& e = ev[i]; if (!e.finished) CHECK(sx_clock_us - e.last <= e.interval * 1000 + SLACK, "an event is overdue"); } }
void sx_main() {
  MODE = sx_arg(0); int K = sx_arg(1); boost::asio::sx_parked() = true; sx_quiet(1); cleared = false; tm = new TimeoutManager();
  if (MODE == 0) { for (int k = 0; k < K; k++) { int opt[16], n = 0; if (nev < 3) { opt[n++] = 0; opt[n++] = 1; } for (int i = 0; i < nev; i++) opt[n++] = 10 + i; opt[n++] = 2; opt[n++] = 3; opt[n++] = 4; opt[n++] = 5; int e = opt[sx_concretize(sx_range(0, n - 1, "event"))];
      if (e == 0) add(false, interval()); if (e == 1) add(true, interval()); if (e == 2) tick(1); if (e == 3) tick(4); if (e == 4) { sx_clock_us += TICK / 2; if (DT::sx_fire_due()) IOS::sx_pump(); } if (e == 5) clear(), cleared = false; if (e >= 10) erase(e - 10); overdue(); } }
  if (MODE == 1 || MODE == 2 || MODE == 3) { bool rep = sx_concretize(sx_range(0, 1, "repeating")); add(rep, 10); if (MODE != 3) add(true, 10); sx_quiet(0); spawn(MODE == 2 ? clearer : eraser, 0); if (MODE == 3) spawn(eraser, 0); sx_sched_point(); tick(2); for (int k = 0; k < 20 && !all_joined(); k++) sx_yield(); join_spawned(); sx_quiet(1); tick(3);
    Ev& e = ev[0]; if (MODE == 1 || MODE == 3) { if (rep) { CHECK(e.erase_true == 1, "erase() did not find a repeating event"); int n = e.runs[0]; tick(4); CHECK(e.runs[0] == n, "an erased event still repeats"); } else CHECK(e.runs[1] == e.erase_true, "erase() misreports"); } else { for (int i = 0; i < nev; i++) { int n = ev[i].runs[0]; tick(4); CHECK(ev[i].finished, "clear() left an event"); CHECK(ev[i].runs[0] == n, "a cleared event still repeats"); } } }
  if (MODE == 4) { hook_ev = (int)sx_concretize(sx_range(0, 1, "who")); hook_act = (int)sx_concretize(sx_range(0, 2, "act")); add(sx_concretize(sx_range(0, 1, "rep")), 10); add(sx_concretize(sx_range(0, 1, "rep")), 10); tick(4); int n[2] = {ev[0].runs[0], ev[1].runs[0]}; tick(3); for (int i = 0; i < 2; i++) { if (ev[i].finished) CHECK(ev[i].runs[0] == n[i], "an ended event ran again"); else CHECK(ev[i].runs[0] > n[i], "a repeating event stopped"); } }
  cleared = true; bool open[MAXE]; for (int i = 0; i < nev; i++) open[i] = !ev[i].finished; delete tm;
  for (int i = 0; i < nev; i++) { CHECK(ev[i].finished, "an event never ended"); if (open[i]) CHECK(ev[i].runs[2] == 1, "the destructor did not clear the event"); CHECK(ev[i].running == 0, "callback still running"); sx_note(i, ev[i].runs[0]); }
  sx_reach("end"); }
