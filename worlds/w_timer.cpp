// Timers and sleeps under a simulated clock (C22).
#include <il/Timer.h>

#include "seq.h"

using namespace seq;

namespace {
const int kSlots = 2;
int64_t nowNs() { return g_clock.mono; }

struct World {
  Holder<il::Timer> h[kSlots];
  bool jumps = false;  // somebody sets the wall clock during the run
  struct Model {
    bool running = false;
    int64_t b0 = 0, b1 = 0;      // the start happened in [b0, b1]
    int64_t lo = 0, hi = 0;      // accumulated time is in [lo, hi]
    int periods = 0;             // number of periods added up, each read with the granularity of the clock
    double last = 0;             // what time() gave when last read
    int64_t offset = 0;          // wall clock minus monotonic clock, just before the start
    bool jumped = false;         // the wall clock was set during a period added up
    bool read = false;           // last is to be found again as long as the timer does not run
  } m[kSlots];

  bool check(int k, const char* what) {
    double t = 0;
    const il::Timer& a = *h[k];
    if (!sut("time", [&] { t = a.time(); })) return false;
    evt(what, t);
    Model& w = m[k];
    // known finding: the clock used is the wall clock
    SIM_CHECK(t >= 0, w.jumped ? "wall-clock-jump" : "negative-duration", "%s: the accumulated time is %.17g s", what, t);
    const double slack = w.periods * ((double)g_clock.granularity + 2) + 1e-12 * (double)w.hi;
    SIM_CHECK(t * 1e9 >= (double)w.lo - slack && t * 1e9 <= (double)w.hi + slack, w.jumped ? "wall-clock-jump" : "wrong-duration",
              "%s: the timer gives %.12g s although between %.12g s and %.12g s have passed", what, t, (double)w.lo * 1e-9, (double)w.hi * 1e-9);
    SIM_CHECK(!w.read || t == w.last, "wrong-duration", "%s: the accumulated time changed from %.17g s to %.17g s without a stop", what, w.last, t);
    w.read = true;
    w.last = t;
    return true;
  }
  // after a call that had to sleep until `target`
  void slept(const char* what, bool jumped, int64_t before, int64_t target, uint64_t sleeps0, uint64_t readings0) {
    const int64_t after = nowNs();
    const int64_t tol = g_clock.granularity + 2 + (int64_t)(1e-15 * (double)after);  // what a double can tell
    SIM_CHECK(after + tol >= target, jumped ? "wall-clock-jump-sleep" : "early-wakeup", "%s returned %.9g s too early", what, (double)(target - after) * 1e-9);
    const int64_t s = (int64_t)(g_clock.sleeps - sleeps0), r = (int64_t)(g_clock.readings - readings0);
    const int64_t slack = 2000000 * (s + 1) + (r + 1) * (g_clock.stall_max + g_clock.tick + 1) + tol + 1000;
    SIM_CHECK(after <= (before > target ? before : target) + slack, jumped ? "wall-clock-jump-sleep" : "late-wakeup", "%s returned %.9g s too late (%ld sleep(s))", what, (double)(after - target) * 1e-9, (long)s);
    SIM_CHECK(s <= 3 + (int64_t)g_clock.interrupted * 2 + 3, "late-wakeup", "%s slept %ld times", what, (long)s);
  }
  double drawTime() {
    switch (pick(7)) {
      case 0: return 0.0;
      case 1: return -1.5;
      case 2: return (double)pick(1000) * 1e-9;
      case 3: return (double)pick(1000) * 1e-3;
      case 4: return (double)(1 + pick(1000)) * 0.1;
      case 5: return (double)pick(10000000);
      default: return (double)pick(1000000) * 1.37e-6;
    }
  }
  bool step() {
    const int k = (int)pick(kSlots);
    Model& w = m[k];
    if (!h[k].live()) {
      h[k].raw();
      w = Model();
      return sut("Timer()", [&] { new (h[k].p) il::Timer{}; });
    }
    il::Timer& a = *h[k];
    switch (pick(12)) {
      case 0: case 1: case 2: {
        if (w.running) return true;
        w.b0 = nowNs();
        w.offset = g_clock.wall_offset;
        if (!sut("Start", [&] { a.Start(); })) return false;
        w.b1 = nowNs();
        w.running = true;
        return true;
      }
      case 3: case 4: {
        if (!w.running) return true;
        const int64_t e0 = nowNs();
        if (!sut("Stop", [&] { a.Stop(); })) return false;
        const int64_t e1 = nowNs();
        w.running = false;
        ++w.periods;
        if (g_clock.wall_offset != w.offset) w.jumped = true;
        w.lo += e0 > w.b1 ? e0 - w.b1 : 0;
        w.hi += e1 - w.b0;
        w.read = false;
        return true;
      }
      case 5:
        w = Model();
        return sut("Reset", [&] { a.Reset(); });
      case 6: case 7: {
        if (!w.running) return true;
        double t = drawTime();
        // sometimes about now
        if (pick(3) == 0) t = (double)(nowNs() - w.b0 + (int64_t)pick(2001) - 1000) * 1e-9;
        const int64_t before = nowNs();
        const uint64_t s = g_clock.sleeps, r = g_clock.readings;
        setStepBudget(2000000);
        if (!sut("sleepUntil", [&] { a.sleepUntil(t); })) return false;
        evt("slept until", t);
        slept("sleepUntil", g_clock.wall_offset != w.offset, before, w.b0 + (int64_t)(t * 1e9) - 1, s, r);
        return true;
      }
      case 8: {
        const double t = drawTime();
        const int64_t before = nowNs(), offset = g_clock.wall_offset;
        const uint64_t s = g_clock.sleeps, r = g_clock.readings;
        setStepBudget(2000000);
        if (!sut("sleep", [&] { il::sleep(t); })) return false;
        evt("slept", t);
        slept("sleep", g_clock.wall_offset != offset, before, before + (int64_t)(t * 1e9) - 1, s, r);
        return true;
      }
      case 9: case 10: {  // the program works for a while
        const int64_t d = (int64_t)(pick(3) ? pick(5000000) : pick(3000) * 1000000000ull);
        g_clock.mono += d;
        simTime((uint64_t)d);
        return true;
      }
      default: {
        if (!jumps || pick(3) == 0) return h[k].destroy("destruction");
        g_clock.wall_offset += ((int64_t)pick(2000001) - 1000000) * 10000000ll;  // somebody sets the clock
        fault("clock-jump");
        return true;
      }
    }
  }
  void run() {
    Clock& c = g_clock;
    static const int64_t ticks[] = {1, 30, 1000, 50000};
    static const int64_t grain[] = {1, 1, 100, 1000000};
    c.tick = ticks[pick(4)];
    c.granularity = grain[pick(4)];
    if (pick(2)) { c.stall_rate = 2 + (unsigned)pick(20); c.stall_max = 1 + (int64_t)pick(2000000000); }
    jumps = pick(64) == 63;  // rare: a known finding ends the run
    if (jumps) c.jump_rate = 2 + (unsigned)pick(10);
    if (pick(2)) c.eintr_rate = 2 + (unsigned)pick(4);
    c.oversleep = pick(2) != 0;
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      for (int k = 0; k < kSlots && ok; ++k) if (h[k].live()) ok = check(k, "all");
    }
    if (ops > 3) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};
}  // namespace

void world_timer() {
  drawMemory(0);
  World w;
  w.run();
}
