// Deterministic simulator: choices, events, verdicts, allocator, disk, clock.
// See DESIGN.md.  Everything nondeterministic a world needs comes from here.
#pragma once
#include <stddef.h>
#include <stdint.h>

#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- modes
// While a Sut is alive, allocations, files, clocks and aborts are simulated.
extern thread_local bool t_in_sut;
struct Sut { bool o; Sut() : o{t_in_sut} { t_in_sut = true; } ~Sut() { t_in_sut = o; } };
struct Host { bool o; Host() : o{t_in_sut} { t_in_sut = false; } ~Host() { t_in_sut = o; } };

// ---------------------------------------------------------------- choices
// A choice in [0, n).  Recorded; 0 is the simplest choice.
uint64_t draw(uint64_t n);
// true once in k (false is the simplest choice)
inline bool flip(uint64_t k) { return k > 0 && draw(k) == k - 1; }
inline int64_t range(int64_t lo, int64_t hi) {
  return lo + (int64_t)draw((uint64_t)(hi - lo + 1));
}
// A private stream derived from one drawn seed, for bulk data.
struct Stream {
  uint64_t s;
  explicit Stream(uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ull + 1} {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
inline Stream stream() { return Stream{draw(1u << 30)}; }

// ---------------------------------------------------------------- events
extern bool g_verbose;
void evHash(const void* p, size_t n);
void evText(const std::string& s);
inline void evOne(std::string& t, const char* s) {
  evHash(s, std::strlen(s) + 1);
  if (g_verbose) { t += ' '; t += s; }
}
inline void evOne(std::string& t, const std::string& s) {
  evHash(s.data(), s.size());
  uint64_t n = s.size();
  evHash(&n, 8);
  if (g_verbose) {
    t += " \"";
    for (unsigned char c : s) {
      if (t.size() > 4000) { t += "..."; break; }
      if (c >= 32 && c < 127 && c != '\\' && c != '"') t += (char)c;
      else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); t += b; }
    }
    t += '"';
  }
}
inline void evOne(std::string& t, double d) {
  evHash(&d, 8);
  if (g_verbose) { char b[40]; snprintf(b, sizeof b, " %.17g", d); t += b; }
}
template <typename I>
inline typename std::enable_if<std::is_integral<I>::value || std::is_enum<I>::value>::type evOne(
    std::string& t, I i) {
  int64_t v = (int64_t)i;
  evHash(&v, 8);
  if (g_verbose) { t += ' '; t += std::to_string((long long)v); }
}
// Adds an event to the run's history (and to the trace when verbose).
template <typename... A>
void ev(const char* tag, const A&... a) {
  Host g;
  evHash(tag, std::strlen(tag));
  std::string t;
  if (g_verbose) t = tag;
  int dummy[] = {0, (evOne(t, a), 0)...};
  (void)dummy;
  if (g_verbose) evText(t);
}
// Only in the trace, not in the history hash.
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

void fault(const char* kind);        // a fault really happened
void probe(const char* name);        // a rare condition was reached
void nontrivial();                   // this run did something worth counting
void simTime(uint64_t nanoseconds);  // simulated time passes
uint64_t simNow();

// ---------------------------------------------------------------- verdict
// Ends the run as a violation of the property being checked.
[[noreturn]] void violate(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) \
  do { if (!(cond)) ::sim::violate(cls, __VA_ARGS__); } while (0)

const char* prop();                 // property id being checked
inline bool isProp(const char* p) { return std::strcmp(prop(), p) == 0; }
bool thorough();
extern const bool g_debug_checks;   // il debug checks compiled in?

// ---------------------------------------------------------------- code under test
template <typename... A>
inline void unused(const A&...) {}

enum class End { Returned, Died };
// Runs f as code under test.  Died: the process stopped (abort, or operator new failed).
End guardedCall(void (*f)(void*), void* ctx);
template <typename F>
End guarded(F&& f) {
  struct C { static void call(void* p) { (*static_cast<typename std::remove_reference<F>::type*>(p))(); } };
  return guardedCall(&C::call, (void*)&f);
}
// Runs f as code under test and requires that it does not stop the process.
template <typename F>
void must(const char* cls, F&& f) {
  if (guarded(f) == End::Died) violate(cls, "the process was stopped (abort)");
}
extern const char* g_death;  // why the last guarded call died
void setStepBudget(uint64_t blocks);  // from now on, code under test may execute that many blocks
uint64_t steps();

// ---------------------------------------------------------------- allocator
struct AllocPlan {
  uint64_t fail_at = 0;        // 1-based index of the allocation that fails (0: never)
  bool fail_forever = false;   // every allocation after it fails too
  uint64_t max_single = 64u << 20;  // larger requests fail
  uint64_t max_live = 256u << 20;
  bool pages = false;          // place blocks at arbitrary 16-byte residues of a page
  unsigned min_align = 16;     // residues are multiples of this
};
extern AllocPlan g_alloc;
struct AllocStats {
  uint64_t count = 0, live = 0, live_bytes = 0, peak_bytes = 0, largest_request = 0, failed = 0;
};
extern AllocStats g_astats;
// Memory in the simulated heap, filled with garbage, for harness-owned objects under test.
void* rawAlloc(size_t n, size_t align = 16);
void rawFree(void* p);
bool inArena(const void* p);
// If [p, p+n) is inside one live block returns its first byte, otherwise nullptr.
char* blockOf(const void* p, size_t n, size_t* size = nullptr);
std::string describeLive();
uint64_t allocSeq();  // sequence number of the next allocation
void scribbleStack();

// ---------------------------------------------------------------- disk
struct DiskFile {
  std::string bytes;
  bool readonly = false;
  uint64_t version = 0;  // number of modifications
};
enum Fault {
  F_OPEN, F_SHORT_READ, F_SHORT_WRITE, F_EINTR, F_EIO_READ, F_EIO_WRITE, F_NOSPACE,
  F_CLOSE, F_SEEK, F_CRASH, F_STALL, F_COUNT
};
extern const char* fault_names[F_COUNT];
struct Disk {
  std::map<std::string, std::shared_ptr<DiskFile>> files;
  // plan
  unsigned rate[F_COUNT];          // 0: never; k: once in k operations
  int64_t budget = 1 << 30;        // number of hard faults still allowed
  int64_t space = -1;              // bytes that can still be written (-1: unlimited)
  int64_t crash_after = -1;        // bytes written before the process dies (-1: never)
  int64_t read_error_at = -1;      // bytes read before reads fail (-1: never)
  bool truncating_reads = false;   // read_error_at ends the file instead (lost tail)
  int bufsize = 0;                 // 0: libc default, -1: unbuffered, n: n bytes
  // results
  bool crashed = false;
  uint64_t nb_open = 0, nb_opened = 0, hard_faults = 0, reads = 0, writes = 0;
  int64_t bytes_read = 0, bytes_written = 0;
  uint64_t faults_open = 0, faults_read = 0, faults_write = 0, faults_close = 0, faults_seek = 0;
  Disk();
  void reset();
  void clearPlan();
  DiskFile& put(const std::string& name, const std::string& bytes);
  bool exists(const std::string& name) const { return files.count(name) != 0; }
  const std::string& bytes(const std::string& name) { return files[name]->bytes; }
};
extern Disk g_disk;

// ---------------------------------------------------------------- clock
struct Clock {
  int64_t mono = 1000000000;       // ns
  int64_t wall_offset = 1600000000000000000ll;
  int64_t tick = 1;                // ns added at each reading
  int64_t granularity = 1;
  unsigned stall_rate = 0;         // once in k readings, the process is descheduled
  int64_t stall_max = 0;
  unsigned jump_rate = 0;          // once in k readings, wall clock jumps
  unsigned eintr_rate = 0;         // once in k sleeps is interrupted
  bool oversleep = false;
  uint64_t readings = 0, sleeps = 0, interrupted = 0;
  int64_t slept = 0;
};
extern Clock g_clock;

// ---------------------------------------------------------------- threads
// Runs the bodies as threads of the program under test, one at a time; who runs
// next is drawn at yield points (every `period`-th basic block on average and at
// every allocator/disk call).  Returns when all have finished.
void runThreads(const std::vector<std::function<void()>>& bodies, unsigned period, unsigned point_rate);
extern uint64_t g_switches;
void yieldPoint();

// ---------------------------------------------------------------- element type
// Element with a checked lifecycle.
class Obj {
 public:
  int v;
  Obj();
  Obj(int x);
  Obj(const Obj& o);
  Obj(Obj&& o) noexcept;
  Obj& operator=(const Obj& o);
  Obj& operator=(Obj&& o) noexcept;
  ~Obj();
  bool operator==(const Obj& o) const { return get() == o.get(); }
  bool operator!=(const Obj& o) const { return get() != o.get(); }
  int get() const;  // checks that the object is alive
  static uint64_t alive();
  static void resetRegistry();
 private:
  void* own_;
  void birth(const char* how);
};
const int kMovedFrom = -777777;
const int kDefaultObj = 424242;

// ---------------------------------------------------------------- world
// Each world executable defines this.
void world();
extern const char* world_name;
}  // namespace sim
