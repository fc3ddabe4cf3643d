#define _GNU_SOURCE 1
#include "sim.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <new>
#include <set>
#include <unordered_map>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" const char* __asan_get_report_description();
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)(a), (void)(n))
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)(a), (void)(n))
#endif

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_abort() __attribute__((noreturn));
void __real_exit(int) __attribute__((noreturn));
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
int __real_fclose(FILE*);
}

namespace sim {

// ================================================================ shared state
struct Counter { char name[56]; uint64_t n; };
const int kMaxCounters = 512;
const uint64_t kMaxDraws = 1u << 20;
struct Shm {
  // verdict of the current run
  volatile int verdict;  // 0 none, 1 violation
  char cls[128];
  char msg[2048];
  uint64_t hash;
  uint64_t run;
  uint64_t runs_done, nontrivial_done, guarded_deaths;
  uint64_t sim_ns, ops_steps, switches;
  Counter faults[kMaxCounters];
  Counter probes[kMaxCounters];
  uint64_t nb_draws;
  uint64_t draws[kMaxDraws];
  uint8_t cover[1 << 16];
};
static Shm* S;
static const char* g_prop = "C00";
static bool g_thorough = false;
bool g_verbose = false;
const char* prop() { return g_prop; }
bool thorough() { return g_thorough; }

thread_local bool t_in_sut = false;

static void hostDie(const char* what) {
  fprintf(stderr, "simulator error: %s\n", what);
  _exit(3);
}

// ================================================================ choices
static uint64_t g_rng;
static bool g_replay = false;
static bool g_record = true;  // off in a twin run: the draws of the primary stay recorded
static std::vector<uint64_t> g_script;
static size_t g_pos;

static uint64_t mix64(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t rngNext() { return mix64(g_rng += 0x9E3779B97F4A7C15ull); }

uint64_t draw(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v;
  if (g_replay) {
    v = g_pos < g_script.size() ? g_script[g_pos] : 0;
    ++g_pos;
    if (v >= n) v %= n;
  } else {
    v = rngNext() % n;
  }
  if (g_record && S->nb_draws < kMaxDraws) S->draws[S->nb_draws++] = v;
  return v;
}

// ================================================================ events
static uint64_t g_hash;
void evHash(const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  uint64_t h = g_hash;
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, c, 8);
    h = (h ^ w) * 0x9FB21C651E98DF25ull;
    h ^= h >> 32;
    c += 8;
    n -= 8;
  }
  while (n) {
    h = (h ^ *c) * 0x100000001B3ull;
    ++c;
    --n;
  }
  g_hash = h ^ (h >> 29);
}
static FILE* g_trace = nullptr;
void evText(const std::string& s) {
  if (g_trace) { fputs(s.c_str(), g_trace); fputc('\n', g_trace); fflush(g_trace); }
}
void note(const char* fmt, ...) {
  if (!g_verbose || !g_trace) return;
  Host h;
  va_list ap;
  va_start(ap, fmt);
  fputs("   # ", g_trace);
  vfprintf(g_trace, fmt, ap);
  fputc('\n', g_trace);
  fflush(g_trace);
  va_end(ap);
}

static void count(Counter* t, const char* name) {
  uint64_t h = 1469598103934665603ull;
  for (const char* c = name; *c; ++c) h = (h ^ (unsigned char)*c) * 1099511628211ull;
  for (int i = 0; i < kMaxCounters; ++i) {
    Counter& k = t[(h + i) % kMaxCounters];
    if (k.name[0] == 0) { strncpy(k.name, name, sizeof k.name - 1); k.n = 1; return; }
    if (strncmp(k.name, name, sizeof k.name - 1) == 0) { ++k.n; return; }
  }
}
static bool g_counting = true;
void fault(const char* kind) {
  if (g_counting) count(S->faults, kind);
  ev("FAULT", kind);
}
void probe(const char* name) {
  if (g_counting) count(S->probes, name);
}
static bool g_nontrivial;
void nontrivial() { g_nontrivial = true; }
static uint64_t g_now;
void simTime(uint64_t ns) { g_now += ns; }
uint64_t simNow() { return g_now; }

// ================================================================ verdict
[[noreturn]] void violate(const char* cls, const char* fmt, ...) {
  t_in_sut = false;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->msg, sizeof S->msg, fmt, ap);
  va_end(ap);
  snprintf(S->cls, sizeof S->cls, "%s", cls);
  evHash(cls, strlen(cls));
  S->hash = g_hash;
  S->verdict = 1;
  if (g_verbose) evText(std::string("VIOLATION class ") + cls + ": " + S->msg);
  fflush(stdout);
  _exit(10);
}

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_on_error() {
  t_in_sut = false;
  const char* d = __asan_get_report_description();
  snprintf(S->cls, sizeof S->cls, "memory-error");
  snprintf(S->msg, sizeof S->msg, "%s: %s of %zu bytes", d ? d : "?",
           __asan_get_report_access_type() ? "write" : "read", __asan_get_report_access_size());
  evHash(S->cls, strlen(S->cls));
  S->hash = g_hash;
  S->verdict = 1;
  // Only the verbose replay wants the stack; it is printed after this hook.
  if (!g_verbose) _exit(10);
  evText(std::string("VIOLATION class memory-error: ") + S->msg);
}
#endif

// ================================================================ steps, coverage, yield
static uint64_t g_steps, g_step_budget;
uint64_t steps() { return g_steps; }
void setStepBudget(uint64_t b) { g_step_budget = g_steps + b; }
static bool g_threading = false;
static thread_local uint32_t t_until_yield = 0;
static void threadYield(bool forced);
extern "C" char __executable_start;
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() {
  if (!t_in_sut) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
  S->cover[(pc ^ (pc >> 16)) & 0xFFFF] = 1;
  if (++g_steps > g_step_budget) {
    t_in_sut = false;
    violate("hang", "the operation executed more than its budget of basic blocks");
  }
  if (g_threading && --t_until_yield == 0) threadYield(true);
}
void yieldPoint() { if (g_threading && t_in_sut) threadYield(false); }

// ================================================================ guarded calls
static thread_local sigjmp_buf* t_jmp = nullptr;
const char* g_death = "";
static void forgetDeadStack(const char* frame);
End guardedCall(void (*f)(void*), void* ctx) {
  sigjmp_buf buf;
  sigjmp_buf* outer = t_jmp;
  const bool was = t_in_sut;
  volatile End end = End::Returned;
  if (sigsetjmp(buf, 0) == 0) {
    t_jmp = &buf;
    t_in_sut = true;
    f(ctx);
  } else {
    end = End::Died;
    forgetDeadStack((const char*)__builtin_frame_address(0));
  }
  t_jmp = outer;
  t_in_sut = was;
  return end;
}
[[noreturn]] static void die(const char* why) {
  t_in_sut = false;
  g_death = why;
  if (g_counting) ++S->guarded_deaths;
  ev("DEATH", why);
  if (!t_jmp) violate("process-stop", "the process was stopped: %s", why);
  siglongjmp(*t_jmp, 1);
}

// ================================================================ allocator
AllocPlan g_alloc;
AllocStats g_astats;
static char* A0;           // arena
static size_t A_size = 1ull << 30;
static size_t A_top, A_dirty;
struct Block { size_t off, n; bool freed; bool raw; uint64_t seq; };
static std::vector<Block>* g_blocks;
static std::unordered_map<size_t, uint32_t>* g_index;
static Stream g_place{1};
static uint64_t g_fill = 0;      // pattern seed
static int g_fill_kind = 0;
static uint64_t g_alloc_seq;
uint64_t allocSeq() { return g_alloc_seq; }

bool inArena(const void* p) { return (const char*)p >= A0 && (const char*)p < A0 + A_size; }
static void fillGarbage(char* p, size_t n) {
  switch (g_fill_kind) {
    case 0: memset(p, 0xA5, n); break;
    case 1: memset(p, 0x00, n); break;
    case 2: memset(p, 0xFF, n); break;
    default: {
      Stream s{g_fill++};
      size_t i = 0;
      for (; i + 8 <= n; i += 8) { uint64_t w = s.next(); memcpy(p + i, &w, 8); }
      for (; i < n; ++i) p[i] = (char)s.next();
    }
  }
}
static char* arenaGet(size_t n, size_t align, bool raw) {
  size_t off;
  if (g_alloc.pages && !raw) {
    off = (A_top + 64 + 4095) & ~(size_t)4095;
    off += g_place.below(4096 / g_alloc.min_align) * g_alloc.min_align;
  } else {
    off = A_top + 32;
    off = (off + 15) & ~(size_t)15;
    off += 16 * g_place.below(6);
    if (align > 16) off = (off + align - 1) & ~(align - 1);
  }
  if (off + n + 64 > A_size)
    violate("runaway-allocation", "one run requested more than %zu bytes of memory altogether", A_size);
  A_top = (off + n + 15) & ~(size_t)15;
  if (A_top > A_dirty) A_dirty = A_top;
  char* p = A0 + off;
  ASAN_UNPOISON_MEMORY_REGION(p, n);
  fillGarbage(p, n);
  (*g_index)[off] = (uint32_t)g_blocks->size();
  g_blocks->push_back(Block{off, n, false, raw, g_alloc_seq++});
  return p;
}
static void* sutMalloc(size_t n, size_t align = 16) {
  Host h;
  if (n > g_astats.largest_request) g_astats.largest_request = n;
  if (n) ++g_astats.count;  // a request of no bytes is never refused
  const bool planned = n && g_alloc.fail_at && (g_astats.count == g_alloc.fail_at ||
                                           (g_alloc.fail_forever && g_astats.count > g_alloc.fail_at));
  if (planned || n > g_alloc.max_single || g_astats.live_bytes + n > g_alloc.max_live) {
    ++g_astats.failed;
    fault(planned ? "alloc-failure" : "alloc-refused-too-large");
    errno = ENOMEM;
    return nullptr;
  }
  g_astats.live++;
  g_astats.live_bytes += n;
  if (g_astats.live_bytes > g_astats.peak_bytes) g_astats.peak_bytes = g_astats.live_bytes;
  return arenaGet(n, align, false);
}
static void sutFree(void* p) {
  if (!p) return;
  Host h;
  size_t off = (size_t)((char*)p - A0);
  auto it = g_index->find(off);
  if (it == g_index->end()) violate("invalid-free", "free of an address that was not returned by the allocator");
  Block& b = (*g_blocks)[it->second];
  if (b.freed) violate("double-free", "block of %zu bytes released twice", b.n);
  b.freed = true;
  if (!b.raw) {
    g_astats.live--;
    g_astats.live_bytes -= b.n;
  }
  ASAN_POISON_MEMORY_REGION(p, b.n ? b.n : 1);
}
static void* sutRealloc(void* p, size_t n) {
  if (!p) return sutMalloc(n);
  size_t old;
  {
    Host h;
    auto it = g_index->find((size_t)((char*)p - A0));
    if (it == g_index->end() || (*g_blocks)[it->second].freed)
      violate("invalid-free", "realloc of an address that is not a live block");
    old = (*g_blocks)[it->second].n;
  }
  void* q = sutMalloc(n);
  if (!q) return nullptr;
  { Host h; memcpy(q, p, old < n ? old : n); }
  sutFree(p);
  return q;
}
void* rawAlloc(size_t n, size_t align) { Host h; return arenaGet(n, align, true); }
void rawFree(void* p) { sutFree(p); }
char* blockOf(const void* p, size_t n, size_t* size) {
  Host h;
  size_t off = (size_t)((const char*)p - A0);
  for (size_t i = g_blocks->size(); i-- > 0;) {
    const Block& b = (*g_blocks)[i];
    if (b.off <= off && off + n <= b.off + b.n) {
      if (b.freed) return nullptr;
      if (size) *size = b.n;
      return A0 + b.off;
    }
    if (b.off + b.n <= off) return nullptr;
  }
  return nullptr;
}
std::string describeLive() {
  Host h;
  std::string s;
  int k = 0;
  for (const Block& b : *g_blocks)
    if (!b.freed && !b.raw) {
      if (k++ < 6) s += "#" + std::to_string(b.seq) + "(" + std::to_string(b.n) + " bytes) ";
    }
  return std::to_string(k) + " live block(s): " + s;
}
static void arenaReset() {
  ASAN_POISON_MEMORY_REGION(A0, A_dirty + 4096 < A_size ? A_dirty + 4096 : A_size);
  if (A_dirty > (64u << 20)) madvise(A0, A_dirty, MADV_DONTNEED);
  A_top = 4096;
  A_dirty = 4096;
  g_blocks->clear();
  g_index->clear();
  g_alloc_seq = 0;
  g_alloc = AllocPlan{};
  g_astats = AllocStats{};
}
__attribute__((noinline, no_sanitize("address"))) void scribbleStack() {
  volatile char b[6000];
  for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)(g_fill_kind == 1 ? 0 : g_fill_kind == 2 ? 0xFF : 0xA5 + i * 0);
}

// ================================================================ disk
Disk g_disk;
const char* fault_names[F_COUNT] = {"open-error", "short-read", "short-write", "eintr",
                                    "read-eio", "write-eio-or-nospace", "disk-full", "close-error",
                                    "seek-error", "crash", "stall"};
Disk::Disk() { clearPlan(); }
void Disk::clearPlan() {
  for (int i = 0; i < F_COUNT; ++i) rate[i] = 0;
  budget = 1 << 30;
  space = -1;
  crash_after = -1;
  read_error_at = -1;
  truncating_reads = false;
  bufsize = 0;
  hard_faults = 0;
  faults_open = faults_read = faults_write = faults_close = faults_seek = 0;
  bytes_read = bytes_written = 0;
  reads = writes = 0;
}
struct Handle {
  FILE* f = nullptr;
  std::string name;
  std::shared_ptr<DiskFile> file;
  int64_t pos = 0;
  bool open = false, rd = false, wr = false, append = false;
  char* buf = nullptr;
};
static std::vector<Handle*>* g_handles;
static std::unordered_map<FILE*, Handle*>* g_by_file;
void Disk::reset() {
  files.clear();
  clearPlan();
  crashed = false;
  nb_open = nb_opened = 0;
}
DiskFile& Disk::put(const std::string& name, const std::string& b) {
  auto f = std::make_shared<DiskFile>();
  f->bytes = b;
  files[name] = f;
  return *f;
}
static bool hard(Fault k) {
  Disk& d = g_disk;
  if (!d.rate[k] || d.budget <= 0) return false;
  if (!flip(d.rate[k])) return false;
  --d.budget;
  ++d.hard_faults;
  fault(fault_names[k]);
  return true;
}
static bool soft(Fault k) {
  Disk& d = g_disk;
  if (!d.rate[k] || !flip(d.rate[k])) return false;
  fault(fault_names[k]);
  return true;
}
static void sysCost() {
  simTime(20000);
  if (soft(F_STALL)) simTime(5000000000ull);
}
static ssize_t sysRead(Handle* h, char* buf, size_t n) {
  Disk& d = g_disk;
  sysCost();
  ++d.reads;
  if (!h->rd) { errno = EBADF; return -1; }
  if (hard(F_EINTR)) { ++d.faults_read; errno = EINTR; return -1; }
  if (hard(F_EIO_READ)) { ++d.faults_read; errno = EIO; return -1; }
  int64_t size = (int64_t)h->file->bytes.size();
  int64_t avail = size > h->pos ? size - h->pos : 0;
  size_t m = n < (size_t)avail ? n : (size_t)avail;
  if (d.read_error_at >= 0) {
    if (h->pos >= d.read_error_at) {
      if (d.truncating_reads) return 0;
      ++d.faults_read;
      ++d.hard_faults;
      fault("read-eio-at-byte");
      errno = EIO;
      return -1;
    }
    if (h->pos + (int64_t)m > d.read_error_at) m = (size_t)(d.read_error_at - h->pos);
  }
  if (m > 1 && soft(F_SHORT_READ)) m = 1 + draw(m - 1);
  memcpy(buf, h->file->bytes.data() + h->pos, m);
  h->pos += (int64_t)m;
  d.bytes_read += (int64_t)m;
  ev("  sys_read", n, m);
  return (ssize_t)m;
}
static ssize_t sysWrite(Handle* h, const char* buf, size_t n) {
  Disk& d = g_disk;
  sysCost();
  ++d.writes;
  if (!h->wr) { errno = EBADF; return -1; }
  if (hard(F_EINTR)) { ++d.faults_write; errno = EINTR; return -1; }
  if (hard(F_EIO_WRITE)) { ++d.faults_write; errno = EIO; return -1; }
  size_t m = n;
  if (d.space >= 0 && (int64_t)m > d.space) {
    if (d.space == 0) {
      ++d.faults_write;
      ++d.hard_faults;
      fault("disk-full");
      errno = ENOSPC;
      return -1;
    }
    m = (size_t)d.space;
  }
  if (m > 1 && soft(F_SHORT_WRITE)) m = 1 + draw(m - 1);
  size_t durable = m;
  if (d.crashed) durable = 0;
  else if (d.crash_after >= 0 && d.bytes_written + (int64_t)m >= d.crash_after) {
    durable = (size_t)(d.crash_after - d.bytes_written);
    if (!d.crashed) fault("crash");
    d.crashed = true;
  }
  if (durable) {
    if (h->append) h->pos = (int64_t)h->file->bytes.size();
    std::string& b = h->file->bytes;
    if ((int64_t)b.size() < h->pos + (int64_t)durable) b.resize((size_t)h->pos + durable);
    memcpy(&b[(size_t)h->pos], buf, durable);
    ++h->file->version;
  }
  h->pos += (int64_t)m;
  d.bytes_written += (int64_t)m;
  if (d.space >= 0) d.space -= (int64_t)m;
  ev("  sys_write", n, m);
  return (ssize_t)m;
}
static ssize_t cookieRead(void* c, char* buf, size_t n) {
  bool o = t_in_sut;
  yieldPoint();
  t_in_sut = false;
  ssize_t r = sysRead((Handle*)c, buf, n);
  t_in_sut = o;
  return r;
}
static ssize_t cookieWrite(void* c, const char* buf, size_t n) {
  bool o = t_in_sut;
  yieldPoint();
  t_in_sut = false;
  size_t done = 0;
  while (done < n) {  // as _IO_new_file_write does
    ssize_t r = sysWrite((Handle*)c, buf + done, n - done);
    if (r < 0) break;
    done += (size_t)r;
  }
  t_in_sut = o;
  return (ssize_t)done;
}
static int cookieSeek(void* c, off64_t* off, int whence) {
  Host g;
  Handle* h = (Handle*)c;
  int64_t p = whence == SEEK_SET ? *off : whence == SEEK_CUR ? h->pos + *off
                                                             : (int64_t)h->file->bytes.size() + *off;
  if (!(whence == SEEK_CUR && *off == 0) && hard(F_SEEK)) { ++g_disk.faults_seek; errno = EIO; return -1; }
  if (p < 0) { errno = EINVAL; return -1; }
  h->pos = p;
  *off = p;
  return 0;
}
static int cookieClose(void* c) {
  Host g;
  Handle* h = (Handle*)c;
  sysCost();
  ev("  sys_close", h->name);
  if (hard(F_CLOSE)) { ++g_disk.faults_close; errno = EIO; return -1; }
  return 0;
}
static FILE* simOpen(const char* path, const char* mode) {
  Host g;
  sysCost();
  Disk& d = g_disk;
  bool rd = strchr(mode, 'r') || strchr(mode, '+');
  bool wr = !strchr(mode, 'r') || strchr(mode, '+');
  if (hard(F_OPEN)) {
    ++d.faults_open;
    ev("open-failed", path, mode);
    errno = draw(2) ? EACCES : EMFILE;
    return nullptr;
  }
  auto it = d.files.find(path);
  if (mode[0] == 'r') {
    if (it == d.files.end()) { ev("open-enoent", path, mode); errno = ENOENT; return nullptr; }
  } else if (it == d.files.end()) {
    if (!d.crashed) d.files[path] = std::make_shared<DiskFile>();
    else { static std::shared_ptr<DiskFile> ghost; ghost = std::make_shared<DiskFile>(); d.files[path] = ghost; }
    it = d.files.find(path);
  }
  if (wr && it->second->readonly) { ev("open-eacces", path, mode); errno = EACCES; return nullptr; }
  if (mode[0] == 'w' && !it->second->bytes.empty() && !d.crashed) {
    it->second->bytes.clear();
    ++it->second->version;
  }
  if (mode[0] == 'x') {}
  ev("open", path, mode);
  Handle* h = new Handle;
  h->name = path;
  h->file = it->second;
  h->rd = rd;
  h->wr = wr;
  h->append = mode[0] == 'a';
  h->open = true;
  cookie_io_functions_t io = {cookieRead, cookieWrite, cookieSeek, cookieClose};
  h->f = fopencookie(h, mode, io);
  if (!h->f) hostDie("fopencookie");
  if (d.bufsize == -1) setvbuf(h->f, nullptr, _IONBF, 0);
  else if (d.bufsize > 0) {
    h->buf = (char*)__real_malloc((size_t)d.bufsize);
    setvbuf(h->f, h->buf, _IOFBF, (size_t)d.bufsize);
  }
  g_handles->push_back(h);
  (*g_by_file)[h->f] = h;
  ++d.nb_open;
  ++d.nb_opened;
  return h->f;
}
static bool g_check_handles = true;
static Handle* handleOf(FILE* f, const char* op) {
  Host g;
  auto it = g_by_file->find(f);
  if (it == g_by_file->end()) {
    if (f == stdout || f == stderr || f == stdin) return nullptr;
    violate("bad-file-handle", "%s on a file handle that is not open", op);
  }
  return it->second;
}
static int simClose(FILE* f);
static void diskEndOfRun(bool) {
  for (Handle* h : *g_handles) {
    if (h->open) {
      g_by_file->erase(h->f);
      Disk& d = g_disk;
      d.clearPlan();
      d.crashed = true;  // buffered data of a handle nobody closed goes nowhere
      fclose(h->f);
      h->open = false;
    }
    if (h->buf) __real_free(h->buf);
    delete h;
  }
  g_handles->clear();
  g_by_file->clear();
}

// ================================================================ clock
Clock g_clock;
static int64_t monoNow() {
  Clock& c = g_clock;
  ++c.readings;
  c.mono += c.tick;
  g_now += (uint64_t)c.tick;
  if (c.stall_rate && flip(c.stall_rate)) {
    int64_t s = (int64_t)draw((uint64_t)c.stall_max) + 1;
    c.mono += s;
    g_now += (uint64_t)s;
    fault("stall");
  }
  if (c.jump_rate && flip(c.jump_rate)) {
    c.wall_offset += ((int64_t)draw(2000001) - 1000000) * 10000000ll;
    fault("wall-clock-jump");
  }
  return c.mono - c.mono % c.granularity;
}

// ================================================================ threads
uint64_t g_switches;
struct Thr { pthread_t id; std::function<void()> body; bool done = false; sem_t turn; };
static std::vector<Thr>* g_thr;
static unsigned g_period = 50, g_point_rate = 4;
static thread_local int t_me = -1;
static void nextQuantum() { t_until_yield = 1 + (uint32_t)draw(2 * g_period); }
static int pickNext(bool mustLeave) {
  std::vector<int> c;
  for (int i = 0; i < (int)g_thr->size(); ++i)
    if (!(*g_thr)[i].done && !(mustLeave && i == t_me)) c.push_back(i);
  if (c.empty()) return -1;
  return c[draw(c.size())];
}
static void waitTurn() { while (sem_wait(&(*g_thr)[(size_t)t_me].turn) != 0) {} }
static void giveTurn(int to) { sem_post(&(*g_thr)[(size_t)to].turn); }
static void threadYield(bool forced) {
  bool o = t_in_sut;
  t_in_sut = false;
  if (!forced && !flip(g_point_rate)) { t_in_sut = o; return; }
  int to = pickNext(false);
  nextQuantum();
  if (to != t_me) {
    ++g_switches;
    if (g_counting) ++S->switches;
    ev("  switch", t_me, to);
    giveTurn(to);
    waitTurn();
  }
  t_in_sut = o;
}
static void* threadMain(void* p) {
  t_me = (int)(intptr_t)p;
  waitTurn();
  nextQuantum();
  (*g_thr)[t_me].body();
  t_in_sut = false;
  (*g_thr)[t_me].done = true;
  int to = pickNext(true);
  ev("  thread-end", t_me, to);
  if (to >= 0) giveTurn(to);
  return nullptr;
}
// Threads that run one at a time change places faster on one processor.
static uint64_t g_worker;
static void pinOnce() {
  static bool done = false;
  if (done) return;
  done = true;
  cpu_set_t all, one;
  if (sched_getaffinity(0, sizeof all, &all)) return;
  const int n = CPU_COUNT(&all);
  if (n < 1) return;
  int want = (int)(g_worker % (uint64_t)n);
  for (int c = 0; c < CPU_SETSIZE; ++c) {
    if (!CPU_ISSET(c, &all) || want-- > 0) continue;
    CPU_ZERO(&one);
    CPU_SET(c, &one);
    sched_setaffinity(0, sizeof one, &one);
    return;
  }
}
void runThreads(const std::vector<std::function<void()>>& bodies, unsigned period, unsigned point_rate) {
  Host h;
  pinOnce();
  std::vector<Thr> t(bodies.size());
  g_thr = &t;
  g_period = period ? period : 1;
  g_point_rate = point_rate;
  for (size_t i = 0; i < bodies.size(); ++i) { t[i].body = bodies[i]; sem_init(&t[i].turn, 0, 0); }
  for (size_t i = 0; i < bodies.size(); ++i)
    if (pthread_create(&t[i].id, nullptr, threadMain, (void*)(intptr_t)i)) hostDie("pthread_create");
  g_threading = true;
  t_me = -1;
  giveTurn((int)draw(bodies.size()));
  for (auto& x : t) { pthread_join(x.id, nullptr); sem_destroy(&x.turn); }
  g_threading = false;
  g_thr = nullptr;
}

// ================================================================ Obj
static std::unordered_map<const void*, int>* g_objs;
// What dies leaves its temporaries on the stack that was unwound: nobody
// destroys them, and the next call builds its own in the same place.
static void forgetDeadStack(const char* frame) {
  Host h;
  if (!g_objs) return;
  for (auto i = g_objs->begin(); i != g_objs->end();) {
    const char* p = (const char*)i->first;
    if (p < frame && p >= frame - (1 << 20)) i = g_objs->erase(i); else ++i;
  }
}
static void objBad(const char* what) { violate("element-lifecycle", "%s", what); }
void Obj::birth(const char* how) {
  Host h;
  if (!g_objs->emplace(this, 1).second) objBad(how);
  own_ = this;
}
Obj::Obj() : v{kDefaultObj} { birth("default construction over a live element"); }
Obj::Obj(int x) : v{x} { birth("construction over a live element"); }
Obj::Obj(const Obj& o) : v{o.get()} { birth("copy construction over a live element"); }
Obj::Obj(Obj&& o) noexcept : v{o.get()} {
  birth("move construction over a live element");
  o.v = kMovedFrom;
}
Obj& Obj::operator=(const Obj& o) {
  get();
  v = o.get();
  return *this;
}
Obj& Obj::operator=(Obj&& o) noexcept {
  get();
  int x = o.get();
  if (this != &o) o.v = kMovedFrom;
  v = x;
  return *this;
}
Obj::~Obj() {
  Host h;
  if (!g_objs->erase(this)) objBad("destruction of an element that is not alive");
  v = -666;
}
int Obj::get() const {
  Host h;
  if (!g_objs->count(this)) objBad("use of an element that is not alive (never constructed, destroyed or copied bytewise)");
  return v;
}
uint64_t Obj::alive() { return g_objs->size(); }
void Obj::resetRegistry() { g_objs->clear(); }

// ================================================================ runs
static const uint64_t kDefaultBudget = 40000000ull;
struct RunOut { int verdict; std::string cls, msg; uint64_t hash; };

static void resetRun() {
  arenaReset();
  g_disk.reset();
  g_clock = Clock{};
  Obj::resetRegistry();
  g_hash = 0x1234567;
  g_now = 0;
  g_nontrivial = false;
  g_steps = 0;
  g_step_budget = kDefaultBudget;
  g_pos = 0;
  g_switches = 0;
  if (g_record) S->nb_draws = 0;
  S->verdict = 0;
  t_in_sut = false;
  t_jmp = nullptr;
}
// variant: 0 primary, 1 twin (other garbage in fresh memory, other placement)
static uint64_t executeOnce(int variant) {
  resetRun();
  // The environment that must not matter
  uint64_t env = draw(1u << 20);
  g_place = Stream{env * 2 + (uint64_t)variant * 77777};
  g_fill = env * 31 + (uint64_t)variant * 13;
  g_fill_kind = (int)((env + (uint64_t)variant * (1 + env % 3)) % 4);
  world();
  t_in_sut = false;
  diskEndOfRun(true);
  return g_hash;
}
static void executeRun(bool twin) {
  uint64_t h0 = executeOnce(0);
  const bool nt = g_nontrivial;
  if (twin) {
    std::vector<uint64_t> keep(S->draws, S->draws + S->nb_draws);
    bool r = g_replay, c = g_counting, v = g_verbose;
    std::vector<uint64_t> script;
    script.swap(g_script);
    g_script = keep;
    g_replay = true;
    g_record = false;
    g_counting = false;
    if (v) evText("---- twin run: other content of fresh memory, other placement");
    uint64_t h1 = executeOnce(1);
    g_counting = c;
    g_replay = r;
    g_script.swap(script);
    g_verbose = v;
    g_record = true;
    if (h0 != h1)
      violate("environment-dependent",
              "the observable history depends on the content of fresh memory or on where blocks lie");
  }
  g_nontrivial = nt;
  S->hash = h0;
}
static uint64_t seedOf(uint64_t base, const char* w, uint64_t i) {
  uint64_t h = base * 0x9E3779B97F4A7C15ull + 0x51ED27;
  for (const char* c = w; *c; ++c) h = mix64(h ^ (unsigned char)*c);
  return mix64(h ^ (i * 0xD6E8FEB86659FD93ull));
}

// In a child: run a script; returns its outcome.
static int g_status;
// Processor time, which the load of the machine does not change; the wall clock as a last resort.
// Runs take milliseconds (the longest of all, a few seconds at the thorough tier).
static unsigned runSeconds() {
  const char* e = getenv("VERIF_RUN_SECONDS");
  return e ? (unsigned)atoi(e) : g_thorough ? 30 : 10;
}
static void cpuLimit(unsigned seconds) {
  struct itimerval t = {};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
  alarm(5 * seconds);
}
static RunOut forked(const std::vector<uint64_t>& script, bool twin, bool verbose, unsigned alarm_s) {
  S->verdict = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) hostDie("fork");
  if (pid == 0) {
    cpuLimit(alarm_s);
    if (!verbose) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
    }
    g_verbose = verbose;
    g_counting = false;
    g_replay = true;
    g_script = script;
    executeRun(twin);
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  g_status = st;
  RunOut o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.verdict = 0; o.hash = S->hash; return o; }
  if (S->verdict == 1) {
    o.verdict = 1; o.cls = S->cls; o.msg = S->msg; o.hash = S->hash; return o;
  }
  // The end of the process itself is a violation when the code under test brought it about; not when the
  // simulator gave up (3), nor when it was killed from outside or stopped by the wall clock.
  const int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  o.verdict = (WIFEXITED(st) && WEXITSTATUS(st) == 3) || sig == SIGKILL || sig == SIGALRM || sig == SIGTERM ? 2 : 1;
  char b[64];
  if (sig) snprintf(b, sizeof b, "signal-%d", sig);
  else snprintf(b, sizeof b, "exit-%d", WEXITSTATUS(st));
  o.cls = b;
  o.msg = "the simulated process ended unexpectedly";
  o.hash = 0;
  if (sig == SIGPROF) { o.cls = "timeout"; o.msg = "the run did not end within its processor time"; }
  return o;
}
static std::vector<uint64_t> lastDraws() { return std::vector<uint64_t>(S->draws, S->draws + S->nb_draws); }
static double realNow() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static std::vector<uint64_t> minimise(std::vector<uint64_t> cur, const std::string& cls, double seconds) {
  double t0 = realNow();
  auto still = [&](const std::vector<uint64_t>& c) {
    RunOut o = forked(c, true, false, 10);
    return o.verdict == 1 && o.cls == cls;
  };
  auto out = [&]() { return realNow() - t0 > seconds; };
  // draws really consumed
  bool progress = true;
  int round = 0;
  while (progress && !out() && round++ < 6) {
    progress = false;
    for (size_t chunk = cur.size() / 2 ? cur.size() / 2 : 1; chunk >= 1 && !out(); chunk /= 2) {
      for (size_t i = 0; i < cur.size() && !out();) {
        std::vector<uint64_t> c(cur.begin(), cur.begin() + (long)i);
        size_t e = std::min(cur.size(), i + chunk);
        c.insert(c.end(), cur.begin() + (long)e, cur.end());
        if (still(c)) { cur = c; progress = true; }
        else {
          bool nz = false;
          for (size_t k = i; k < e; ++k) nz |= cur[k] != 0;
          if (nz) {
            c = cur;
            for (size_t k = i; k < e; ++k) c[k] = 0;
            if (still(c)) { cur = c; progress = true; }
          }
          i += chunk;
        }
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < cur.size() && !out(); ++i) {
      while (cur[i] > 1 && !out()) {
        auto c = cur;
        c[i] /= 2;
        if (still(c)) { cur = c; progress = true; continue; }
        c = cur;
        c[i] -= 1;
        if (still(c)) { cur = c; progress = true; continue; }
        break;
      }
    }
    while (!cur.empty() && cur.back() == 0) cur.pop_back();
  }
  return cur;
}
static std::string jsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static void dumpCounters(FILE* f, const Counter* t) {
  fputc('{', f);
  bool first = true;
  for (int i = 0; i < kMaxCounters; ++i)
    if (t[i].name[0]) { fprintf(f, "%s%s: %lu", first ? "" : ", ", jsonStr(t[i].name).c_str(), (unsigned long)t[i].n); first = false; }
  fputc('}', f);
}
static std::vector<uint64_t> readScript(const char* path) {
  FILE* f = fopen(path, "r");
  if (!f) hostDie("cannot open the replay file");
  std::vector<uint64_t> v;
  char line[64];
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#' || line[0] == '\n') continue;
    v.push_back(strtoull(line, nullptr, 10));
  }
  fclose(f);
  return v;
}
static void writeScript(const std::string& path, const std::vector<uint64_t>& v) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) hostDie("cannot write the script");
  for (uint64_t x : v) fprintf(f, "%lu\n", (unsigned long)x);
  fclose(f);
}

static int cmdBatch(uint64_t seed, uint64_t start, uint64_t stride, uint64_t runs, double seconds,
                    unsigned twin_every, const std::string& out, const std::vector<std::string>& known) {
  double t0 = realNow();
  g_worker = start + (uint64_t)getppid();
  uint64_t next = 0;  // position in this shard
  std::string hashes = out + ".hash";
  unlink(hashes.c_str());
  FILE* jf = fopen(out.c_str(), "w");
  if (!jf) hostDie("cannot write results");
  std::map<std::string, uint64_t> known_hits;
  bool bad = false;
  std::string vjson = "null";
  while (next < runs && realNow() - t0 < seconds) {
    S->verdict = 0;
    S->run = next;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      FILE* hf = fopen(hashes.c_str(), "ab");
      setvbuf(hf, nullptr, _IONBF, 0);  // this process may end anywhere
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      uint64_t k = next;
      for (; k < runs; ++k) {
        if ((k & 15) == 0 && realNow() - t0 >= seconds) break;
        S->run = k;
        cpuLimit(runSeconds());
        g_rng = seedOf(seed, world_name, start + k * stride);
        executeRun(twin_every && (start + k * stride) % twin_every == 0);
        ++S->runs_done;
        S->sim_ns += g_now;
        S->ops_steps += g_steps;
        if (g_nontrivial) {
          ++S->nontrivial_done;
          uint64_t h = S->hash;
          fwrite(&h, 8, 1, hf);
        }
      }
      S->run = k;
      fclose(hf);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { next = S->run; if (next < runs) break; continue; }
    // a violation, or an unexpected end
    next = S->run;
    uint64_t idx = start + next * stride;
    std::vector<uint64_t> script = lastDraws();
    std::string cls = S->verdict == 1 ? S->cls : "unexpected-end";
    RunOut o1 = forked(script, true, false, runSeconds());
    bool is_known = false;
    if (o1.verdict == 1)
      for (const auto& k : known)
        if (o1.cls == k) is_known = true;
    if (is_known) {
      ++known_hits[o1.cls];
      ++S->runs_done;
      ++next;
      continue;
    }
    RunOut o2 = forked(script, true, false, runSeconds());
    if (o1.verdict != 1 || o2.verdict != 1 || o1.hash != o2.hash || o1.cls != o2.cls) {
      vjson = "{\"confirmed\": false, \"run\": " + std::to_string(idx) + ", \"class\": " + jsonStr(cls) +
              ", \"first\": " + jsonStr(o1.cls + " " + o1.msg) + ", \"second\": " + jsonStr(o2.cls + " " + o2.msg) + ", \"status\": " + std::to_string(st) + "}";
      writeScript(out + ".script", script);
      bad = true;
      break;
    }
    // every attempt at a shorter history of a hang costs the whole time limit
    std::vector<uint64_t> min = o1.cls == "timeout" ? script : minimise(script, o1.cls, 25);
    RunOut o3 = o1.cls == "timeout" ? o2 : forked(min, true, false, runSeconds());
    if (o3.verdict != 1) { min = script; o3 = forked(min, true, false, runSeconds()); }
    writeScript(out + ".script", min);
    vjson = "{\"confirmed\": true, \"run\": " + std::to_string(idx) + ", \"class\": " + jsonStr(o3.cls) +
            ", \"message\": " + jsonStr(o3.msg) + ", \"hash\": \"" + std::to_string(o3.hash) +
            "\", \"draws_before\": " + std::to_string(script.size()) + ", \"draws_after\": " + std::to_string(min.size()) + "}";
    bad = true;
    break;
  }
  uint64_t blocks = 0;
  for (int i = 0; i < (1 << 16); ++i) blocks += S->cover[i];
  fprintf(jf, "{\"runs\": %lu, \"nontrivial\": %lu, \"deaths\": %lu, \"sim_seconds\": %.6f, \"blocks_executed\": %lu, \"blocks_reached\": %lu, \"switches\": %lu, \"wall\": %.3f,\n",
          (unsigned long)S->runs_done, (unsigned long)S->nontrivial_done, (unsigned long)S->guarded_deaths,
          (double)S->sim_ns * 1e-9, (unsigned long)S->ops_steps, (unsigned long)blocks, (unsigned long)S->switches, realNow() - t0);
  fprintf(jf, " \"faults\": ");
  dumpCounters(jf, S->faults);
  fprintf(jf, ",\n \"probes\": ");
  dumpCounters(jf, S->probes);
  fprintf(jf, ",\n \"known\": {");
  bool first = true;
  for (auto& k : known_hits) { fprintf(jf, "%s%s: %lu", first ? "" : ", ", jsonStr(k.first).c_str(), (unsigned long)k.second); first = false; }
  fprintf(jf, "},\n \"violation\": %s}\n", vjson.c_str());
  fclose(jf);
  // coverage map for merging
  FILE* cf = fopen((out + ".cov").c_str(), "wb");
  fwrite(S->cover, 1, sizeof S->cover, cf);
  fclose(cf);
  return bad ? 1 : 0;
}

// list the hashes of runs [a, b) one per line (determinism check)
static int cmdHashes(uint64_t seed, uint64_t a, uint64_t b) {
  for (uint64_t i = a; i < b; ++i) {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      cpuLimit(runSeconds());
      uint64_t k = i;
      for (; k < b; ++k) {
        S->run = k;
        g_rng = seedOf(seed, world_name, k);
        executeRun(false);
        printf("%lu %lu\n", (unsigned long)k, (unsigned long)S->hash);
      }
      fflush(stdout);
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    i = S->run;
    printf("%lu V%lu\n", (unsigned long)i, (unsigned long)(S->verdict ? S->hash : 0));
  }
  fflush(stdout);
  return 0;
}

static int simMain(int argc, char** argv) {
  std::string cmd = argc > 1 ? argv[1] : "";
  uint64_t seed = 1, start = 0, stride = 1, runs = 100;
  double seconds = 1e9;
  unsigned twin = 8;
  std::string out = "/dev/null", file;
  std::vector<std::string> known;
  bool verbose = false;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") g_prop = val();
    else if (a == "--seed") seed = strtoull(val(), nullptr, 10);
    else if (a == "--start") start = strtoull(val(), nullptr, 10);
    else if (a == "--stride") stride = strtoull(val(), nullptr, 10);
    else if (a == "--runs") runs = strtoull(val(), nullptr, 10);
    else if (a == "--seconds") seconds = atof(val());
    else if (a == "--twin") twin = (unsigned)atoi(val());
    else if (a == "--out") out = val();
    else if (a == "--file") file = val();
    else if (a == "--known") known.push_back(val());
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--verbose") verbose = true;
  }
  S = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  // at a fixed place if possible: a history that reads an indeterminate pointer repeats as well
  A0 = (char*)mmap((void*)0x200000000000, A_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || A0 == MAP_FAILED) hostDie("mmap");
  A0 = (char*)(((uintptr_t)A0 + 4095) & ~(uintptr_t)4095);
  A_size -= 8192;
  A_dirty = 64u << 20;
  g_blocks = new std::vector<Block>;
  g_index = new std::unordered_map<size_t, uint32_t>;
  g_handles = new std::vector<Handle*>;
  g_by_file = new std::unordered_map<FILE*, Handle*>;
  g_objs = new std::unordered_map<const void*, int>;
  g_index->reserve(4096);
  ASAN_POISON_MEMORY_REGION(A0, A_dirty);
  g_trace = stdout;
  if (cmd == "batch") return cmdBatch(seed, start, stride, runs, seconds, twin, out, known);
  if (cmd == "hashes") return cmdHashes(seed, start, start + runs);
  if (cmd == "replay" || cmd == "show") {
    std::vector<uint64_t> script;
    if (cmd == "replay") script = readScript(file.c_str());
    else {
      // generate the draws of run `start`
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
        cpuLimit(runSeconds());
        g_counting = false;
        g_rng = seedOf(seed, world_name, start);
        executeRun(false);
        _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      script = lastDraws();
    }
    RunOut o = forked(script, true, verbose, runSeconds());
    printf("RESULT {\"verdict\": %d, \"class\": %s, \"message\": %s, \"hash\": \"%lu\", \"draws\": %zu}\n", o.verdict,
           jsonStr(o.verdict ? o.cls : "").c_str(), jsonStr(o.verdict ? o.msg : "").c_str(),
           (unsigned long)o.hash, script.size());
    return o.verdict == 0 ? 0 : 1;
  }
  if (cmd == "minimise") {
    std::vector<uint64_t> script = readScript(file.c_str());
    RunOut o = forked(script, true, false, runSeconds());
    if (o.verdict != 1) { printf("no violation\n"); return 0; }
    auto m = minimise(script, o.cls, seconds < 1e8 ? seconds : 60);
    writeScript(out, m);
    return 1;
  }
  fprintf(stderr, "usage: batch|hashes|replay|show|minimise\n");
  return 3;
}

static int simCloseImpl(FILE* f) {
  Handle* h = handleOf(f, "close");
  if (!h) return 0;
  {
    Host g;
    g_by_file->erase(f);
    h->open = false;
    --g_disk.nb_open;
  }
  char* buf = h->buf;
  h->buf = nullptr;
  int r = __real_fclose(f);
  {
    Host g;
    if (buf) __real_free(buf);
    ev("close", h->name, r);
  }
  return r;
}
static int simClose(FILE* f) { return simCloseImpl(f); }

}  // namespace sim

int main(int argc, char** argv) { return sim::simMain(argc, argv); }

// ==================================================================== seams
using namespace sim;
extern "C" {

void* __wrap_malloc(size_t n) {
  if (t_in_sut) { yieldPoint(); return sutMalloc(n); }
  return __real_malloc(n);
}
void __wrap_free(void* p) {
  if (p && inArena(p)) { yieldPoint(); sutFree(p); return; }
  __real_free(p);
}
void* __wrap_calloc(size_t a, size_t b) {
  if (t_in_sut) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = sutMalloc(n);
    if (p) { Host h; memset(p, 0, n); }
    return p;
  }
  return __real_calloc(a, b);
}
void* __wrap_realloc(void* p, size_t n) {
  if ((p && inArena(p)) || (!p && t_in_sut)) { yieldPoint(); return sutRealloc(p, n); }
  return __real_realloc(p, n);
}
void* __wrap_aligned_alloc(size_t a, size_t n) {
  if (t_in_sut) return sutMalloc(n, a);
  return __real_aligned_alloc(a, n);
}
int __wrap_posix_memalign(void** p, size_t a, size_t n) {
  if (t_in_sut) { *p = sutMalloc(n, a); return *p ? 0 : ENOMEM; }
  return __real_posix_memalign(p, a, n);
}
void __wrap_abort() {
  if (t_in_sut) die("abort");
  __real_abort();
}
void __wrap_exit(int c) {
  if (t_in_sut) die("exit");
  __real_exit(c);
}

// stdio
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(FILE*, fopen, const char*, const char*);
REAL(int, fclose, FILE*);
REAL(size_t, fread, void*, size_t, size_t, FILE*);
REAL(size_t, fwrite, const void*, size_t, size_t, FILE*);
REAL(char*, fgets, char*, int, FILE*);
REAL(int, fputs, const char*, FILE*);
REAL(int, fputc, int, FILE*);
REAL(int, putc, int, FILE*);
REAL(int, fgetc, FILE*);
REAL(int, getc, FILE*);
REAL(int, ungetc, int, FILE*);
REAL(int, fseek, FILE*, long, int);
REAL(int, fseeko, FILE*, off_t, int);
REAL(long, ftell, FILE*);
REAL(off_t, ftello, FILE*);
REAL(void, rewind, FILE*);
REAL(int, fflush, FILE*);
REAL(int, ferror, FILE*);
REAL(int, feof, FILE*);
REAL(void, clearerr, FILE*);
REAL(int, remove, const char*);
REAL(int, rename, const char*, const char*);
REAL(int, unlink, const char*);

FILE* __wrap_fopen(const char* p, const char* m) {
  if (t_in_sut) { yieldPoint(); return simOpen(p, m); }
  return __real_fopen(p, m);
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
int __wrap_fclose(FILE* f) {
  if (t_in_sut) { yieldPoint(); return simClose(f); }
  return __real_fclose(f);
}
#define CHECKED(name, f) do { if (t_in_sut) { yieldPoint(); handleOf(f, #name); } } while (0)
size_t __wrap_fread(void* p, size_t s, size_t n, FILE* f) { CHECKED(fread, f); return __real_fread(p, s, n, f); }
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) { CHECKED(fwrite, f); return __real_fwrite(p, s, n, f); }
char* __wrap_fgets(char* p, int n, FILE* f) { CHECKED(fgets, f); return __real_fgets(p, n, f); }
int __wrap_fputs(const char* p, FILE* f) { CHECKED(fputs, f); return __real_fputs(p, f); }
int __wrap_fputc(int c, FILE* f) { CHECKED(fputc, f); return __real_fputc(c, f); }
int __wrap_putc(int c, FILE* f) { CHECKED(putc, f); return __real_putc(c, f); }
int __wrap_fgetc(FILE* f) { CHECKED(fgetc, f); return __real_fgetc(f); }
int __wrap_getc(FILE* f) { CHECKED(getc, f); return __real_getc(f); }
int __wrap_ungetc(int c, FILE* f) { CHECKED(ungetc, f); return __real_ungetc(c, f); }
int __wrap_fseek(FILE* f, long o, int w) { CHECKED(fseek, f); return __real_fseek(f, o, w); }
int __wrap_fseeko(FILE* f, off_t o, int w) { CHECKED(fseeko, f); return __real_fseeko(f, o, w); }
long __wrap_ftell(FILE* f) { CHECKED(ftell, f); return __real_ftell(f); }
off_t __wrap_ftello(FILE* f) { CHECKED(ftello, f); return __real_ftello(f); }
void __wrap_rewind(FILE* f) { CHECKED(rewind, f); __real_rewind(f); }
int __wrap_fflush(FILE* f) { if (f) CHECKED(fflush, f); return __real_fflush(f); }
int __wrap_ferror(FILE* f) { CHECKED(ferror, f); return __real_ferror(f); }
int __wrap_feof(FILE* f) { CHECKED(feof, f); return __real_feof(f); }
void __wrap_clearerr(FILE* f) { CHECKED(clearerr, f); __real_clearerr(f); }
REAL(int, vfprintf, FILE*, const char*, va_list);
int __wrap_vfprintf(FILE* f, const char* fmt, va_list ap) { CHECKED(fprintf, f); return __real_vfprintf(f, fmt, ap); }
int __wrap_fprintf(FILE* f, const char* fmt, ...) {
  CHECKED(fprintf, f);
  va_list ap;
  va_start(ap, fmt);
  int r = __real_vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
int __wrap_remove(const char* p) {
  if (!t_in_sut) return __real_remove(p);
  Host h;
  ev("remove", p);
  if (g_disk.crashed) return 0;
  return g_disk.files.erase(p) ? 0 : (errno = ENOENT, -1);
}
int __wrap_unlink(const char* p) { return t_in_sut ? __wrap_remove(p) : __real_unlink(p); }
int __wrap_rename(const char* a, const char* b) {
  if (!t_in_sut) return __real_rename(a, b);
  Host h;
  ev("rename", a, b);
  if (g_disk.crashed) return 0;
  auto it = g_disk.files.find(a);
  if (it == g_disk.files.end()) { errno = ENOENT; return -1; }
  g_disk.files[b] = it->second;
  if (strcmp(a, b)) g_disk.files.erase(a);
  return 0;
}

}  // extern "C"

namespace sim {
static bool isWall(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE; }
int simGettime(clockid_t c, struct timespec* t) {
  Host h;
  int64_t m = monoNow();
  if (isWall(c)) m += g_clock.wall_offset;
  t->tv_sec = m / 1000000000;
  t->tv_nsec = m % 1000000000;
  ev("  clock", c, m);
  return 0;
}
int simSleep(clockid_t c, bool absolute, const struct timespec* req, struct timespec* rem, bool as_errno) {
  Host h;
  Clock& k = g_clock;
  ++k.sleeps;
  if (req->tv_nsec < 0 || req->tv_nsec > 999999999 || req->tv_sec < 0) {
    ev("  sleep-einval", req->tv_sec, req->tv_nsec);
    errno = EINVAL;
    return as_errno ? EINVAL : -1;
  }
  __int128 want = (__int128)req->tv_sec * 1000000000 + req->tv_nsec;
  if (absolute) want -= (__int128)k.mono + (isWall(c) ? k.wall_offset : 0);
  if (want < 0) want = 0;
  if (want > (__int128)4000000000000000000ll) want = 4000000000000000000ll;
  int64_t w = (int64_t)want;
  if (k.eintr_rate && flip(k.eintr_rate) && w > 0) {
    int64_t part = (int64_t)(w < (1ll << 40) ? (int64_t)draw((uint64_t)w) : w / 2);
    k.mono += part;
    k.slept += part;
    g_now += (uint64_t)part;
    ++k.interrupted;
    fault("sleep-eintr");
    if (rem && !absolute) {
      rem->tv_sec = (w - part) / 1000000000;
      rem->tv_nsec = (w - part) % 1000000000;
    }
    errno = EINTR;
    return as_errno ? EINTR : -1;
  }
  if (k.oversleep) {
    int64_t extra = (int64_t)draw(2000000);
    w += extra;
  }
  k.mono += w;
  k.slept += w;
  g_now += (uint64_t)w;
  ev("  slept", w);
  return 0;
}
}  // namespace sim

// The clock functions are called from libstdc++ (shared), so they are interposed.
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  if (t_in_sut) return simGettime(c, t);
  static int (*real)(clockid_t, struct timespec*) =
      (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
  return real(c, t);
}
extern "C" int nanosleep(const struct timespec* a, struct timespec* b) {
  if (t_in_sut) return simSleep(CLOCK_MONOTONIC, false, a, b, false);
  static int (*real)(const struct timespec*, struct timespec*) =
      (int (*)(const struct timespec*, struct timespec*))dlsym(RTLD_NEXT, "nanosleep");
  return real(a, b);
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b) {
  if (t_in_sut) return simSleep(c, flags & TIMER_ABSTIME, a, b, true);
  static int (*real)(clockid_t, int, const struct timespec*, struct timespec*) =
      (int (*)(clockid_t, int, const struct timespec*, struct timespec*))dlsym(RTLD_NEXT, "clock_nanosleep");
  return real(c, flags, a, b);
}
extern "C" int usleep(useconds_t us) {
  struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}

void* operator new(size_t n) {
  if (t_in_sut) {
    yieldPoint();
    void* p = sutMalloc(n ? n : 1);
    if (!p) die("std::bad_alloc");
    return p;
  }
  void* p = __real_malloc(n ? n : 1);
  if (!p) hostDie("out of memory");
  return p;
}
// An exception that nobody catches stops the process.
extern "C" void __cxa_throw_bad_array_new_length() {
  if (t_in_sut) die("std::bad_array_new_length");
  hostDie("bad_array_new_length");
}
extern "C" void __real___cxa_throw(void*, void*, void (*)(void*));
extern "C" void __wrap___cxa_throw(void* e, void* type, void (*dest)(void*)) {
  if (t_in_sut) die("an exception");
  __real___cxa_throw(e, type, dest);
  __builtin_unreachable();
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  if (t_in_sut) return sutMalloc(n ? n : 1);
  return __real_malloc(n ? n : 1);
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
