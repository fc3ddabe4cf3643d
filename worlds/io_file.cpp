// The buffered file object: C08.

#include <il/File.h>

#include "common.h"

using namespace sim;

namespace {

const char* kName = "/simdisk/f.bin";

// An outcome of one call on the object.
struct Call {
  bool died = false, ok = false;
};
template <typename F>
Call call(F&& f) {
  Call c;
  End e = guarded([&] {
    il::Status status{};
    f(status);
    c.ok = status.Ok();
  });
  c.died = e == End::Died;
  SIM_CHECK(!c.died, "file-stopped-process", "a call on a file stopped the process (%s)", g_death);
  return c;
}

il::int_t drawBuffer() {
  switch (draw(6)) {
    case 0: return 0;
    case 1: return 1 + (il::int_t)draw(4);
    case 2: return 4 + (il::int_t)draw(16);
    case 3: return 16 + (il::int_t)draw(120);
    case 4: return 512;
    default: return 4096;
  }
}

struct Handle {
  il::File* f = nullptr;
  void* p = nullptr;
  Call open(il::FileMode mode, il::int_t buffer, bool short_form) {
    p = rawAlloc(sizeof(il::File));
    return call([&](il::Status& status) {
      const il::String name = ilString(kName);
      f = short_form ? new (p) il::File{name, mode, il::io, status} : new (p) il::File{name, mode, buffer, il::io, status};
    });
  }
  void destroy() {
    call([&](il::Status& status) {
      f->~File();
      status.SetOk();
    });
    rawFree(p);
  }
};

template <il::int_t n, typename T>
Call readFixed(il::File& f, void* p) {
  return call([&](il::Status& status) { f.Read<n, T>(il::io, static_cast<T*>(p), status); });
}

uint64_t drawCount() {
  switch (draw(5)) {
    case 0: return draw(4);
    case 1: return 1 + draw(8);
    case 2: return draw(40);
    case 3: return draw(200);
    default: return draw(1200);
  }
}

void runRead() {
  Stream s = stream();
  std::string content((size_t)(draw(3) == 0 ? draw(40) : draw(2) ? draw(600) : draw(6000)), 'x');
  for (auto& c : content) c = (char)s.next();
  DiskFile& df = g_disk.put(kName, content);
  df.readonly = flip(3);
  const uint64_t version = df.version;
  const bool missing = flip(10);
  if (missing) g_disk.files.erase(kName);
  const il::int_t buffer = drawBuffer();
  const bool short_form = flip(6);
  ioplan::drawStorage(false, (int64_t)content.size());
  Handle h;
  Call o = h.open(il::FileMode::Read, buffer, short_form);
  ev("open", (int)o.ok, short_form ? 0 : (int64_t)buffer, content.size());
  if (!o.ok) {
    SIM_CHECK(missing || g_disk.hard_faults, "spurious-open-error", "opening a file failed although the storage did not");
    probe("open-failed");
    h.destroy();
    SIM_CHECK(g_disk.nb_open == 0, "handle-leak", "a failed open left a file open");
    return;
  }
  SIM_CHECK(!missing, "open-ok-missing-file", "opening a missing file reported success");
  size_t pos = 0;
  bool lost = false;  // an error was reported: the position is not specified anymore
  uint64_t after = 0;
  const uint64_t nb = 1 + draw(thorough() ? 60 : 30);
  for (uint64_t k = 0; k < nb && after < 4; ++k) {
    if (lost) ++after;
    const uint64_t kind = draw(5);
    const uint64_t faults = g_disk.hard_faults;
    if (kind == 4) {
      const bool absurd = flip(12);
      const size_t n = absurd ? (draw(2) ? (size_t)0 - 1 - (size_t)draw(40) : ((size_t)1 << 63) - 8 + (size_t)draw(16)) : (size_t)drawCount();
      Call c = call([&](il::Status& status) { h.f->Skip(n, il::io, status); });
      ev("skip", n, (int)c.ok);
      if (lost) continue;
      if (c.ok) {
        pos = absurd ? content.size() + 1 : pos + n;
      } else {
        SIM_CHECK(absurd || g_disk.hard_faults || pos + n > content.size(), "spurious-skip-error", "skipping %zu bytes at %zu of %zu reported an error", n, pos, content.size());
        lost = true;
      }
      continue;
    }
    uint64_t bytes;
    int fixed = -1;
    uint64_t objects = 0, size = 1;
    if (kind <= 1) {
      fixed = (int)draw(6);
      static const uint64_t sizes[] = {1, 4, 8, 6, 24, 7};
      bytes = sizes[fixed];
    } else {
      static const uint64_t sz[] = {1, 2, 3, 4, 8, 13};
      size = sz[draw(6)];
      objects = drawCount() / (draw(2) ? size : 1);
      if (flip(3)) {  // around the end of the file, around the size of the buffer
        size = 1;
        objects = (draw(2) ? (uint64_t)(short_form ? 0 : buffer) : pos < content.size() ? content.size() - pos : 0) + draw(3);
        if (objects) --objects;
      }
      bytes = size * objects;
    }
    char* dst = static_cast<char*>(rawAlloc((size_t)bytes + 16));
    std::memset(dst, 0x5c, (size_t)bytes + 16);
    void* p = dst + 8;
    Call c;
    switch (fixed) {
      case 0: c = readFixed<1, unsigned char>(*h.f, p); break;
      case 1: c = readFixed<1, int>(*h.f, p); break;
      case 2: c = readFixed<1, double>(*h.f, p); break;
      case 3: c = readFixed<3, short>(*h.f, p); break;
      case 4: c = readFixed<3, double>(*h.f, p); break;
      case 5: c = readFixed<7, char>(*h.f, p); break;
      default: c = call([&](il::Status& status) { h.f->Read((il::int_t)objects, (std::size_t)size, il::io, p, status); });
    }
    const std::string got(dst + 8, (size_t)bytes);
    const bool outside = std::string(dst, 8) != std::string(8, 0x5c) || std::string(dst + 8 + bytes, 8) != std::string(8, 0x5c);
    rawFree(dst);
    ev("read", fixed, size, objects, (int)c.ok, c.ok ? got : std::string());
    SIM_CHECK(!outside, "read-outside", "a read of %lu bytes wrote outside its destination", (unsigned long)bytes);
    if (lost) continue;
    if (c.ok) {
      SIM_CHECK(pos + bytes <= content.size() || bytes == 0, "read-ok-beyond-end", "reading %lu bytes at %zu of a file of %zu bytes reported success",
                (unsigned long)bytes, pos, content.size());
      if (bytes) SIM_CHECK(got == content.substr(pos, (size_t)bytes), "read-bytes", "reading %lu bytes at %zu returned other bytes", (unsigned long)bytes, pos);
      pos += (size_t)bytes;
      if (g_disk.faults_read > 0) probe("read-ok-after-fault");
      if (g_disk.hard_faults > faults) probe("read-ok-despite-fault");
      if ((il::int_t)bytes > buffer) probe("read-larger-than-buffer");
      if (pos == content.size()) probe("read-to-the-end");
    } else {
      SIM_CHECK(g_disk.hard_faults || pos + bytes > content.size(), "spurious-read-error", "reading %lu bytes at %zu of a file of %zu bytes reported an error",
                (unsigned long)bytes, pos, content.size());
      probe(g_disk.hard_faults ? "read-error-under-fault" : "read-error-at-end");
      lost = true;
    }
  }
  const uint64_t closes = g_disk.faults_close;
  Call c = call([&](il::Status& status) { h.f->Close(il::io, status); });
  ev("close", (int)c.ok);
  SIM_CHECK(!c.ok || g_disk.faults_close == closes, "close-ok-after-failure", "closing reported success although the storage failed");
  SIM_CHECK(c.ok || g_disk.hard_faults, "spurious-close-error", "closing reported an error although the storage did not fail");
  h.destroy();
  SIM_CHECK(g_disk.exists(kName) && g_disk.files[kName]->version == version && g_disk.bytes(kName) == content, "read-modified-file", "reading modified the file");
}

void runWrite() {
  Stream s = stream();
  bool readonly = false;
  if (flip(2)) {
    DiskFile& f = g_disk.put(kName, std::string((size_t)draw(500), 'o'));
    readonly = f.readonly = flip(6);
  }
  const il::int_t buffer = drawBuffer();
  const bool short_form = flip(3);
  ioplan::drawStorage(true, 200 + (int64_t)draw(2000));
  Handle h;
  Call o = h.open(il::FileMode::Write, buffer, short_form);
  ev("open", (int)o.ok);
  if (!o.ok) {
    SIM_CHECK(readonly || g_disk.hard_faults, "spurious-open-error", "opening a file failed although the storage did not");
    h.destroy();
    SIM_CHECK(g_disk.nb_open == 0, "handle-leak", "a failed open left a file open");
    return;
  }
  SIM_CHECK(!readonly, "open-ok-readonly", "a file that may only be read was opened for writing");
  std::string want;
  bool failed = false;
  const uint64_t nb = draw(thorough() ? 40 : 20);
  for (uint64_t k = 0; k < nb; ++k) {
    static const uint64_t sz[] = {1, 2, 3, 4, 8, 13};
    const uint64_t size = sz[draw(6)];
    const uint64_t objects = drawCount() / size;
    const size_t bytes = (size_t)(size * objects);
    char* src = static_cast<char*>(rawAlloc(bytes + 1));
    for (size_t i = 0; i < bytes; ++i) src[i] = (char)s.next();
    const std::string piece(src, bytes);
    Call c = call([&](il::Status& status) { h.f->Write(src, (il::int_t)objects, (std::size_t)size, il::io, status); });
    rawFree(src);
    ev("write", size, objects, (int)c.ok);
    if (c.ok) want += piece;
    else {
      SIM_CHECK(g_disk.hard_faults, "spurious-write-error", "writing %zu bytes reported an error although the storage did not fail", bytes);
      probe("write-error");
      failed = true;
    }
  }
  Call c = call([&](il::Status& status) { h.f->Close(il::io, status); });
  ev("close", (int)c.ok);
  SIM_CHECK(c.ok || g_disk.hard_faults, "spurious-close-error", "closing reported an error although the storage did not fail");
  h.destroy();
  if (!c.ok) probe("close-error");
  if (c.ok && !failed) {
    SIM_CHECK(!(g_disk.faults_write || g_disk.faults_close), "write-ok-after-failure", "every write and the close reported success although the storage failed");
    SIM_CHECK(g_disk.exists(kName) && g_disk.bytes(kName) == want, "written-bytes", "the file does not hold the %zu bytes that were written", want.size());
    if (want.size()) probe("written");
  }
}

}  // namespace

void world_file() {
  setStepBudget(2000000);
  if (draw(3) < 2) runRead(); else runWrite();
  nontrivial();
  SIM_CHECK(g_disk.nb_open == 0, "handle-leak", "%lu file(s) are still open", (unsigned long)g_disk.nb_open);
  SIM_CHECK(g_astats.live == 0, "memory-leak", "memory was lost: %s", describeLive().c_str());
}
