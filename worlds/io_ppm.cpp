// Images in .ppm files (C31).
#include <il/io/ppm/ppm.h>

#include "common.h"

using namespace sim;

namespace {

const char* kName = "/simdisk/x.ppm";

// What the format says about the bytes of a file.
struct Ref {
  bool sure = true;   // whether the format leaves no doubt
  bool valid = false; // an image of 8-bit components, complete
  long w = 0, h = 0;
  size_t begin = 0;   // of the pixels
};
bool blank(unsigned char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
Ref understand(const std::string& b) {
  Ref r;
  if (b.size() < 2 || b[0] != 'P' || b[1] != '6') return r;
  size_t i = 2;
  long v[3] = {0, 0, 0};
  for (int k = 0; k < 3; ++k) {
    // separators
    const size_t i0 = i;
    bool comment = false;
    while (i < b.size() && (blank((unsigned char)b[i]) || b[i] == '#')) {
      if (b[i] == '#') {
        if (i == i0) r.sure = false;  // right after what comes before
        comment = true;
        while (i < b.size() && b[i] != '\n' && b[i] != '\r') ++i;
      } else ++i;
    }
    unused(comment);
    if (i == i0 || i == b.size()) return r;
    if (b[i] < '0' || b[i] > '9') { if (b[i] == '+') r.sure = false; return r; }
    bool big = false;
    const size_t d0 = i;
    while (i < b.size() && b[i] >= '0' && b[i] <= '9') {
      if (v[k] > 100000000000l) big = true;
      else v[k] = 10 * v[k] + (b[i] - '0');
      ++i;
    }
    if (i - d0 > 1 && b[d0] == '0') r.sure = false;
    if (big) return r;
  }
  if (i == b.size()) return r;
  if (b[i] == '#') { r.sure = false; return r; }
  if (!blank((unsigned char)b[i])) return r;
  ++i;
  r.w = v[0];
  r.h = v[1];
  r.begin = i;
  if (r.w == 0 || r.h == 0) { r.sure = false; return r; }
  if (v[2] != 255) return r;
  if (r.w > 0x7fffffff || r.h > 0x7fffffff) return r;
  const __int128 need = (__int128)3 * r.w * r.h;
  r.valid = need <= (__int128)(b.size() - i);
  return r;
}

void space(std::string& b, Stream& s, bool plain) {
  static const char blanks[] = " \t\n\v\f\r";
  if (plain) { b += s.below(2) ? '\n' : ' '; return; }
  b += blanks[s.below(6)];
  const uint64_t n = s.below(4);
  for (uint64_t i = 0; i < n; ++i) {
    if (s.below(3) == 0) {
      b += '#';
      const uint64_t m = s.below(s.below(8) == 0 ? 3000 : 40);
      for (uint64_t k = 0; k < m; ++k) { char c = (char)s.below(256); if (c == '\n' || c == '\r') c = '5'; b += c; }
      b += s.below(4) ? '\n' : '\r';
      probe("comment");
    } else b += blanks[s.below(6)];
  }
}
std::string makeFile(Stream& s, int64_t& w, int64_t& h) {
  const bool plain = draw(3) == 0;
  const uint64_t k = draw(4);
  w = 1 + (int64_t)draw(k == 0 ? 3 : k == 1 ? 12 : 70);
  h = 1 + (int64_t)draw(k == 0 ? 3 : k == 1 ? 12 : thorough() ? 70 : 30);
  static const char blanks[] = " \t\n\v\f\r";
  std::string b = "P6";
  space(b, s, plain);
  b += std::to_string(w);
  space(b, s, plain);
  b += std::to_string(h);
  space(b, s, plain);
  b += "255";
  b += plain ? '\n' : blanks[s.below(6)];
  const uint64_t form = s.below(5);
  for (int64_t i = 0; i < 3 * w * h; ++i) b += form == 0 ? '\n' : form == 1 ? "#\n \r0"[s.below(5)] : (char)s.below(256);
  if (flip(4)) { const uint64_t n = 1 + draw(20); for (uint64_t i = 0; i < n; ++i) b += (char)s.below(256); probe("more-bytes"); }
  return b;
}
void damage(std::string& b, Stream& s) {
  static const char* sizes[] = {"0", "-1", "-3", "2147483647", "2147483648", "4294967297", "65536", "1431655766", "715827883", "99999999999999999999999", "18446744073709551617",
                                "a", "", "+2", "3.5", "256", "254", "65535", "1", "100000"};
  const uint64_t n = 1 + draw(3);
  for (uint64_t i = 0; i < n; ++i) {
    const size_t r = understand(b).begin, hdr = r > 0 ? r : b.size() < 20 ? b.size() : 20;
    switch (draw(9)) {
      case 0: if (!b.empty()) b[draw(b.size())] ^= (char)(1 << draw(8)); fault("stored-bit-flip"); break;
      case 1: if (hdr) b[draw(hdr)] = (char)draw(256); fault("stored-byte-changed"); break;
      case 2: b.resize((size_t)draw(b.size() + 1)); fault("stored-truncation"); break;
      case 3: if (hdr) b.resize((size_t)draw(hdr + 1)); fault("stored-header-cut"); break;
      case 4: if (b.size() > 1) b.resize(b.size() - 1 - (size_t)draw(b.size() < 4 ? b.size() : 4)); fault("stored-truncation"); break;
      case 5: if (hdr) { const size_t k = draw(hdr); b.erase(k, 1 + draw(4)); } fault("stored-bytes-lost"); break;
      case 6: if (hdr) { const size_t k = draw(hdr); b.insert(k, b.substr(draw(hdr), 1 + draw(4))); } fault("stored-bytes-duplicated"); break;
      case 7: {  // another number
        std::vector<std::pair<size_t, size_t>> numbers;
        for (size_t k = 2; k < hdr && k < b.size();) {
          size_t e = k;
          while (e < hdr && e < b.size() && b[e] >= '0' && b[e] <= '9') ++e;
          if (e > k) numbers.push_back({k, e - k});
          k = e + 1;
        }
        if (!numbers.empty()) {
          const auto p = numbers[draw(numbers.size())];
          b.replace(p.first, p.second, sizes[draw(sizeof sizes / sizeof *sizes)]);
        }
        fault("stored-number-changed");
        break;
      }
      default: if (hdr) b[draw(hdr)] = "\n# 0129-\rP"[draw(10)]; fault("stored-syntax-changed"); break;
    }
  }
  if (flip(30)) { b.assign((size_t)draw(60), '\0'); for (auto& c : b) c = (char)s.below(256); if (draw(2) && b.size() > 2) { b[0] = 'P'; b[1] = '6'; } }
}

}  // namespace

void world_ppm() {
  Stream s = stream();
  int64_t w, h;
  std::string b = makeFile(s, w, h);
  const Ref made = understand(b);
  SIM_CHECK(made.sure && made.valid && made.w == w && made.h == h, "oracle", "the file that was made is not understood");
  if (draw(2)) damage(b, s);
  const Ref ref = understand(b);
  g_disk.put(kName, b);
  g_disk.put("/simdisk/other", "do not touch");
  g_disk.files[kName]->readonly = flip(5);
  const uint64_t version = g_disk.files[kName]->version;
  const bool missing = flip(30);
  if (missing) g_disk.files.erase(kName);
  ioplan::drawStorage(false, (int64_t)b.size());
  // an error, then a second image with the same status
  const bool reused = flip(4);
  setStepBudget(200000 + 400 * (uint64_t)b.size());
  g_alloc.max_single = 16 * b.size() + (1u << 17);
  bool ok = false;
  int error = -1;
  int64_t gw = -1, gh = -1;
  std::string got;
  const End e = guarded([&] {
    il::Status status{};
    if (reused) {
      il::readPpm("/simdisk/missing.ppm", il::io, status);
      const bool missing_ok = status.Ok();
      SIM_CHECK(!missing_ok, "ok-missing-file", "reading a missing file reported success");
    }
    const il::Array2D<il::Pixel> image = il::readPpm(kName, il::io, status);
    ok = status.Ok();
    if (!ok) error = (int)status.error();
    Host host;
    gw = image.size(0);
    gh = image.size(1);
    if (ok)
      for (int64_t y = 0; y < gh; ++y)
        for (int64_t x = 0; x < gw; ++x) {
          const il::Pixel p = image(x, y);
          got += (char)p.red;
          got += (char)p.green;
          got += (char)p.blue;
        }
  });
  ev("read", e == End::Died ? -1 : (int)ok, error, b);
  nontrivial();
  SIM_CHECK(e != End::Died, "stopped-process", "reading an image in a file of %zu bytes stopped the process (%s)", b.size(), g_death);
  SIM_CHECK(g_disk.nb_open == 0, "handle-leak", "%lu file(s) left open", (unsigned long)g_disk.nb_open);
  SIM_CHECK(g_astats.live == 0, "memory-leak", "memory was lost: %s", describeLive().c_str());
  if (!missing) SIM_CHECK(g_disk.exists(kName) && g_disk.files[kName]->version == version && g_disk.bytes(kName) == b, "file-modified", "the file was modified");
  for (auto& f : g_disk.files)
    SIM_CHECK((f.first == kName && !missing) || f.first == "/simdisk/other", "stray-file", "the file %s appeared", f.first.c_str());
  SIM_CHECK(g_astats.largest_request <= 16 * b.size() + (1u << 17), "oversized-allocation", "reading a file of %zu bytes requested %lu bytes at once", b.size(),
            (unsigned long)g_astats.largest_request);
  const bool troubled = g_disk.hard_faults > 0 || missing;
  if (ok) {
    SIM_CHECK(!missing, "ok-missing-file", "reading a missing file reported success");
    SIM_CHECK(gw == ref.w && gh == ref.h, "wrong-size", "the image is %ld x %ld instead of %ld x %ld", (long)gw, (long)gh, ref.w, ref.h);
    SIM_CHECK(ref.valid || !ref.sure, "ok-wrong-file", "a file that holds no such image was read with success");
    SIM_CHECK(ref.begin + got.size() <= b.size() && b.compare(ref.begin, got.size(), got) == 0, "wrong-pixels", "the pixels are not those of the file");
    probe("read");
  } else {
    SIM_CHECK(gw * gh == 0, "pixels-with-an-error", "an error was reported together with an image of %ld x %ld", (long)gw, (long)gh);
    SIM_CHECK(troubled || !ref.sure || !ref.valid, "spurious-error", "reading a valid image of %ld x %ld from a healthy disk failed (error %d)", ref.w, ref.h, error);
    probe(troubled ? "error-under-fault" : "error-wrong-file");
  }
}
