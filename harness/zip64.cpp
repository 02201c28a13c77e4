// C17 and C10 for sizes that do not fit in memory: the archive writing functions of src/npz.cpp itself are
// compiled into this program and run on an output stream that keeps only small writes, with byte strings whose
// storage is an untouched sparse mapping. Compression is replaced by a stand-in that returns such a string.
#include <cstdint>
#include <string>
namespace npy {
}
#include "npz.cpp"
static void finish(std::ostream &o, const std::vector<npy::file_entry> &e) { ::close(o, e); }
#include "common.h"
#include <sys/mman.h>

// a string of n bytes that owns no memory; must never be destroyed or copied
struct Huge {
  const char *p;
  size_t n, cap;
  char pad[8];
};
static char *zeros() {
  static char *z = (char *)mmap(nullptr, size_t(16) << 30, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return z;
}
static void forge(std::string &s, size_t n) {
  static_assert(sizeof(Huge) == sizeof(std::string), "layout");
  Huge h = {zeros(), n, n, {}};
  memcpy((void *)&s, &h, sizeof h);
}
static size_t COMPRESSED = 0;
namespace npy {
std::uint32_t npy_crc32(const std::string &) { return 0x12345678; }
std::string npy_deflate(std::string &&) {
  union U {
    std::string s;
    U() { new (&s) std::string; }
    ~U() {}
  } u;
  if (COMPRESSED < 64)
    return std::string(COMPRESSED, 'c');
  forge(u.s, COMPRESSED);
  return std::move(u.s);
}
std::string npy_inflate(std::string &&) { return ""; }
} // namespace npy
void operator delete(void *p) noexcept {
  if ((char *)p < zeros() || (char *)p >= zeros() + (size_t(16) << 30))
    free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void *operator new(size_t n) {
  if (n > (size_t(1) << 30))
    throw std::bad_alloc();
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}

struct Sparse : std::streambuf {
  uint64_t pos = 0;
  std::vector<std::pair<uint64_t, std::string>> runs; // small writes; big ones are gaps
  void add(const char *s, size_t n) {
    if (runs.empty() || runs.back().first + runs.back().second.size() != pos)
      runs.push_back({pos, ""});
    runs.back().second.append(s, n);
    pos += n;
  }
  int overflow(int c) override {
    char x = (char)c;
    add(&x, 1);
    return c & 255;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    if (n > 1000000)
      pos += n;
    else
      add(s, n);
    return n;
  }
  pos_type seekoff(off_type o, std::ios::seekdir d, std::ios::openmode) override { return d == std::ios::cur && o == 0 ? pos_type(off_type(pos)) : pos_type(-1); }
  std::string at(uint64_t p, size_t n, const std::string &ctx) {
    for (auto &r : runs)
      if (p >= r.first && p + n <= r.first + r.second.size())
        return r.second.substr(p - r.first, n);
    fail(ctx + ": nothing written at " + std::to_string(p));
  }
};

static uint64_t field(Sparse &s, uint64_t &p, int n, const std::string &ctx) {
  std::string b = s.at(p, n, ctx);
  p += n;
  return le(b, 0, n);
}

static void run_property() {
  using npy::compression_method_t;
  std::vector<uint64_t> sizes = {0, 5, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x8FFFFFFE, 0x8FFFFFFF, 0x90000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x100000001, 0x23456789A};
  std::vector<uint64_t> comps = {0, 5, 0x7FFFFFFF, 0x80000000, 0x8FFFFFFF, 0x90000000, 0xFFFFFF00, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x200000003};
  std::vector<uint64_t> bases = {0, 7, 0x8FFFFFFF, 0x90000000, 0xFFFFFF00, 0xFFFFFFFF, 0x100000000, 0x234567890};
  for (uint64_t us : sizes)
    for (uint64_t cs : comps)
      for (uint64_t base : bases) {
        std::string ctx = "entry of " + std::to_string(us) + " bytes stored in " + std::to_string(cs) + " at offset " + std::to_string(base);
        Sparse sp;
        sp.pos = base;
        std::ostream out(&sp);
        std::vector<npy::file_entry> entries;
        COMPRESSED = cs;
        union U {
          std::string s;
          U() { new (&s) std::string; }
          ~U() {}
        } u;
        forge(u.s, us);
        std::string oc = outcome([&] { ::write_file(out, entries, "abc.npy", compression_method_t::DEFLATED, std::move(u.s)); });
        ++CASES;
        if (!oc.empty()) {
          CHECK(throws_std(oc), ctx + ": outcome " + oc);
          CHECK(sp.runs.empty() && sp.pos == base && entries.empty(), ctx + ": refused, but something was written");
          // refusing is right only when the directory could not be described any more
          CHECK(base + cs + 200 > 0xFFFFFFFFull, ctx + ": refused");
          continue;
        }
        // a second, small entry behind it
        COMPRESSED = 3;
        std::string small = "xyz!";
        uint64_t base2 = sp.pos;
        bool second = outcome([&] { ::write_file(out, entries, "q.npy", compression_method_t::DEFLATED, std::move(small)); }).empty();
        uint64_t dir = sp.pos;
        oc = outcome([&] { finish(out, entries); });
        CHECK(oc.empty(), ctx + ": closing throws " + oc);
        uint64_t end = sp.pos - 22, e = end;
        CHECK(field(sp, e, 4, ctx) == 0x06054b50, ctx + ": end record");
        e += 4;
        CHECK(field(sp, e, 2, ctx) == (second ? 2u : 1u) && field(sp, e, 2, ctx) == (second ? 2u : 1u), ctx + ": entry count");
        uint64_t dsize = field(sp, e, 4, ctx), doff = field(sp, e, 4, ctx);
        CHECK(doff == dir, ctx + ": directory offset " + std::to_string(doff) + " recorded, is " + std::to_string(dir));
        CHECK(dsize == end - dir, ctx + ": directory size " + std::to_string(dsize) + " recorded, is " + std::to_string(end - dir));
        uint64_t p = dir;
        for (int k = 0; k < (second ? 2 : 1); ++k) {
          uint64_t lo = k ? base2 : base, eus = k ? 4 : us, ecs = k ? 3 : cs;
          std::string nm = k ? "q.npy" : "abc.npy", w = ctx + ": record " + std::to_string(k);
          for (int cd = 0; cd < 2; ++cd) {
            uint64_t q = cd ? p : lo;
            CHECK(field(sp, q, 4, w) == (cd ? 0x02014b50u : 0x04034b50u), w + " signature");
            if (cd)
              q += 2;
            uint64_t ver = field(sp, q, 2, w);
            q += 2;
            CHECK(field(sp, q, 2, w) == 8, w + ": method");
            q += 4;
            CHECK(field(sp, q, 4, w) == 0x12345678, w + ": crc");
            Rec r;
            r.csize = field(sp, q, 4, w);
            r.usize = field(sp, q, 4, w);
            CHECK(field(sp, q, 2, w) == nm.size(), w + ": name length");
            uint64_t xl = field(sp, q, 2, w);
            if (cd) {
              CHECK(field(sp, q, 2, w) == 0, w + ": comment length");
              q += 8;
              r.offset = field(sp, q, 4, w);
            }
            CHECK(sp.at(q, nm.size(), w) == nm, w + ": name");
            q += nm.size();
            zip64_of(xl ? sp.at(q, xl, w) : "", r, cd, w);
            if (xl)
              CHECK(ver >= 45, w + ": version needed for ZIP64 is " + std::to_string(ver));
            q += xl;
            CHECK(r.usize == eus, w + ": size " + std::to_string(r.usize) + " recorded, is " + std::to_string(eus));
            CHECK(r.csize == ecs, w + ": compressed size " + std::to_string(r.csize) + " recorded, is " + std::to_string(ecs));
            if (cd) {
              CHECK(r.offset == lo, w + ": offset " + std::to_string(r.offset) + " recorded, is " + std::to_string(lo));
              p = q;
            } else
              CHECK(q + ecs == (k || !second ? dir : base2), w + ": data length");
          }
        }
        CHECK(p == end, ctx + ": directory length");
      }
}
