// C18 hostile input (built with sanitizers), C19 independence of objects, C23 file functions
#include "common.h"
#include <atomic>
#include <cfenv>
#include <clocale>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <locale>
#include <memory>
#include <mutex>
#include <new>
#include <csignal>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using npy::compression_method_t;
using npy::npzfilereader;
using npy::npzfilewriter;
using npy::npzstringreader;
using npy::npzstringwriter;

// allocations of absurd size fail as they would on a machine with little memory
static size_t ALLOC_LIMIT = size_t(-1);
void *operator new(size_t n) {
  if (n > ALLOC_LIMIT)
    throw std::bad_alloc();
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

// ------------------------------------------------------------------ transcript of everything observed
static uint64_t DIGEST = 1469598103934665603ull;
static std::string LASTIN;
static FILE *TRACE = nullptr;
static void see(const std::string &s) {
  for (unsigned char c : s)
    DIGEST = (DIGEST ^ c) * 1099511628211ull;
  DIGEST = (DIGEST ^ 0x1FF) * 1099511628211ull;
}

template <class T> static std::string content(const tensor<T> &t) {
  return show(t.shape()) + (t.fortran_order() ? "F" : "C") + std::string((const char *)t.data(), t.size() * sizeof(T));
}
static std::string content(const tensor<std::wstring> &t) {
  std::string r = show(t.shape()) + (t.fortran_order() ? "F" : "C");
  for (size_t i = 0; i < t.size(); ++i) {
    r += std::to_string(t.data()[i].size()) + ":";
    r.append((const char *)t.data()[i].data(), t.data()[i].size() * sizeof(wchar_t));
  }
  return r;
}
static std::string content(const header_info &h) {
  return show(h.shape) + std::to_string((int)h.dtype) + "/" + std::to_string((int)h.endianness) + "/" + std::to_string(h.fortran_order) + "/" +
         (h.dtype == data_type_t::UNICODE_STRING ? std::to_string(h.max_element_length) : "");
}

template <class F> static std::string run(F f) {
  std::string r;
  std::string oc = outcome([&] { r = f(); });
  if (oc == "non-standard exception")
    fail("a non-standard exception for input " + hex(LASTIN, 4000));
  // which exception class signals lack of memory may depend on the limit; the rest must be reproducible
  return oc + "|" + r;
}

template <class T> static void try_load(const std::string &b) {
  see(run([&] {
    std::istringstream in(b);
    tensor<T> t = npy::load<tensor<T>>(in);
    if (t.size() != product(t.shape()))
      fail("tensor of inconsistent size from " + hex(b, 4000));
    std::string c = content(t);
    // what was loaded can be used
    if (t.size()) {
      std::vector<int> idx(t.ndim(), -1);
      (void)t(std::vector<int>(idx));
    }
    return c;
  }));
}
static void mark(const std::string &b) {
  ++CASES;
  LASTIN = b;
  if (TRACE) {
    rewind(TRACE);
    std::string h = hex(b, 1 << 20);
    fwrite(h.data(), 1, h.size(), TRACE);
    fputc('\n', TRACE);
    fflush(TRACE);
  }
}
static void feed_npy(const std::string &b, int sel) {
  mark(b);
  see(run([&] {
    std::istringstream in(b);
    return content(npy::peek(in));
  }));
  switch (sel % 8) {
  case 0: try_load<uint8_t>(b); break;
  case 1: try_load<int16_t>(b); break;
  case 2: try_load<float>(b); break;
  case 3: try_load<c128>(b); break;
  case 4: try_load<boolean>(b); break;
  case 5: try_load<int64_t>(b); break;
  default: try_load<std::wstring>(b); break;
  }
  try_load<std::wstring>(b);
}
static void feed_npz(const std::string &b) {
  mark(b);
  std::unique_ptr<npzstringreader> rd;
  see(run([&] {
    rd.reset(new npzstringreader(b));
    return std::string("opened");
  }));
  if (!rd)
    return;
  std::vector<std::string> ks = rd->keys();
  if (ks.size() > 40)
    ks.resize(40);
  ks.push_back("missing");
  for (const std::string &k : ks) {
    see(k);
    see(run([&] { return content(rd->peek(k)); }));
    see(run([&] { return content(rd->read<tensor<uint8_t>>(k)); }));
    see(run([&] { return content(rd->read<tensor<std::wstring>>(k)); }));
    see(run([&] { return content(rd->read<tensor<float>>(k)); }));
    see(rd->contains(k) ? "yes" : "no");
  }
}

static std::string mutate(std::string b, Rng &r, const std::vector<std::string> &words) {
  size_t k = 1 + r.below(4);
  for (size_t i = 0; i < k; ++i) {
    if (b.empty())
      b = "x";
    size_t p = r.below(b.size());
    if (r.below(2))
      p = r.below(std::min<size_t>(b.size(), 130));
    switch (r.below(9)) {
    case 0: b[p] ^= 1 << r.below(8); break;
    case 1: b[p] = (char)r.next(); break;
    case 2: b[p] = (char)(r.below(2) ? 0xFF : 0); break;
    case 3: b.erase(p, 1 + r.below(9)); break;
    case 4: b.insert(p, words[r.below(words.size())]); break;
    case 5: b = b.substr(0, p); break;
    case 6: {
      const std::string &w = words[r.below(words.size())];
      b.replace(p, std::min(w.size(), b.size() - p), w);
      break;
    }
    case 7:
      for (int j = 0; j < 4 && p + j < b.size(); ++j)
        b[p + j] = (char)0xFF;
      break;
    default: b.insert(p, b.substr(r.below(b.size()), r.below(40)));
    }
  }
  return b;
}

static std::string raw(const std::string &d, int v) { return raw_header(d, v); }

static void c18() {
  ALLOC_LIMIT = size_t(5) << 19;
  Rng r(SEED * 101);
  if (!SCRATCH.empty())
    TRACE = fopen((SCRATCH + "/last-input.hex").c_str(), "w");
  std::vector<std::string> words = {"{",  "}",  "(",  ")",  "'", ",", ":", " ", "\n", "descr", "fortran_order", "shape", "True", "False", "'<U99999999999999999999'", "'<U'",
                                    "4294967295", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-1", "(,)", "()", "(3,", "<", ">", "|", "=",
                                    "'<U5'", "'|u1'", "'\\x00'", std::string("\0", 1), std::string(70, 'A'), std::string(300, '('), "\"", "None", "0x10", "1L", "3,4", "65536,65536,65536,65536", "U", "'>c16'", "<U2147483648", "<U4611686018427387904"};
  // headers: systematic
  std::vector<std::string> dicts;
  for (const char *de : {"|u1", "<i2", ">f4", "<c16", "|b1", "<i8", "<U3", ">U1", "<U0"})
    for (Shape s : {Shape{}, Shape{0}, Shape{3}, Shape{2, 3}, Shape{1, 0, 4}})
      for (bool f : {false, true})
        dicts.push_back(dict(de, f, s));
  int sel = 0;
  std::string body(200, '\5');
  for (auto &d : dicts) {
    std::string h = raw(d + std::string(20, ' ') + "\n", 1 + sel % 2);
    feed_npy(h + body, sel++);
    feed_npy(h, sel++);
    for (size_t cut = 0; cut < h.size(); cut += 1 + r.below(9))
      feed_npy(h.substr(0, cut), sel++);
  }
  // dictionaries cut at every position, with consistent length
  for (size_t i = 0; i < 3; ++i) {
    std::string d = dicts[r.below(dicts.size())];
    for (size_t cut = 0; cut <= d.size(); ++cut)
      for (const char *tail : {"", "\n", "}", "'", "',}"})
        feed_npy(raw(d.substr(0, cut) + tail, 1) + body, sel++);
  }
  long n = DEEP ? 400000 : 25000;
  for (long i = 0; i < n; ++i) {
    std::string d = dicts[r.below(dicts.size())];
    if (i % 3 == 0) { // mutate only the dictionary, keeping the length right
      feed_npy(raw(mutate(d, r, words), 1 + i % 2) + body, sel++);
    } else if (i % 3 == 1) {
      feed_npy(mutate(raw(d + "\n", 1 + i % 2) + body.substr(0, r.below(100)), r, words), sel++);
    } else {
      std::string x = "{'descr': '" + words[r.below(words.size())] + "', 'fortran_order': " + (r.below(2) ? "True" : words[r.below(words.size())]) +
                      ", 'shape': (" + words[r.below(words.size())] + "," + words[r.below(words.size())] + "), }";
      feed_npy(raw(x, 1) + body, sel++);
    }
  }
  // tokens of every length around the sizes buffers tend to have
  for (size_t p2 = 128; p2 <= 131072; p2 *= 2)
    for (int dl = -2; dl <= 2; ++dl) {
      size_t k = p2 + dl;
      std::string x(k, 'k'), sp(k, ' '), nine(k, '1');
      for (const std::string &d : {"{'" + x + "': (), }", "{'" + x, "{'descr': '" + x + "', 'fortran_order': False, 'shape': (), }", "{'descr': '<U" + nine + "', 'fortran_order': False, 'shape': (), }",
                                   "{" + sp + "'descr': '|u1', 'fortran_order': False, 'shape': (1,), }", "{'descr': '|u1', 'fortran_order': False, 'shape': (" + nine + "), }",
                                   "{'descr': '|u1', 'fortran_order': False, 'shape': (" + sp + "1), }", "{'descr': '|u1', 'fortran_order': False, 'shape': (1" + x, "{'descr': '|u1', 'fortran_order': False, 'shape': (1,), }" + sp})
        feed_npy(raw(d, 2) + body, sel++);
    }
  // unicode data of all kinds
  for (int i = 0; i < 400; ++i) {
    std::string b = header(i % 2 ? "<U4" : ">U4", false, {3});
    for (int j = 0; j < 48 - (i % 5 == 0); ++j)
      b += (char)(r.below(3) ? 0 : r.next());
    feed_npy(b, 7);
  }
  // archives
  std::vector<std::string> seeds;
  for (int m : {0, 8}) {
    npzstringwriter w(m ? compression_method_t::DEFLATED : compression_method_t::STORED);
    tensor<uint8_t> a(Shape{40});
    tensor<std::wstring> u(Shape{2});
    u.data()[0] = L"abc";
    tensor<float> f(Shape{2, 3}, true);
    w.write("a", a);
    w.write("u.npy", u);
    w.write("f", f);
    w.close();
    seeds.push_back(w.str());
    Build z;
    std::string d = header("|u1", false, {20}) + std::string(20, '\7');
    z.add("a.npy", d, m);
    auto &e = z.add("b.npy", d, m);
    std::string x = put(e.cd.usize, 8) + put(e.cd.csize, 8);
    e.cd.usize = e.cd.csize = 0xFFFFFFFF;
    e.cdx = put(1, 2) + put(x.size(), 2) + x;
    e.localx = put(1, 2) + put(9, 2) + std::string(9, '\1');
    seeds.push_back(z.bytes());
    Build y;
    y.add("e.npy", "", m);
    seeds.push_back(y.bytes());
    Build big; // sizes and offsets that lead nowhere
    for (uint64_t v : {uint64_t(0xFFFFFFFE), uint64_t(1) << 31, uint64_t(1) << 15}) {
      auto &g = big.add("g" + std::to_string(v) + ".npy", d, m);
      g.cd.csize = g.local.csize = v;
    }
    for (uint64_t v : {~uint64_t(0), uint64_t(1) << 63, uint64_t(1) << 62, uint64_t(1) << 40, uint64_t(0xFFFFFFFF)}) {
      auto &g = big.add("h" + std::to_string(v) + ".npy", d, m);
      g.cd.csize = g.cd.usize = g.local.csize = g.local.usize = 0xFFFFFFFF;
      std::string s = put(v, 8) + put(v, 8);
      g.cdx = g.localx = put(1, 2) + put(s.size(), 2) + s;
      auto &o = big.add("o" + std::to_string(v) + ".npy", d, m);
      o.cd.offset = 0xFFFFFFFF;
      o.cdx = put(1, 2) + put(8, 2) + put(v, 8);
    }
    seeds.push_back(big.bytes());
  }
  for (size_t p2 = 128; p2 <= 65536; p2 *= 2)
    for (int dl = -2; dl <= 1; ++dl) { // names, extra fields and comments of every length
      size_t k = std::min<size_t>(p2 + dl, 65535);
      std::string d = header("|u1", false, {4}) + std::string(4, '\7'), x(k, 'n');
      for (int which = 0; which < 5; ++which) {
        Build z;
        auto &e = z.add(which == 0 ? x : "a.npy", d, 0);
        if (which == 1)
          e.cdx = put(7, 2) + put(k > 4 ? k - 4 : 0, 2) + std::string(k > 4 ? k - 4 : 0, 'x');
        if (which == 2)
          e.localx = put(7, 2) + put(k > 4 ? k - 4 : 0, 2) + std::string(k > 4 ? k - 4 : 0, 'x');
        if (which == 3)
          z.comment = x;
        if (which == 4)
          e.note = x;
        feed_npz(z.bytes());
      }
    }
  std::vector<std::string> zw = {"PK\1\2", "PK\3\4", "PK\5\6", std::string("\xFF\xFF", 2), std::string("\xFF\xFF\xFF\xFF", 4), std::string("\0\0", 2), std::string("\1\0", 2), std::string("\x08\0", 2), std::string("\x10\0", 2), std::string("\x93NUMPY\1\0", 8), std::string(22, '\0')};
  for (auto &s : seeds) {
    feed_npz(s);
    for (size_t cut = 0; cut < s.size(); cut += DEEP ? 1 : 3 + s.size() / 150)
      feed_npz(s.substr(0, cut));
    for (size_t i = 0; i < s.size(); i += DEEP ? 1 : 2 + s.size() / 400) {
      std::string t = s;
      t[i] ^= 0xFF;
      feed_npz(t);
    }
  }
  n = DEEP ? 60000 : 2000;
  for (long i = 0; i < n; ++i) {
    std::string s = mutate(seeds[r.below(seeds.size())], r, zw);
    feed_npz(s);
  }
  // compressed data that is damaged, with the directory still in agreement
  for (long i = 0; i < (DEEP ? 40000 : 1500); ++i) {
    std::string d = header("|u1", false, {60}), c;
    for (int j = 0; j < 60; ++j)
      d += (char)(r.below(3) ? 7 : r.next());
    Build z;
    auto &e = z.add("v.npy", d, 8);
    if (i % 3) {
      c.resize(1 + r.below(60));
      for (char &x : c)
        x = (char)r.next();
      c[0] = (char)((c[0] & ~7) | (i % 2 ? 5 : 3));
      e.local.data = c;
    } else
      e.local.data[r.below(e.local.data.size())] ^= 1 << r.below(8);
    e.cd.csize = e.local.csize = e.local.data.size();
    feed_npz(z.bytes());
  }
  // streams of every block type, whole, cut, and with bits inverted
  for (long i = 0; i < (DEEP ? 40000 : 1500); ++i) {
    RandomDeflate g(r);
    if (i % 7 == 0) {
      g.more_l = r.below(3);
      g.more_d = r.below(3);
    }
    std::string c = g.stream(1 + r.below(3), i % 10 ? 40 : 2000);
    if (i % 4 == 0)
      c.resize(r.below(c.size() + 1));
    for (size_t k = i % 4; k-- > 1 && !c.empty();)
      c[r.below(r.below(3) ? std::min<size_t>(c.size(), 60) : c.size())] ^= 1 << r.below(8);
    Build z;
    auto &e = z.add("v.npy", header("|u1", false, {60}), 8);
    e.local.data = c;
    e.cd.csize = e.local.csize = c.size();
    feed_npz(z.bytes());
  }
  // accessors with arbitrary arguments
  for (int i = 0; i < (DEEP ? 200000 : 20000); ++i) {
    Shape s(r.below(5));
    for (auto &x : s)
      x = r.below(4);
    tensor<int16_t> t(s, r.below(2));
    for (size_t j = 0; j < t.size(); ++j)
      t.data()[j] = (int16_t)(j + 1);
    std::vector<int32_t> idx(r.below(10) ? s.size() : r.below(7));
    std::vector<size_t> uidx(idx.size());
    for (size_t j = 0; j < idx.size(); ++j) {
      static const int32_t odd[] = {INT32_MAX, INT32_MIN, -1000, 1000, INT32_MIN + 1};
      idx[j] = r.below(12) ? (int32_t)r.below(7) - 3 : odd[r.below(5)];
      uidx[j] = r.below(12) ? r.below(5) : r.below(2) ? SIZE_MAX - r.below(3) : (size_t(1) << (r.below(2) ? 32 : 8 + r.below(56))) + r.below(4) - r.below(2);
    }
    LASTIN = "accessor on shape " + show(s);
    ++CASES;
    see(run([&] { return std::to_string(t(idx)); }));
    see(run([&] { return std::to_string(t.get(idx)); }));
    see(run([&] { return std::to_string(t.ravel(idx)); }));
    see(run([&] { return std::to_string(t.ravel(uidx)); }));
    const tensor<int16_t> &ct = t;
    see(run([&] { return std::to_string(t(uidx)); }));
    see(run([&] { return std::to_string(ct(uidx)); }));
    see(run([&] { return std::to_string(ct(idx)); }));
    see(run([&] { t(uidx) = 6; return content(t); }));
    see(run([&] { t(idx) = 7; return content(t); }));
    see(run([&] { t.set(idx, 5); return content(t); }));
    if (idx.size() > 1) {
      see(run([&] { return std::to_string(t(idx[0], idx[1])); }));
    }
    int dim = r.below(12) ? (int)r.below(8) - 2 : (int)(r.below(2) ? INT32_MAX : INT32_MIN) ;
    bool refused = false;
    see(run([&] {
      try {
        return std::to_string(t.shape(dim));
      } catch (std::exception &) {
        refused = true;
        throw;
      }
    }));
    CHECK(refused == (dim < 0 || (size_t)dim >= s.size()), "shape(" + std::to_string(dim) + ") of " + show(s) + (refused ? " refused" : " accepted"));
    size_t k = r.below(2) ? t.size() : r.below(100);
    std::vector<int16_t> src(k, 9);
    see(run([&] { t.copy_from(src); return content(t); }));
    see(run([&] { t.copy_from(src.data(), k); return content(t); }));
    see(run([&] { t.move_from(std::move(src)); return content(t); }));
    tensor<int16_t> v(std::move(t)), w(v);
    see(content(w));
    t = w;
    see(content(t));
  }
  if (TRACE)
    fclose(TRACE);
  fprintf(OUT, "DIGEST %016llx\n", (unsigned long long)DIGEST);
}

// ------------------------------------------------------------------ C19
// one job works on its own objects and says everything it saw
static std::string job(uint64_t seed, const std::string &shared, const std::string &shared_npz, const std::string &path) {
  Rng r(seed * 977 + 5);
  std::string t;
  auto note = [&](const std::string &s) { t += s + ";"; };
  for (int i = 0; i < 6; ++i) {
    endian_t e = r.below(2) ? endian_t::BIG : endian_t::LITTLE;
    switch (r.below(8)) {
    case 0: {
      tensor<double> a(Shape{r.below(5), 3}, r.below(2));
      fill(a.data(), a.size(), r);
      std::ostringstream o;
      npy::save(o, a, e);
      std::istringstream in(o.str());
      note(content(npy::load<tensor<double>>(in)));
      break;
    }
    case 1: {
      tensor<std::wstring> a(Shape{1 + r.below(4)});
      fill(a.data(), a.size(), r);
      std::ostringstream o;
      npy::save(o, a, e);
      note(o.str());
      std::istringstream in(o.str());
      note(content(npy::load<tensor<std::wstring>>(in)));
      break;
    }
    case 2: {
      std::istringstream in(shared);
      note(content(npy::peek(in)));
      std::istringstream bad(shared.substr(0, 40 + r.below(30)));
      note(outcome([&] { npy::peek(bad); }));
      break;
    }
    case 3: {
      npzstringwriter w(r.below(2) ? compression_method_t::DEFLATED : compression_method_t::STORED, e);
      for (int k = 0; k < 3; ++k) {
        tensor<int32_t> a(Shape{1 + r.below(300)});
        for (size_t j = 0; j < a.size(); ++j)
          a.data()[j] = (int32_t)(j / 5 * seed);
        w.write("n" + std::to_string(k), a);
      }
      w.close();
      npzstringreader rd(w.str());
      for (auto &k : rd.keys())
        note(k + content(rd.read<tensor<int32_t>>(k)));
      break;
    }
    case 4: {
      npzstringreader rd(shared_npz);
      note(content(rd.peek("a")));
      note(outcome([&] { rd.read<tensor<double>>("a"); }));
      note(content(rd.read<tensor<uint8_t>>("a")));
      break;
    }
    case 5: {
      tensor<uint16_t> a(Shape{2, 3, 4}, r.below(2)), b(a);
      b(1, 2, -1) = (uint16_t)seed;
      note(content(a) + content(b) + a.dtype(e) + npy::to_dtype(data_type_t::COMPLEX128, e));
      tensor<uint16_t> c(std::move(b));
      note(content(c));
      note(outcome([&] { c(5, 0, 0) = 1; }));
      break;
    }
    case 6: {
      tensor<c64> a(Shape{r.below(6)});
      fill(a.data(), a.size(), r);
      npy::save(path, a, e);
      note(content(npy::peek(path)));
      note(content(npy::load<tensor<c64>>(path)));
      break;
    }
    default: {
      std::ostringstream o;
      o << e << data_type_t::UINT32;
      note(o.str());
      for (const char *d : {"<f8", ">i4", "|b1", "<U7", "<q9", "", "|u1"})
        note(outcome([&] {
          auto x = npy::from_dtype(d);
          note(std::to_string((int)x.first) + std::to_string((int)x.second));
        }));
      note(content(header_info(dict("<f4", r.below(2), {r.below(9), 2, r.below(99999)}))));
    }
    }
  }
  return t;
}

// what the program has set for the whole process stays as it is
struct Grouping : std::numpunct<char> {
  std::string do_grouping() const override { return "\3"; }
};

static std::string process_state(bool next_random) {
  std::ostringstream o;
  o.imbue(std::locale::classic());
  char cwd[4096];
  mode_t m = umask(022);
  umask(m);
  o << setlocale(LC_ALL, nullptr) << ' ' << (getcwd(cwd, sizeof cwd) ? cwd : "") << ' ' << m << ' ' << fegetround();
  for (std::ios *s : {(std::ios *)&std::cout, (std::ios *)&std::cerr, (std::ios *)&std::clog, (std::ios *)&std::cin})
    o << ' ' << s->flags() << ' ' << s->precision() << ' ' << s->width() << ' ' << int(s->fill()) << ' ' << s->exceptions() << ' ' << s->rdbuf();
  for (int n : {SIGINT, SIGPIPE, SIGSEGV, SIGFPE, SIGALRM}) {
    struct sigaction sa;
    sigaction(n, nullptr, &sa);
    o << ' ' << (void *)sa.sa_handler;
  }
  o << ' ' << (void *)std::get_terminate() << ' ' << (void *)std::get_new_handler();
  if (next_random)
    o << ' ' << rand() << ' ' << random() << ' ' << lrand48();
  return o.str();
}

static void c19_process(const std::string &shared, const std::string &npz) {
  std::locale before = std::locale();
  std::locale mine(std::locale::classic(), new Grouping);
  for (int with = 0; with < 2; ++with) {
    if (with) {
      std::locale::global(mine);
      setlocale(LC_ALL, "C.UTF-8");
    }
    for (int i = 0; i < 60; ++i) {
      std::string bad = npz;
      bad[(i * 7919) % bad.size()] ^= 1 << (i % 8);
      auto seeded = [&] { srand(i), srandom(i), srand48(i); };
      std::string ctx = "job " + std::to_string(i) + (with ? " in a program whose locale groups digits" : "");
      seeded();
      std::string want = process_state(true);
      seeded();
      (void)job(SEED * 1000 + i, shared, npz, scratch("c19-y.npy"));
      (void)outcome([&] {
        npzstringreader rd(bad);
        for (auto &k : rd.keys())
          (void)outcome([&] { rd.peek(k); });
      });
      CHECK(process_state(true) == want, ctx + ": changes state of the process");
      CHECK(std::locale() == (with ? mine : before), ctx + ": changes the locale of the process");
    }
  }
  std::locale::global(before);
  setlocale(LC_ALL, "C");
}

static void c19() {
  tensor<uint8_t> a(Shape{64, 3});
  Rng r0(4);
  fill(a.data(), a.size(), r0);
  std::ostringstream o;
  npy::save(o, a);
  npzstringwriter w(compression_method_t::DEFLATED);
  w.write("a", a);
  w.write("b", tensor<double>(Shape{9}));
  w.close();
  std::string shared = o.str(), npz = w.str();
  int jobs = DEEP ? 4000 : 240, nt = 6;
  std::vector<std::string> alone(jobs), again(jobs);
  // the first use of everything happens in parallel, too: compare against runs after it
  auto pass = [&](std::vector<std::string> &out) {
    std::atomic<int> next{0};
    std::vector<std::thread> ts;
    for (int k = 0; k < nt; ++k)
      ts.emplace_back([&] {
        for (int i; (i = next++) < jobs;)
          out[i] = job(SEED * 1000 + i, shared, npz, scratch("c19-" + std::to_string(i) + ".npy"));
      });
    for (auto &t : ts)
      t.join();
  };
  pass(again);
  for (int i = 0; i < jobs; ++i)
    alone[i] = job(SEED * 1000 + i, shared, npz, scratch("c19-" + std::to_string(i) + ".npy"));
  for (int i = 0; i < jobs; ++i)
    CHECK(again[i] == alone[i], "job " + std::to_string(i) + " run among " + std::to_string(nt) + " threads gives other results than alone");
  // in one thread: operations on one object between two operations on another
  for (int i = 0; i < jobs; ++i) {
    npzstringreader rd(npz);
    std::istringstream in(shared);
    std::string x = content(rd.read<tensor<uint8_t>>("a"));
    npzstringwriter ww;
    ww.write("p", a);
    std::string before = ww.str();
    tensor<uint8_t> keep(a);
    (void)job(SEED * 1000 + i, shared, npz, scratch("c19-x.npy"));
    CHECK(content(rd.read<tensor<uint8_t>>("a")) == x, "reader disturbed by job " + std::to_string(i));
    CHECK(ww.str() == before, "writer disturbed by job " + std::to_string(i));
    CHECK(content(keep) == content(a), "tensor disturbed by job " + std::to_string(i));
    CHECK(content(npy::load<tensor<uint8_t>>(in)) == content(a), "stream disturbed by job " + std::to_string(i));
    CHECK(job(SEED * 1000 + i, shared, npz, scratch("c19-x.npy")) == alone[i], "job " + std::to_string(i) + " repeated gives other results");
    if (i > 60 && !DEEP)
      break;
  }
  c19_process(shared, npz);
}

// ------------------------------------------------------------------ C23
template <class T> static void files_of(Rng &r, const std::string &dir) {
  for (Shape s : {Shape{}, Shape{0}, Shape{7}, Shape{2, 3}, Shape{3, 0}, Shape{1000}})
    for (bool f : {false, true})
      for (endian_t e : {endian_t::LITTLE, endian_t::BIG, endian_t::NATIVE}) {
        tensor<T> t(s, f);
        fill(t.data(), t.size(), r);
        std::ostringstream o;
        npy::save(o, t, e);
        std::string p = dir + "/f.npy", ctx = "shape " + show(s);
        spit(p, "older and longer content " + std::string(9000, 'x'));
        npy::save(p, t, e);
        CHECK(slurp(p) == o.str(), ctx + ": save to a path writes other bytes than save to a stream");
        CHECK(equal_tensors(npy::load<tensor<T>>(p), t), ctx + ": load of a path");
        std::istringstream in(o.str());
        CHECK(content(npy::peek(p)) == content(npy::peek(in)), ctx + ": peek of a path");
        tensor<T> ff = tensor<T>::from_file(p);
        CHECK(equal_tensors(ff, t), ctx + ": from_file");
        unlink(p.c_str());
        t.save(p, e);
        CHECK(slurp(p) == o.str(), ctx + ": tensor::save");
        unlink(p.c_str());
      }
}

static void c23() {
  Rng r(SEED * 7);
  std::string dir = scratch("c23");
  mkdir(dir.c_str(), 0755);
  files_of<uint8_t>(r, dir);
  files_of<int16_t>(r, dir);
  files_of<c128>(r, dir);
  files_of<double>(r, dir);
  files_of<boolean>(r, dir);
  {
    for (Shape s : {Shape{}, Shape{5}, Shape{2, 2}}) {
      tensor<std::wstring> t(s);
      fill(t.data(), t.size(), r);
      std::ostringstream o;
      npy::save(o, t, endian_t::BIG);
      std::string p = dir + "/u.npy";
      npy::save(p, t, endian_t::BIG);
      CHECK(slurp(p) == o.str(), "unicode: save to a path");
      CHECK(equal_tensors(npy::load<tensor<std::wstring>>(p), t), "unicode: load of a path");
      unlink(p.c_str());
    }
  }
  tensor<int32_t> t(Shape{4});
  std::vector<std::string> nowhere = {dir + "/missing/x.npy", dir + "/missing.npy/", "", dir + "/a" + std::string(300, 'n') + ".npy", dir + "/f.npy/under"};
  spit(dir + "/f.npy", "file");
  for (const std::string &p : nowhere) {
    CHECK(outcome([&] { npy::save(p, t); }) == "invalid_argument", "save to '" + p + "'");
    CHECK(outcome([&] { npy::load<tensor<int32_t>>(p); }) == "invalid_argument", "load from '" + p + "'");
    CHECK(outcome([&] { npy::peek(p); }) == "invalid_argument", "peek at '" + p + "'");
    CHECK(outcome([&] { npzfilereader x(p); }) == "invalid_argument", "npzfilereader on '" + p + "'");
    CHECK(outcome([&] { npzfilereader x(p.c_str()); }) == "invalid_argument", "npzfilereader on '" + p + "' as char*");
    CHECK(outcome([&] { npzfilereader x{std::filesystem::path(p)}; }) == "invalid_argument", "npzfilereader on '" + p + "' as path");
  }
  std::string gone = dir + "/gone.npy";
  CHECK(outcome([&] { npy::load<tensor<int32_t>>(gone); }) == "invalid_argument", "load of a missing file");
  CHECK(outcome([&] { npy::peek(gone); }) == "invalid_argument", "peek of a missing file");
  CHECK(outcome([&] { npy::save(dir, t); }) == "invalid_argument", "save to a directory");
  // a device that takes no data
  for (size_t n : {size_t(0), size_t(1), size_t(1000), size_t(100000)}) {
    tensor<double> big(Shape{n});
    CHECK(outcome([&] { npy::save(std::string("/dev/full"), big); }) == "runtime_error", std::to_string(n) + " doubles saved to /dev/full");
    CHECK(outcome([&] { big.save("/dev/full"); }) == "runtime_error", std::to_string(n) + " doubles: tensor::save to /dev/full");
    tensor<std::wstring> u(Shape{n / 10 + 1});
    u.data()[0] = L"xyz";
    CHECK(outcome([&] { npy::save(std::string("/dev/full"), u); }) == "runtime_error", std::to_string(n) + " strings saved to /dev/full");
  }
  // a file that may not grow beyond a limit: some of the data is written, the rest is not
  signal(SIGXFSZ, SIG_IGN);
  for (size_t lim : {size_t(0), size_t(1), size_t(100), size_t(128), size_t(8191), size_t(8192), size_t(8193), size_t(20000), size_t(80127)}) {
    struct rlimit old;
    getrlimit(RLIMIT_FSIZE, &old);
    struct rlimit l = {lim, old.rlim_max};
    tensor<double> big(Shape{10000});
    std::string p = dir + "/limited.npy";
    setrlimit(RLIMIT_FSIZE, &l);
    std::string oc = outcome([&] { npy::save(p, big); });
    setrlimit(RLIMIT_FSIZE, &old);
    CHECK(oc == "runtime_error", "80128 bytes saved to a file limited to " + std::to_string(lim) + ": outcome '" + oc + "'");
    unlink(p.c_str());
  }
  {
    struct rlimit old;
    getrlimit(RLIMIT_FSIZE, &old);
    struct rlimit l = {80128, old.rlim_max};
    tensor<double> big(Shape{10000});
    std::string p = dir + "/limited.npy";
    setrlimit(RLIMIT_FSIZE, &l);
    std::string oc = outcome([&] { npy::save(p, big); });
    setrlimit(RLIMIT_FSIZE, &old);
    CHECK(oc.empty(), "80128 bytes saved to a file limited to 80128: outcome '" + oc + "'");
    unlink(p.c_str());
  }
  // truncated and damaged files behave as the same bytes in a stream
  std::ostringstream o;
  npy::save(o, t, endian_t::LITTLE);
  for (size_t cut = 0; cut <= o.str().size(); ++cut) {
    std::string b = o.str().substr(0, cut), p = dir + "/cut.npy";
    spit(p, b);
    std::istringstream a(b), c(b);
    std::string l1 = outcome([&] { npy::load<tensor<int32_t>>(a); }), l2 = outcome([&] { npy::load<tensor<int32_t>>(p); });
    CHECK(l1 == l2, "file cut to " + std::to_string(cut) + " bytes: load gives '" + l2 + "', from a stream '" + l1 + "'");
    std::string p1 = outcome([&] { npy::peek(c); }), p2 = outcome([&] { npy::peek(p); });
    CHECK(p1 == p2, "file cut to " + std::to_string(cut) + " bytes: peek gives '" + p2 + "', from a stream '" + p1 + "'");
    unlink(p.c_str());
  }
  // archives
  for (auto m : {compression_method_t::STORED, compression_method_t::DEFLATED})
    for (endian_t e : {endian_t::LITTLE, endian_t::BIG})
      for (int how = 0; how < 3; ++how) {
        std::string p = dir + "/a.npz";
        npzstringwriter s(m, e);
        tensor<float> x(Shape{30, 2});
        fill(x.data(), x.size(), r);
        auto put_all = [&](auto &w) {
          w.write("x", x);
          w.write("t.npy", t);
          w.close();
        };
        put_all(s);
        if (how == 0) {
          npzfilewriter w(p, m, e);
          CHECK(w.is_open(), "writer open");
          put_all(w);
        } else if (how == 1) {
          npzfilewriter w(p.c_str(), m, e);
          put_all(w);
        } else {
          npzfilewriter w(std::filesystem::path(p), m, e);
          put_all(w);
        }
        CHECK(slurp(p) == s.str(), "npzfilewriter and npzstringwriter write different bytes");
        npzfilereader a(p), b(p.c_str()), c{std::filesystem::path(p)};
        npzstringreader d(s.str());
        CHECK(a.is_open() && b.is_open() && c.is_open(), "readers open");
        CHECK(a.keys() == d.keys() && b.keys() == d.keys() && c.keys() == d.keys(), "keys of the file readers");
        for (const char *n : {"x", "x.npy"})
          CHECK(equal_tensors(a.read<tensor<float>>(n), x) && equal_tensors(b.read<tensor<float>>(n), x) && equal_tensors(c.read<tensor<float>>(n), x), "file readers read");
        CHECK(content(a.peek("t")) == content(d.peek("t")), "file reader peeks");
        unlink(p.c_str());
      }
}

static void run_property() {
  if (PROP == "C18")
    c18();
  else if (PROP == "C19")
    c19();
  else if (PROP == "C23")
    c23();
}
