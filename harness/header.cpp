// C02 written headers, C03 header round trip, C05 malformed input, C06 dtype codes, C20 peek
#include "common.h"

static const char *CODES[] = {"|i1", "|u1", "<i2", ">i2", "<u2", ">u2", "<i4", ">i4", "<u4", ">u4", "<i8", ">i8",
                              "<u8", ">u8", "<f4", ">f4", "<f8", ">f8", "<c8", ">c8", "<c16", ">c16", "|b1"};
static const data_type_t DTS[] = {data_type_t::INT8, data_type_t::UINT8, data_type_t::INT16, data_type_t::INT16, data_type_t::UINT16,
  data_type_t::UINT16, data_type_t::INT32, data_type_t::INT32, data_type_t::UINT32, data_type_t::UINT32, data_type_t::INT64,
  data_type_t::INT64, data_type_t::UINT64, data_type_t::UINT64, data_type_t::FLOAT32, data_type_t::FLOAT32, data_type_t::FLOAT64,
  data_type_t::FLOAT64, data_type_t::COMPLEX64, data_type_t::COMPLEX64, data_type_t::COMPLEX128, data_type_t::COMPLEX128, data_type_t::BOOL};
static endian_t end_of(const std::string &c) {
  return c[0] == '|' ? endian_t::NATIVE : c[0] == '>' ? endian_t::BIG : endian_t::LITTLE;
}

static std::vector<Shape> shapes(Rng &r) {
  std::vector<Shape> v = {{}, {0}, {1}, {9}, {10}, {11}, {99}, {100}, {999999}, {1, 2}, {0, 0}, {10, 20, 30}, {3, 1, 4, 1, 5, 9}};
  for (int d = 1; d <= 19; ++d) {
    size_t p = 1;
    for (int i = 0; i < d; ++i)
      p *= 10;
    v.push_back({p});
    v.push_back({p - 1});
    v.push_back({0, p});
    v.push_back({p - 1, 2});
  }
  v.push_back({SIZE_MAX});
  v.push_back({SIZE_MAX, 0});
  v.push_back({0, SIZE_MAX});
  v.push_back({size_t(1) << 31});
  v.push_back({size_t(1) << 32});
  v.push_back({(size_t(1) << 32) + 1, 7});
  v.push_back({size_t(1) << 63});
  // dictionary lengths through every residue modulo 64, several times over
  for (int k = 1; k <= 140; ++k) {
    v.push_back(Shape(k, 1 + k % 7));
    Shape s(k / 2 + 1, 1);
    size_t p = 1;
    for (int i = 0; i < k % 19; ++i)
      p *= 10;
    s[k / 4] = p;
    v.push_back(s);
  }
  for (int k : {255, 256, 257, 500, 1000, 3000, 10000})
    v.push_back(Shape(k, 1));
  for (int i = 0; i < (DEEP ? 3000 : 300); ++i) {
    Shape s(r.below(20));
    for (size_t &d : s)
      d = r.next() >> r.below(64);
    v.push_back(s);
  }
  return v;
}

// shapes whose dictionary length is near the 16-bit limit
static std::vector<Shape> limit_shapes() {
  std::vector<Shape> v;
  for (int ranks : {21800, 21820, 21825, 21826, 21827, 21828, 21829, 21830, 21831, 21832, 21835, 21840, 21845, 21850, 22000, 30000, 70000})
    for (size_t first : {1, 10, 100, 1000}) {
      Shape s(ranks, 1);
      s[0] = first;
      v.push_back(s);
    }
  return v;
}

static void c02_one(const std::string &c, bool f, const Shape &s) {
  std::string ctx = "header of " + c + (f ? " F " : " C ") + (s.size() > 8 ? "rank " + std::to_string(s.size()) : show(s));
  std::string want = header(c, f, s);
  size_t dl = want.size() - 10;
  std::ostringstream o;
  o << "ab";
  std::string oc = outcome([&] { npy::write_npy_header(o, c, f, s); });
  if (dl > 0xFFFF) {
    CHECK(throws_std(oc), ctx + ": dictionary of " + std::to_string(dl) + " bytes is not refused");
    CHECK(o.str() == "ab", ctx + ": something was written before the refusal");
    return;
  }
  CHECK(oc == "", ctx + ": throws " + oc);
  std::string got = o.str().substr(2);
  CHECK(got == want, ctx + ": written " + hex(got, 400) + " expected " + hex(want, 400));
  CHECK(got.size() % 64 == 0, ctx + ": total length");
}

// a program may have set a global locale that groups digits
struct Grouping : std::numpunct<char> {
  char do_thousands_sep() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
};

struct InLocale {
  std::locale before;
  InLocale() : before(std::locale::global(std::locale(std::locale::classic(), new Grouping))) {}
  ~InLocale() { std::locale::global(before); }
};

static void c02() {
  for (Shape s : {Shape{1000}, Shape{1234567, 0, 3}, Shape{1000, 2000}})
    for (int f = 0; f < 2; ++f) {
      std::string want = header("<f4", f, s), ctx = "header of " + show(s) + " in a program whose locale groups digits";
      InLocale l;
      std::ostringstream o;
      npy::write_npy_header(o, std::string("<f4"), f, s);
      CHECK(o.str() == want, ctx);
    }
  Rng r(SEED * 7);
  auto v = shapes(r);
  for (size_t i = 0; i < v.size(); ++i)
    for (int f = 0; f < 2; ++f)
      for (const char *c : {CODES[i % 23], CODES[(i * 5 + 3) % 23], i % 2 ? "<U12" : ">U0", i % 3 ? "<U123456" : "<U1"})
        c02_one(c, f, v[i]);
  for (auto &s : limit_shapes()) {
    c02_one("<i4", false, s);
    c02_one("<c16", true, s);
    c02_one("|b1", false, s);
  }
  for (const char *c : CODES)
    for (int f = 0; f < 2; ++f)
      c02_one(c, f, {2, 3});
  // through save
  for (size_t n : {0, 1, 5, 1000})
    for (int f = 0; f < 2; ++f) {
      tensor<int16_t> t(Shape{n, 2}, f);
      std::ostringstream o;
      npy::save(o, t, endian_t::BIG);
      std::string h = header(">i2", f, {n, 2});
      CHECK(o.str().substr(0, h.size()) == h && o.str().size() == h.size() + n * 4, "header written by save");
    }
  {
    tensor<uint8_t> t(Shape(30000, 1));
    std::ostringstream o;
    CHECK(throws_std(outcome([&] { npy::save(o, t); })), "save of a tensor whose header is too long is refused");
    CHECK(o.str().empty(), "save of a tensor whose header is too long writes nothing");
  }
}

static void same_info(const header_info &h, const std::string &c, bool f, const Shape &s, const std::string &ctx) {
  bool u = c.size() > 1 && c[1] == 'U';
  data_type_t dt = data_type_t::UNICODE_STRING;
  for (int i = 0; i < 23; ++i)
    if (c == CODES[i])
      dt = DTS[i];
  CHECK(h.dtype == dt, ctx + ": element type read back");
  CHECK(h.endianness == end_of(c), ctx + ": byte order read back");
  CHECK(h.fortran_order == f, ctx + ": order flag read back");
  CHECK(h.shape == s, ctx + ": shape read back " + (h.shape.size() < 20 ? show(h.shape) : std::to_string(h.shape.size())));
  CHECK(h.max_element_length == (u ? (size_t)strtoull(c.c_str() + 2, 0, 10) : 0), ctx + ": unicode length read back");
}

static void c03() {
  for (Shape s : {Shape{1000}, Shape{1234567, 0, 3}, Shape{1000, 2000}, Shape{2, 3}, Shape{}}) {
    std::string b = header("<f4", true, s), ctx = "header of " + show(s) + " in a program whose locale groups digits";
    InLocale l;
    std::istringstream in(b + "D");
    header_info h = npy::read_npy_header(in);
    CHECK(h.shape == s, ctx + ": shape read back");
    CHECK(in.get() == 'D', ctx + ": position");
  }
  Rng r(SEED * 11);
  auto v = shapes(r);
  for (size_t i = 0; i < v.size(); ++i) {
    const Shape &s = v[i];
    for (int f = 0; f < 2; ++f)
      for (std::string c : {std::string(CODES[i % 23]), std::string(CODES[(i * 7 + 11) % 23]), std::string(i % 2 ? "<U" : ">U") + std::to_string(i % 5 ? r.below(100000) : r.below(12))}) {
        std::string ctx = "header of " + c + (f ? " F " : " C ") + (s.size() > 8 ? "rank " + std::to_string(s.size()) : show(s));
        std::ostringstream o;
        npy::write_npy_header(o, c, f, s);
        std::string b = o.str();
        for (int peek = 0; peek < 2; ++peek) {
          std::istringstream in("q" + b + "DATA");
          in.get();
          header_info h = peek ? npy::peek(in) : npy::read_npy_header(in);
          same_info(h, c, f, s, ctx);
          CHECK(in.tellg() == (std::streamoff)(1 + b.size()), ctx + ": position after the header");
          CHECK(in.get() == 'D', ctx + ": first byte of the data");
        }
        std::istringstream end(b);
        same_info(npy::read_npy_header(end), c, f, s, ctx + " at the end of the stream");
        // version 2.0 around the same dictionary
        std::string d = b.substr(10);
        std::istringstream in2(raw_header(d, 2) + "DATA");
        same_info(npy::read_npy_header(in2), c, f, s, ctx + " as version 2.0");
        CHECK(in2.tellg() == (std::streamoff)(12 + d.size()), ctx + ": position after the version 2.0 header");
      }
  }
  // version 2.0 with long dictionaries: lengths above 16 and above 24 bits
  for (size_t n : {65536, 65537, 70000, 200000, 16777216 + 5}) {
    std::string d = dict(">i2", true, {4, 5});
    d += std::string(n - d.size() - 1, ' ') + "\n";
    std::istringstream in(raw_header(d, 2) + "X");
    same_info(npy::read_npy_header(in), ">i2", true, {4, 5}, "version 2.0 dictionary of " + std::to_string(n) + " bytes");
    CHECK(in.get() == 'X', "position after a version 2.0 dictionary of " + std::to_string(n) + " bytes");
  }
  // every written length near the limit
  for (auto &s : limit_shapes()) {
    std::ostringstream o;
    if (outcome([&] { npy::write_npy_header(o, "<f8", true, s); }) != "")
      continue;
    std::istringstream in(o.str() + "D");
    same_info(npy::read_npy_header(in), "<f8", true, s, "rank " + std::to_string(s.size()));
    CHECK(in.get() == 'D', "position after a long header");
  }
}

// ------------------------------------------------------------------ C05
// attempts everything that reads a stream; all of it has to throw
static void rejects(const std::string &b, const std::string &why) {
  std::string ctx = why + ": " + hex(b, 220);
  for (int k = 0; k < 3; ++k) {
    std::istringstream in(b);
    std::string oc = outcome([&] {
      if (k == 0)
        npy::read_npy_header(in);
      else if (k == 1)
        npy::peek(in);
      else
        npy::load<tensor<int32_t>>(in);
    });
    CHECK(throws_std(oc), ctx + (k == 2 ? " (load)" : " (peek)") + " outcome '" + oc + "'");
  }
  std::string p = scratch("bad.npy");
  spit(p, b);
  CHECK(throws_std(outcome([&] { npy::peek(p); })), ctx + " (peek of a file)");
  CHECK(throws_std(outcome([&] { npy::load<tensor<int32_t>>(p); })), ctx + " (load of a file)");
  unlink(p.c_str());
}
static void rejects_dict(const std::string &d, const std::string &why) {
  std::string x = d;
  while ((x.size() + 11) % 64)
    x += ' ';
  x += '\n';
  rejects(raw_header(x) + std::string(64, '\1'), why + " " + d);
  rejects(raw_header(x, 2) + std::string(64, '\1'), why + " (2.0) " + d);
}
template <class T> static void load_rejects(const std::string &b, const std::string &why) {
  std::istringstream in(b);
  std::string oc = outcome([&] { npy::load<tensor<T>>(in); });
  CHECK(throws_std(oc), why + " loaded as " + typeid(T).name() + ": outcome '" + oc + "' input " + hex(b, 200));
}

template <class T> static void c05_trunc() {
  std::string c = Ty<T>::code;
  for (int e = 0; e < 2; ++e) {
    std::string cd = code<T>(e ? endian_t::BIG : endian_t::LITTLE);
    for (size_t n : {1, 2, 3, 7, 64, 100, 1025}) {
      std::string full = header(cd, false, {n}) + std::string(n * sizeof(T), '\1');
      size_t step = n > 10 ? 37 : 1;
      for (size_t cut = 1; cut <= n * sizeof(T); cut += (cut < 20 ? 1 : step))
        load_rejects<T>(full.substr(0, full.size() - cut), "data cut by " + std::to_string(cut) + " bytes");
      load_rejects<T>(header(cd, true, {n, 3}) + std::string(n * sizeof(T) * 3 - 1, '\1'), "Fortran data cut");
    }
  }
  // the wrong type
  std::string own = code<T>(endian_t::NATIVE);
  for (const char *x : CODES) {
    if (std::string(x) == own || std::string(x).substr(1) == own.substr(1))
      continue;
    load_rejects<T>(header(x, false, {2}) + std::string(64, '\1'), std::string("element type ") + x);
    load_rejects<T>(header(x, false, {0}), std::string("element type of an empty tensor ") + x);
  }
  load_rejects<T>(header("<U2", false, {2}) + std::string(64, '\1'), "unicode data");
  load_rejects<T>(header(own, false, {size_t(1) << 32, size_t(1) << 32}), "element count 2^64");
  load_rejects<T>(header(own, false, {size_t(1) << 32, size_t(1) << 32, 2}), "element count 2^65");
  load_rejects<T>(header(own, false, {SIZE_MAX, 2}), "element count 2^65-2");
  load_rejects<T>(header(own, true, {3, SIZE_MAX / 2}), "element count above 2^64");
  load_rejects<T>(header(own, false, {SIZE_MAX}), "element count 2^64-1");
  load_rejects<T>(header(own, false, {size_t(1) << 61}), "byte count 2^61 x size");
}

static void c05() {
  Rng r(SEED * 17);
  std::string good = dict("<i4", false, {2, 3});
  std::string g = header("<i4", false, {2, 3}) + std::string(24, '\2');
  {
    std::istringstream in(g);
    CHECK(outcome([&] { npy::load<tensor<int32_t>>(in); }) == "", "a well-formed file loads");
  }
  // magic, version
  for (int i = 0; i < 6; ++i)
    for (int b = 0; b < 256; ++b) {
      std::string x = g;
      if ((unsigned char)x[i] == b)
        continue;
      x[i] = b;
      rejects(x, "magic byte " + std::to_string(i) + " = " + std::to_string(b));
    }
  for (int a = 0; a < 256; ++a)
    for (int b : {0, 1, 2, 3, 128, 255}) {
      if ((a == 1 || a == 2) && b == 0)
        continue;
      std::string x = g;
      x[6] = a;
      x[7] = b;
      std::istringstream in(x);
      CHECK(throws_std(outcome([&] { npy::peek(in); })), "version " + std::to_string(a) + "." + std::to_string(b));
      std::string y = raw_header(g.substr(10, 118), 2);
      y[6] = a;
      y[7] = b;
      std::istringstream in2(y);
      CHECK(throws_std(outcome([&] { npy::peek(in2); })), "version " + std::to_string(a) + "." + std::to_string(b));
    }
  for (int b = 1; b < 256; ++b) {
    std::string x = g, y = raw_header(g.substr(10, 118), 2);
    x[7] = b;
    y[7] = b;
    rejects(x, "minor version");
    rejects(y, "minor version of 2");
  }
  // truncation of the header
  for (size_t n = 0; n < 128; ++n)
    rejects(g.substr(0, n), "header cut to " + std::to_string(n));
  std::string g2 = raw_header(g.substr(10, 118), 2);
  for (size_t n = 0; n < g2.size(); ++n)
    rejects(g2.substr(0, n), "2.0 header cut to " + std::to_string(n));
  std::string big = raw_header(good + std::string(300, ' ') + "\n");
  rejects(big.substr(0, big.size() - 1), "long header cut by one");
  rejects(big.substr(0, big.size() - 256), "long header cut by 256");
  // the stated length ends within the dictionary
  for (size_t n = 0; n < good.size(); ++n) {
    rejects(raw_header(good.substr(0, n)) + std::string(100, '\1'), "dictionary cut to " + std::to_string(n));
    rejects(raw_header(good.substr(0, n), 2) + good.substr(n), "2.0 dictionary cut to " + std::to_string(n));
  }
  // shorten the dictionary by one character (a space may be optional)
  for (size_t i = 0; i < good.size(); ++i)
    if (good[i] != ' ' && !(i >= 37 && isdigit(good[i])) && !(good[i] == ',' && i > 50)) {
      std::string d = good;
      d.erase(i, 1);
      bool dig = isdigit(good[i]);
      if (!dig)
        rejects_dict(d, "dictionary without its character " + std::to_string(i));
    }
  // replace one character
  for (size_t i = 0; i < good.size(); ++i)
    for (char c : {'x', '\0', '\n', '"', '{', '}', '(', ')', ':', ';', '\xFF', '-', '.'}) {
      if (good[i] == c)
        continue;
      if (isspace((unsigned char)c) && (isspace((unsigned char)good[i]) || isdigit((unsigned char)good[i])))
        continue; // still a tuple
      std::string d = good;
      d[i] = c;
      rejects_dict(d, "dictionary with character " + std::to_string(i) + " changed");
    }
  const char *bad[] = {
      "", "{", "}", "{}", "{ }", " ", "[]", "{'descr': '<i4'}", "{'descr': '<i4', }", "{'descr': '<i4', 'fortran_order': False, }",
      "{'descr': '<i4', 'shape': (2,), }", "{'fortran_order': False, 'shape': (2,), }", "{'shape': (2,), }", "{'fortran_order': True, }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (2,), 'extra': 1, }", "{'extra': 'x', 'descr': '<i4', 'fortran_order': False, 'shape': (2,), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (2,), 'descr2': '<i4', }", "{'Descr': '<i4', 'fortran_order': False, 'shape': (2,), }",
      "{'descr': '<i4', 'fortran_order': false, 'shape': (2,), }", "{'descr': '<i4', 'fortran_order': true, 'shape': (2,), }",
      "{'descr': '<i4', 'fortran_order': 0, 'shape': (2,), }", "{'descr': '<i4', 'fortran_order': 'False', 'shape': (2,), }",
      "{'descr': '<i4', 'fortran_order': Fals, 'shape': (2,), }", "{'descr': '<i4', 'fortran_order': Tru, 'shape': (2,), }",
      "{'descr': '<i4', 'fortran_order': Falsy, 'shape': (2,), }", "{'descr': '<i4', 'fortran_order': , 'shape': (2,), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': 2, }", "{'descr': '<i4', 'fortran_order': False, 'shape': [2], }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (-2,), }", "{'descr': '<i4', 'fortran_order': False, 'shape': (+2,), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (2.5,), }", "{'descr': '<i4', 'fortran_order': False, 'shape': (a,), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (2;3), }", "{'descr': '<i4', 'fortran_order': False, 'shape': (2 3), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (2,,3), }", "{'descr': '<i4', 'fortran_order': False, 'shape': (,), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (,2), }", "{'descr': '<i4', 'fortran_order': False, 'shape': (2, -3), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (2, x), }", "{'descr': '<i4', 'fortran_order': False, 'shape': (2L,), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (0x10,), }", "{'descr': '<i4', 'fortran_order': False, 'shape': (1e3,), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (18446744073709551616,), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (99999999999999999999999,), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (2, 18446744073709551617), }",
      "{'descr': '<i4', 'fortran_order': False, 'shape': (2", "{'descr': '<i4', 'fortran_order': False, 'shape': ((2,),), }",
      "{'descr': <i4, 'fortran_order': False, 'shape': (2,), }", "{'descr': '<i4, 'fortran_order': False, 'shape': (2,), }",
      "{descr: '<i4', 'fortran_order': False, 'shape': (2,), }", "{'descr' '<i4', 'fortran_order': False, 'shape': (2,), }",
      "{'descr': '<i4' 'fortran_order': False, 'shape': (2,), }", "{'descr': '<i4', 'fortran_order': False 'shape': (2,), }",
      "'descr': '<i4', 'fortran_order': False, 'shape': (2,), }", "{'descr': '<i4', 'fortran_order': False, 'shape': (2,), ",
      "{'descr': [('a', '<i4')], 'fortran_order': False, 'shape': (2,), }", "{'': '<i4', 'fortran_order': False, 'shape': (2,), }",
      "x{'descr': '<i4', 'fortran_order': False, 'shape': (2,), }"};
  for (const char *d : bad)
    rejects_dict(d, "dictionary");
  // keys that are almost one of the three
  const std::string keys[3] = {"descr", "fortran_order", "shape"}, vals[3] = {"'<i4'", "False", "(2,)"};
  for (int k = 0; k < 3; ++k) {
    std::set<std::string> near;
    const std::string &w = keys[k];
    for (size_t i = 0; i <= w.size(); ++i) {
      for (const std::string &x : {std::string("s"), std::string("_"), std::string(" "), std::string(1, '\0'), std::string("_order"), std::string("2"), w.substr(0, 1)})
        near.insert(w.substr(0, i) + x + w.substr(i));
      near.insert(w.substr(0, i));
      near.insert(w.substr(i));
      if (i < w.size()) {
        near.insert(w.substr(0, i) + w.substr(i + 1));
        std::string u = w;
        u[i] = toupper(u[i]);
        near.insert(u);
        u[i] = w[(i + 1) % w.size()];
        near.insert(u);
      }
    }
    near.insert(w + w);
    for (auto &x : keys)
      near.insert(w + x);
    near.insert(std::string(w.rbegin(), w.rend()));
    near.insert(w + std::string(300, 'x'));
    for (auto &x : keys)
      near.erase(x);
    for (const std::string &n : near) {
      std::string d = "{";
      for (int i = 0; i < 3; ++i)
        d += "'" + (i == k ? n : keys[i]) + "': " + vals[i] + ", ";
      rejects_dict(d + "}", "key");
      for (int at = 0; at <= 3; ++at) // a fourth entry, with each kind of value
        for (const std::string &v : {vals[0], vals[1], vals[2]}) {
          std::string e = "{";
          for (int i = 0; i <= 3; ++i) {
            if (i == at)
              e += "'" + n + "': " + v + ", ";
            if (i < 3)
              e += "'" + keys[i] + "': " + vals[i] + ", ";
          }
          rejects_dict(e + "}", "additional key");
        }
    }
    // the key is missing, another one appears twice or three times
    for (int a = 0; a < 3; ++a)
      for (int b = 0; b < 3; ++b)
        for (int c = 0; c < 3; ++c)
          if (a != k && b != k && c != k)
            rejects_dict("{'" + keys[a] + "': " + vals[a] + ", '" + keys[b] + "': " + vals[b] + ", '" + keys[c] + "': " + vals[c] + ", }", "key missing");
  }
  // dtype codes
  std::set<std::string> ok(CODES, CODES + 23);
  std::vector<std::string> codes = {"", "<", "i4", "=i4", "<i3", "<i16", "|i4", "<i1", "<u1", "<b1", ">b1", "|f4", "<f2", "<f16", "<c4", "<c32",
                                    "|S5", "<S5", "<M8", "<m8", "|O", "|V8", "<i4 ", " <i4", "<I4", "<i44", "i", "<i", "U", "U5", "|U5", "=U5", "<U",
                                    ">U", "<Ux", "<U5x", "<U-1", "<U+1", "<U 5", "<U5 ", "<U1.5", "<U99999999999", "<U2147483648", "<UU", ">i4x", "!U4",
                                    " U4", "<U0x1", "|u2", "|i2", "|c8", "^i4", "<b", "|b8", "|b", "|i", "?", "b1", "<u3", "<u0", "<i0"};
  for (char a : {'<', '>', '|', '=', ' ', '!'})
    for (char b : {'i', 'u', 'f', 'c', 'b', 'S', 'V', 'O', 'I', 'a', '?'})
      for (const char *n : {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "16", "12", "32", "", "64", "08", "1 "})
        codes.push_back(std::string(1, a) + b + n);
  for (auto &c : codes)
    if (!ok.count(c)) {
      rejects_dict(dict(c, false, {2}), "dtype code");
      rejects_dict("{'fortran_order': False, 'shape': (2,), 'descr': '" + c + "', }", "dtype code last");
    }
  c05_trunc<int8_t>();
  c05_trunc<uint8_t>();
  c05_trunc<int16_t>();
  c05_trunc<uint16_t>();
  c05_trunc<int32_t>();
  c05_trunc<uint32_t>();
  c05_trunc<int64_t>();
  c05_trunc<uint64_t>();
  c05_trunc<float>();
  c05_trunc<double>();
  c05_trunc<c64>();
  c05_trunc<c128>();
  c05_trunc<boolean>();
  for (int e = 0; e < 2; ++e)
    for (size_t m : {1, 2, 5})
      for (size_t n : {1, 2, 4}) {
        std::string full = header((e ? ">U" : "<U") + std::to_string(m), false, {n}) + std::string(n * m * 4, '\1');
        for (size_t cut = 1; cut <= n * m * 4; ++cut)
          load_rejects<std::wstring>(full.substr(0, full.size() - cut), "unicode data cut by " + std::to_string(cut));
      }
  for (const char *x : CODES)
    load_rejects<std::wstring>(header(x, false, {1}) + std::string(64, '\1'), std::string("element type ") + x);
  // random damage that the format cannot accept: random bytes
  for (int i = 0; i < (DEEP ? 20000 : 1500); ++i) {
    std::string d(r.below(150), ' ');
    for (char &c : d)
      c = (char)r.next();
    std::istringstream in(raw_header(d) + std::string(64, '\1'));
    CHECK(throws_std(outcome([&] { npy::peek(in); })), "random dictionary " + hex(d));
  }
}

// ------------------------------------------------------------------ C06
static void c06() {
  for (int i = 0; i < 23; ++i) {
    auto p = npy::from_dtype(CODES[i]);
    CHECK(p.first == DTS[i], std::string("from_dtype type of ") + CODES[i]);
    CHECK(p.second == end_of(CODES[i]), std::string("from_dtype byte order of ") + CODES[i]);
    for (endian_t e : {endian_t::NATIVE, endian_t::LITTLE, endian_t::BIG}) {
      bool one = CODES[i][0] == '|';
      std::string want = one ? CODES[i] : std::string(is_big(e) ? ">" : "<") + (CODES[i] + 1);
      CHECK(npy::to_dtype(DTS[i], e) == want, "to_dtype of type " + std::to_string((int)DTS[i]) + " order " + std::to_string((int)e) + " is " + npy::to_dtype(DTS[i], e));
      auto q = npy::from_dtype(npy::to_dtype(DTS[i], e));
      CHECK(q.first == DTS[i] && q.second == (one ? endian_t::NATIVE : is_big(e) ? endian_t::BIG : endian_t::LITTLE), "from_dtype(to_dtype) of " + want);
    }
    CHECK(npy::to_dtype(DTS[i]) == npy::to_dtype(DTS[i], endian_t::NATIVE), "default byte order");
  }
  CHECK((npy::native_endian() == endian_t::LITTLE) == host_little(), "native_endian");
  for (endian_t e : {endian_t::NATIVE, endian_t::LITTLE, endian_t::BIG})
    CHECK(outcome([&] { npy::to_dtype(data_type_t::UNICODE_STRING, e); }) == "invalid_argument", "to_dtype of the unicode type");
#define D6(T)                                                                                                          \
  {                                                                                                                    \
    tensor<T> t(Shape{1});                                                                                             \
    CHECK(t.dtype() == Ty<T>::dt, "dtype of tensor<" #T ">");                                                          \
    for (endian_t e : {endian_t::NATIVE, endian_t::LITTLE, endian_t::BIG})                                             \
      CHECK(t.dtype(e) == code<T>(e), "dtype code of tensor<" #T ">");                                                 \
  }
  D6(int8_t) D6(uint8_t) D6(int16_t) D6(uint16_t) D6(int32_t) D6(uint32_t) D6(int64_t) D6(uint64_t) D6(float) D6(double) D6(c64) D6(c128) D6(boolean)
  std::set<std::string> ok(CODES, CODES + 23);
  std::string alpha = "<>|=iufcbUSV0123456789 ?O\n";
  alpha += '\0';
  auto bad = [&](const std::string &c) {
    if (ok.count(c))
      return;
    std::string oc = outcome([&] { npy::from_dtype(c); });
    CHECK(throws_std(oc), "from_dtype of '" + c + "' (" + hex(c) + ") outcome '" + oc + "'");
  };
  bad("");
  for (char a : alpha) {
    bad(std::string(1, a));
    for (char b : alpha) {
      bad(std::string{a, b});
      for (char c : alpha) {
        bad(std::string{a, b, c});
        for (char d : alpha)
          bad(std::string{a, b, c, d});
      }
    }
  }
  for (const char *c : CODES) {
    bad(std::string(c) + std::string(1, '\0'));
    bad(std::string(" ") + c);
    bad(std::string(c).substr(0, 2));
    bad(std::string(c + 1));
  }
  // refused codes leave no trace
  for (int i = 0; i < 23; ++i)
    CHECK(npy::from_dtype(CODES[i]).first == DTS[i], std::string("from_dtype after refusals, ") + CODES[i]);
  for (const char *c : {"<i3", "zz", "|U5"})
    CHECK(throws_std(outcome([&] { npy::from_dtype(c); })), "a refused code stays refused");
}

// ------------------------------------------------------------------ C20
template <class T> static void c20_type() {
  for (int e = 0; e < 3; ++e) {
    endian_t en = e == 0 ? endian_t::NATIVE : e == 1 ? endian_t::LITTLE : endian_t::BIG;
    for (int f = 0; f < 2; ++f)
      for (Shape s : std::vector<Shape>{{}, {0}, {1}, {2, 3}, {4, 0, 2}, {3, 2, 1, 5}, {300}, Shape(40, 1), {0, (size_t(1) << 32) + 5}, {size_t(1) << 33, 0, 7}, {0, SIZE_MAX}, {70000}}) {
        tensor<T> t(s, f);
        Rng r(SEED);
        fill(t.data(), t.size(), r);
        std::ostringstream o;
        npy::save(o, t, en);
        std::string b = o.str(), c = code<T>(en);
        std::string ctx = "peek of " + c + " " + show(s) + (f ? " F" : " C");
        size_t hl = header(c, f, s).size();
        std::istringstream in("12" + b);
        in.get();
        in.get();
        header_info h = npy::peek(in);
        same_info(h, c, f, s, ctx);
        CHECK(in.tellg() == (std::streamoff)(2 + hl), ctx + ": bytes consumed");
        in.seekg(2);
        tensor<T> u = npy::load<tensor<T>>(in);
        CHECK(u.dtype() == h.dtype && u.shape() == h.shape && u.fortran_order() == h.fortran_order, ctx + ": differs from the loaded tensor");
        std::string p = scratch("p.npy");
        spit(p, b);
        same_info(npy::peek(p), c, f, s, ctx + " (file)");
        CHECK(slurp(p) == b, ctx + ": peek changed the file");
        unlink(p.c_str());
        npy::npzstringwriter w(f ? npy::compression_method_t::DEFLATED : npy::compression_method_t::STORED, en);
        w.write("a", t);
        w.close();
        npy::npzstringreader rd(w.str());
        same_info(rd.peek("a"), c, f, s, ctx + " (archive entry)");
        same_info(rd.peek("a.npy"), c, f, s, ctx + " (archive entry)");
        tensor<T> v = rd.template read<tensor<T>>("a");
        same_info(rd.peek("a"), c, f, s, ctx + " (archive entry after read)");
        CHECK(equal_tensors(u, v), ctx + ": loaded from the archive");
        p = scratch("p.npz");
        spit(p, w.str());
        npy::npzfilereader fr(p);
        same_info(fr.peek("a"), c, f, s, ctx + " (archive file entry)");
        unlink(p.c_str());
      }
  }
}
static void c20() {
  c20_type<int8_t>();
  c20_type<uint16_t>();
  c20_type<int32_t>();
  c20_type<uint64_t>();
  c20_type<float>();
  c20_type<double>();
  c20_type<c64>();
  c20_type<c128>();
  c20_type<boolean>();
  for (int e = 1; e < 3; ++e)
    for (size_t m : {0, 1, 7, 12, 1000}) {
      tensor<std::wstring> t(Shape{2, 2}, e == 1);
      t({1, 1}) = std::wstring(m, L'x');
      std::ostringstream o;
      npy::save(o, t, e == 1 ? endian_t::LITTLE : endian_t::BIG);
      std::istringstream in(o.str());
      same_info(npy::peek(in), (e == 1 ? "<U" : ">U") + std::to_string(m), e == 1, {2, 2}, "peek of unicode " + std::to_string(m));
      npy::npzstringwriter w(npy::compression_method_t::STORED, e == 1 ? endian_t::LITTLE : endian_t::BIG);
      w.write("u", t);
      w.close();
      npy::npzstringreader rd(w.str());
      same_info(rd.peek("u"), (e == 1 ? "<U" : ">U") + std::to_string(m), e == 1, {2, 2}, "peek of unicode entry " + std::to_string(m));
    }
  // long headers and much data, through every reader
  for (size_t rank : {100, 700, 1300, 2700, 5400, 10900, 21800})
    for (int f = 0; f < 2; ++f) {
      Shape s(rank, 1);
      s[rank / 2] = 3;
      tensor<int16_t> t(s, f);
      std::ostringstream o;
      npy::save(o, t);
      std::string c = code<int16_t>(endian_t::NATIVE), ctx = "peek of rank " + std::to_string(rank), p = scratch("l.npy");
      std::istringstream in(o.str());
      same_info(npy::peek(in), c, f, s, ctx);
      CHECK(in.tellg() == (std::streamoff)(o.str().size() - 6), ctx + ": bytes consumed");
      spit(p, o.str());
      same_info(npy::peek(p), c, f, s, ctx + " (file)");
      unlink(p.c_str());
      for (int d = 0; d < 2; ++d) {
        npy::npzstringwriter w(d ? npy::compression_method_t::DEFLATED : npy::compression_method_t::STORED);
        w.write("a", t);
        w.close();
        npy::npzstringreader rd(w.str());
        same_info(rd.peek("a"), c, f, s, ctx + " (archive entry)");
        p = scratch("l.npz");
        spit(p, w.str());
        npy::npzfilereader fr(p);
        same_info(fr.peek("a"), c, f, s, ctx + " (archive file entry)");
        CHECK(equal_tensors(fr.read<tensor<int16_t>>("a"), t), ctx + ": loaded from the archive file");
        unlink(p.c_str());
      }
    }
  for (size_t n : {500, 5000, 70000, 1100000, 3000000}) {
    tensor<float> t(Shape{n}, true);
    std::string c = code<float>(endian_t::NATIVE), ctx = "peek of " + std::to_string(n) + " elements", p = scratch("n.npy");
    npy::save(p, t);
    same_info(npy::peek(p), c, true, {n}, ctx);
    std::ifstream in(p, std::ios::binary);
    same_info(npy::peek(in), c, true, {n}, ctx);
    CHECK(in.tellg() == (std::streamoff)header(c, true, {n}).size(), ctx + ": bytes consumed");
    unlink(p.c_str());
    for (int d = 0; d < 2; ++d) {
      npy::npzstringwriter w(d ? npy::compression_method_t::DEFLATED : npy::compression_method_t::STORED);
      w.write("a", t);
      w.close();
      npy::npzstringreader rd(w.str());
      same_info(rd.peek("a"), c, true, {n}, ctx + " (archive entry)");
      p = scratch("n.npz");
      spit(p, w.str());
      npy::npzfilereader fr(p);
      same_info(fr.peek("a"), c, true, {n}, ctx + " (archive file entry)");
      unlink(p.c_str());
    }
  }
  // hand-written headers: key order, spacing, versions
  for (int ver = 1; ver <= 2; ++ver)
    for (int i = 0; i < 23; ++i) {
      std::string c = CODES[i];
      for (std::string d : {"{'shape': (3, 4), 'fortran_order': True, 'descr': '" + c + "', }", "{'fortran_order':True,'shape':(3,4),'descr':'" + c + "',}",
                            "{ 'descr' :  '" + c + "' , 'fortran_order': True, 'shape': (3, 4,), }"}) {
        if (d[1] == ' ' )
          continue; // spacing the writer never produces is not promised
        std::istringstream in(raw_header(d, ver) + "DATA");
        same_info(npy::peek(in), c, true, {3, 4}, "peek of " + d);
        CHECK(in.get() == 'D', "position after peek of " + d);
      }
    }
  for (const char *d : {"{'descr': '<i4', 'fortran_order': False, }", "{'descr': 'zz', 'fortran_order': False, 'shape': (1,), }", "{", "",
                        "{'descr': '<i4', 'fortran_order': False, 'shape': (x,), }", "{'descr': '<i4', 'fortran_order': Maybe, 'shape': (1,), }"}) {
    std::string b = raw_header(d);
    std::istringstream in(b);
    CHECK(throws_std(outcome([&] { npy::peek(in); })), std::string("peek of malformed ") + d);
    std::string p = scratch("m.npy");
    spit(p, b);
    CHECK(throws_std(outcome([&] { npy::peek(p); })), std::string("peek of malformed file ") + d);
    unlink(p.c_str());
    Build z;
    z.add("m.npy", b);
    npy::npzstringreader rd(z.bytes());
    CHECK(throws_std(outcome([&] { rd.peek("m"); })), std::string("peek of malformed entry ") + d);
    p = scratch("m.npz");
    spit(p, z.bytes());
    npy::npzfilereader fr(p);
    CHECK(throws_std(outcome([&] { fr.peek("m"); })), std::string("peek of malformed file entry ") + d);
    unlink(p.c_str());
  }
}

static void run_property() {
  if (PROP == "C02")
    c02();
  else if (PROP == "C03")
    c03();
  else if (PROP == "C05")
    c05();
  else if (PROP == "C06")
    c06();
  else if (PROP == "C20")
    c20();
}
