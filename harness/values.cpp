// C01 element bytes, C04 tensor round trip, C09 unicode, C21 boolean
#include "common.h"
#include <limits>
#include <cmath>

static const endian_t ENDS[] = {endian_t::NATIVE, endian_t::LITTLE, endian_t::BIG};
static const char *EN[] = {"native", "little", "big"};

template <class T> static void c01_case(size_t n, int e, Rng &r, int pattern) {
  std::vector<T> v(n);
  fill(v.data(), n, r);
  if (pattern && n) {
    unsigned char *c = (unsigned char *)v.data();
    if (std::is_same<T, boolean>::value) {
      for (size_t i = 0; i < n; ++i)
        c[i] = pattern & 1;
    } else
      for (size_t i = 0; i < n * sizeof(T); ++i)
        c[i] = pattern == 1 ? 0xFF : pattern == 2 ? (unsigned char)(i + 1) : pattern == 3 ? (i % sizeof(T) ? 0 : 0x80) : 0x0A;
  }
  std::string want = enc(v.data(), n, ENDS[e]);
  std::string ctx = std::string(Ty<T>::code) + " x " + std::to_string(n) + " " + EN[e] + " first bytes " + hex(want, 16);
  // write
  std::ostringstream o;
  o << "xy";
  npy::write_values<T, char>(o, v.data(), n, ENDS[e]);
  CHECK(o.str() == "xy" + want, ctx + ": bytes written by write_values: " + hex(o.str().substr(2), 48));
  tensor<T> t(Shape{n});
  t.copy_from(v);
  std::ostringstream o2;
  npy::save(o2, t, ENDS[e]);
  std::string h = header(code<T>(ENDS[e]), false, {n});
  CHECK(o2.str() == h + want, ctx + ": bytes written by save");
  // read
  header_info info(Ty<T>::dt, sizeof(T) == 1 && (n & 1) ? endian_t::NATIVE : ENDS[e], false, Shape{n});
  std::istringstream in("ab" + want + "TAIL");
  in.get();
  in.get();
  std::vector<T> w(n);
  npy::read_values<T, char>(in, w.data(), n, info);
  CHECK(same(v.data(), w.data(), n), ctx + ": elements read by read_values");
  CHECK((size_t)in.tellg() == 2 + want.size(), ctx + ": position after read_values");
  CHECK(in.good(), ctx + ": stream state after read_values");
  std::istringstream in2(h + want + "T");
  tensor<T> u = npy::load<tensor<T>>(in2);
  CHECK(u.size() == n && same(v.data(), u.data(), n), ctx + ": elements read by load");
  CHECK((size_t)in2.tellg() == h.size() + want.size(), ctx + ": position after load");
  std::istringstream in3(want);
  npy::read_values<T, char>(in3, w.data(), n, info);
  CHECK(!in3.fail() && same(v.data(), w.data(), n), ctx + ": elements read up to the end of the stream");
}

template <class T> static void c01() {
  Rng r(SEED * 131 + sizeof(T) + (int)Ty<T>::dt);
  for (int e = 0; e < 3; ++e) {
    for (size_t n = 0; n <= 40; ++n)
      c01_case<T>(n, e, r, n % 5);
    for (size_t n : {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097,
                     8191, 8192, 8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 131073, 262145})
      c01_case<T>(n, e, r, 0);
    for (int i = 0; i < (DEEP ? 60 : 6); ++i)
      c01_case<T>(r.below(5000), e, r, 0);
    if (DEEP)
      c01_case<T>(1 << 21, e, r, 0);
  }
  // every value of one byte in every position
  for (int b = 0; b < 256; ++b) {
    if (std::is_same<T, boolean>::value)
      break;
    std::vector<T> v(sizeof(T));
    memset((void *)v.data(), 0, v.size() * sizeof(T));
    for (size_t i = 0; i < sizeof(T); ++i)
      ((unsigned char *)&v[i])[i] = b;
    for (int e = 0; e < 3; ++e) {
      std::ostringstream o;
      npy::write_values<T, char>(o, v.data(), v.size(), ENDS[e]);
      std::string want = enc(v.data(), v.size(), ENDS[e]);
      CHECK(o.str() == want, std::string(Ty<T>::code) + " byte value " + std::to_string(b) + " " + EN[e] + " written");
      std::vector<T> w(v.size());
      std::istringstream in(want);
      npy::read_values<T, char>(in, w.data(), w.size(), header_info(Ty<T>::dt, ENDS[e], false, Shape{v.size()}));
      CHECK(same(v.data(), w.data(), w.size()), std::string(Ty<T>::code) + " byte value " + std::to_string(b) + " " + EN[e] + " read");
    }
  }
}

#define EACH(f)                                                                                                        \
  f<int8_t>();                                                                                                         \
  f<uint8_t>();                                                                                                        \
  f<int16_t>();                                                                                                        \
  f<uint16_t>();                                                                                                       \
  f<int32_t>();                                                                                                        \
  f<uint32_t>();                                                                                                       \
  f<int64_t>();                                                                                                        \
  f<uint64_t>();                                                                                                       \
  f<float>();                                                                                                          \
  f<double>();                                                                                                         \
  f<c64>();                                                                                                            \
  f<c128>();                                                                                                           \
  f<boolean>();

// ------------------------------------------------------------------ C04
template <class T> static void rt(const Shape &s, bool f, int e, Rng &r, bool file) {
  tensor<T> t(s, f);
  fill(t.data(), t.size(), r);
  std::string ctx = std::string(typeid(T).name()) + " " + show(s) + (f ? " F " : " C ") + EN[e];
  tensor<T> u(Shape{1});
  if (file) {
    std::string p = scratch("rt.npy");
    if (r.next() & 1)
      npy::save(p, t, ENDS[e]);
    else
      t.save(p, ENDS[e]);
    u = (r.next() & 1) ? npy::load<tensor<T>>(p) : tensor<T>::from_file(p);
    unlink(p.c_str());
  } else {
    std::stringstream io;
    io << "pre";
    npy::save(io, t, ENDS[e]);
    npy::save(io, t, ENDS[2 - e]);
    std::istringstream in(io.str());
    in.ignore(3);
    u = npy::load<tensor<T>>(in);
    tensor<T> v = npy::load<tensor<T>>(in);
    CHECK(equal_tensors(t, v), ctx + ": second tensor of the stream differs");
    CHECK(in.peek() == EOF, ctx + ": bytes left over");
  }
  CHECK(equal_tensors(t, u), ctx + ": loaded tensor differs (shape " + show(u.shape()) + ")");
  // positions, through the index
  if (t.size() && s.size()) {
    Shape ix(s.size());
    for (int k = 0; k < 4; ++k) {
      for (size_t d = 0; d < s.size(); ++d)
        ix[d] = r.below(s[d]);
      T a = t(ix), b = u(ix);
      CHECK(same(&a, &b, 1), ctx + ": element at " + show(ix) + " differs");
    }
  }
}

template <class T> static void c04() {
  Rng r(SEED * 977 + sizeof(T) * 3 + typeid(T).hash_code() % 7);
  std::vector<Shape> shapes = {{}, {0}, {1}, {5}, {0, 3}, {3, 0}, {2, 3}, {3, 2, 4}, {1, 1, 1}, {2, 0, 5}, {2, 3, 4, 2}, {1, 7, 1, 3, 2},
                               {2, 2, 2, 2, 2, 2}, {255}, {256}, {257}, {16, 17}, {1000}, {4096}, {10, 100}, {99, 11}, {12345},
                               {0, (size_t(1) << 32) + 5}, {size_t(1) << 33, 0, 7}, {0, SIZE_MAX}, {size_t(1) << 16, 0}, {0, size_t(1) << 31, 2}, {70000}, {257, 256}};
  Shape deep(30, 1);
  shapes.push_back(deep);
  deep[7] = 3;
  deep[29] = 2;
  shapes.push_back(deep);
  for (int i = 0; i < (DEEP ? 300 : 20); ++i) {
    Shape s(r.below(7));
    size_t n = 1;
    for (size_t &d : s) {
      d = r.below(8) ? 1 + r.below(7) : r.below(3);
      n *= d ? d : 1;
    }
    if (n < 50000)
      shapes.push_back(s);
  }
  for (size_t i = 0; i < shapes.size(); ++i)
    for (int f = 0; f < 2; ++f)
      for (int e = 0; e < 3; ++e)
        rt<T>(shapes[i], f, e, r, (i + f + e) % 3 == 0);
}

// ------------------------------------------------------------------ C09
static void c09_case(const std::vector<std::wstring> &v, int e, bool file) {
  size_t n = v.size(), m = 0;
  for (auto &x : v)
    m = std::max(m, x.size());
  std::string ctx = "unicode x " + std::to_string(n) + " longest " + std::to_string(m) + " " + EN[e] + " lengths";
  for (size_t i = 0; i < n && i < 12; ++i)
    ctx += " " + std::to_string(v[i].size());
  tensor<std::wstring> t(Shape{n});
  t.copy_from(v);
  std::string body = enc_u(v.data(), n, ENDS[e]);
  std::string h = header((is_big(ENDS[e]) ? ">U" : "<U") + std::to_string(m), false, {n});
  std::string got;
  if (file) {
    std::string p = scratch("u.npy");
    npy::save(p, t, ENDS[e]);
    got = slurp(p);
    unlink(p.c_str());
  } else {
    std::ostringstream o;
    npy::save(o, t, ENDS[e]);
    got = o.str();
  }
  CHECK(t.dtype(ENDS[e]) == (is_big(ENDS[e]) ? ">U" : "<U") + std::to_string(m), ctx + ": dtype code " + t.dtype(ENDS[e]));
  CHECK(got == h + body, ctx + ": bytes written " + hex(got.substr(std::min(got.size(), h.size())), 64) + " expected " + hex(body, 64));
  std::istringstream in(h + body + "Z");
  tensor<std::wstring> u = npy::load<tensor<std::wstring>>(in);
  CHECK(u.size() == n, ctx + ": size");
  for (size_t i = 0; i < n; ++i) {
    std::wstring w = v[i];
    while (!w.empty() && w.back() == 0)
      w.pop_back();
    CHECK(u.values()[i] == w, ctx + ": element " + std::to_string(i) + " loaded with " + std::to_string(u.values()[i].size()) + " characters");
  }
  CHECK((size_t)in.tellg() == h.size() + body.size(), ctx + ": position after load");
}

static void c09() {
  Rng r(SEED * 31);
  std::vector<std::vector<std::wstring>> cs = {
      {}, {L""}, {L"", L""}, {L"a"}, {L"", L"abc", L""}, {L"abc", L"ab", L"a", L""}, {L"\x10FFFF", L"\xE9\x3A9"},
      {std::wstring(L"a\0b", 3)}, {std::wstring(L"\0\0b", 3), L"xyz1"}, {std::wstring(L"a\0", 2), L"abcd"}, {std::wstring(3, L'\0'), L"q"},
      {std::wstring(2, L'\0')}, {std::wstring(9, L'x')}, {std::wstring(10, L'x'), L"y"}, {std::wstring(100, L'z')},
      {L"y", std::wstring(1000, (wchar_t)0x1F600)}, {std::wstring(99999, L'k'), L""}};
  std::wstring all;
  for (uint32_t c = 1; c < 0x110000; c += (DEEP ? 1 : 7))
    all += (wchar_t)c;
  cs.push_back({all, L"short"});
  std::wstring odd;
  for (uint32_t c : {0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x01020304u, 0xFFu, 0xFF00u, 0xFF0000u, 0xFF000000u})
    odd += (wchar_t)c;
  cs.push_back({odd, odd + odd});
  for (int i = 0; i < (DEEP ? 2000 : 150); ++i) {
    std::vector<std::wstring> v(r.below(i % 10 ? 12 : 300));
    fill(v.data(), v.size(), r);
    if (!v.empty() && i % 3 == 0)
      v[r.below(v.size())].push_back(0);
    if (!v.empty() && i % 5 == 0)
      v[r.below(v.size())] = std::wstring(r.below(300), L'w');
    cs.push_back(v);
  }
  for (size_t n : {255, 256, 257, 4096, 65536, 65537}) {
    std::vector<std::wstring> v(n, L"ab");
    v[n - 1] = L"abc";
    cs.push_back(v);
    v[n - 1] = L"";
    v[n / 2] = L"abcdefgh";
    cs.push_back(v);
  }
  for (size_t i = 0; i < cs.size(); ++i)
    for (int e = 0; e < 3; ++e)
      c09_case(cs[i], e, i % 4 == 1);
  // dtype length longer than the elements, all zero elements, other lengths of padding
  for (size_t m : {0, 1, 2, 5, 100}) {
    for (int e = 1; e < 3; ++e) {
      std::string b;
      size_t n = 3;
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < m; ++j)
          b += enc_u((std::wstring(1, (wchar_t)(i == 1 ? 0 : j == i ? 0x10000 + j : 0))).data() ? std::vector<std::wstring>{std::wstring(1, (wchar_t)(i == 1 ? 0 : j == i ? 0x10000 + j : 0))}.data() : nullptr, 1, ENDS[e]);
      std::istringstream in(header((e == 2 ? ">U" : "<U") + std::to_string(m), false, {n}) + b);
      tensor<std::wstring> u = npy::load<tensor<std::wstring>>(in);
      for (size_t i = 0; i < n; ++i) {
        std::wstring w;
        if (i != 1 && i < m) {
          w = std::wstring(i, L'\0');
          w += (wchar_t)(0x10000 + i);
        }
        CHECK(u.values()[i] == w, "unicode with padded elements: length " + std::to_string(m) + " element " + std::to_string(i));
      }
    }
  }
}

// ------------------------------------------------------------------ C21
template <class A> static void c21_value(A a, const char *n) {
  bool want = a != 0;
  std::string ctx = std::string("boolean from ") + n + " " + std::to_string((long double)a);
  boolean b(a);
  CHECK((bool)b == want, ctx + " (constructed)");
  CHECK(*(unsigned char *)&b == (want ? 1 : 0), ctx + ": stored byte (constructed)");
  for (int old = 0; old < 2; ++old) {
    boolean c(old != 0);
    c = a;
    CHECK((bool)c == want, ctx + " (assigned)");
    CHECK(*(unsigned char *)&c == (want ? 1 : 0), ctx + ": stored byte (assigned)");
  }
  const A &ref = a;
  boolean d = ref;
  CHECK((bool)d == want, ctx + " (converted)");
  tensor<boolean> t(Shape{3});
  t(1) = a;
  t.set({2}, boolean(a));
  CHECK(!t(0) && (bool)t(1) == want && (bool)t(2) == want, ctx + " (tensor element)");
  std::ostringstream o;
  npy::save(o, t);
  std::string s = o.str();
  CHECK(s[s.size() - 3] == 0 && s[s.size() - 2] == (want ? 1 : 0) && s[s.size() - 1] == (want ? 1 : 0), ctx + " (saved bytes)");
}

template <class A> static void c21_type(const char *n) {
  typedef std::numeric_limits<A> L;
  std::vector<A> v = {A(0), A(1), A(2), A(3), A(127), L::max(), L::lowest(), A(-1), L::min()};
  if (L::is_integer) {
    for (int i = 0; i < L::digits; ++i) {
      v.push_back((A)((unsigned long long)1 << i));
      v.push_back((A)(((unsigned long long)1 << i) - 1));
      v.push_back((A)(0 - ((unsigned long long)1 << i)));
    }
    Rng r(SEED);
    for (int i = 0; i < 200; ++i) {
      v.push_back((A)r.next());
      v.push_back((A)(r.next() << (r.below(8) * 8)));
    }
  } else {
    for (double d : {0.5, 0.25, 0.999, -0.5, -0.0, 1e-30, 256.0, 65536.0, 4294967296.0, 1e300, 1e-310, -1e-3})
      v.push_back((A)d);
    v.push_back(L::quiet_NaN());
    v.push_back(L::infinity());
    v.push_back(-L::infinity());
    v.push_back(L::denorm_min());
    v.push_back(-L::denorm_min());
    v.push_back(L::epsilon());
  }
  for (A a : v)
    c21_value<A>(a, n);
}

static void c21() {
#define T21(x) c21_type<x>(#x);
  T21(char) T21(signed char) T21(unsigned char) T21(short) T21(unsigned short) T21(int) T21(unsigned int) T21(long) T21(unsigned long)
  T21(long long) T21(unsigned long long) T21(float) T21(double) T21(long double) T21(wchar_t) T21(char16_t) T21(char32_t)
  c21_value<bool>(true, "bool");
  c21_value<bool>(false, "bool");
  CHECK(!(bool)boolean() && *(unsigned char *)std::vector<boolean>(1).data() == 0, "default boolean is false");
  for (int a = 0; a < 2; ++a) {
    boolean x((bool)a), y(x), z;
    z = x;
    CHECK((bool)y == (bool)a && (bool)z == (bool)a, "copy of boolean");
  }
  // loaded bytes: every value, kept unchanged
  std::string bytes;
  for (int i = 0; i < 256; ++i)
    bytes += (char)i;
  std::istringstream in(header("|b1", false, {256}) + bytes);
  tensor<boolean> t = npy::load<tensor<boolean>>(in);
  for (int i = 0; i < 256; ++i) {
    CHECK((bool)t.values()[i] == (i != 0), "loaded boolean byte " + std::to_string(i));
    CHECK(((unsigned char *)t.data())[i] == i, "loaded boolean byte " + std::to_string(i) + " is changed");
  }
  std::ostringstream o;
  npy::save(o, t);
  CHECK(o.str() == header("|b1", false, {256}) + bytes, "boolean bytes written back");
  tensor<boolean> c(t), d(Shape{256});
  d = t;
  for (int i = 0; i < 256; ++i)
    CHECK((bool)c.values()[i] == (i != 0) && (bool)d.values()[i] == (i != 0), "copied boolean byte " + std::to_string(i));
}

static void run_property() {
  if (PROP == "C01") {
    EACH(c01)
  } else if (PROP == "C04") {
    EACH(c04)
    c04<std::wstring>();
  } else if (PROP == "C09")
    c09();
  else if (PROP == "C21")
    c21();
}
