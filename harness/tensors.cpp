// C07 indexing, C08 copies and moves
#include "common.h"

static size_t numpy_pos(const Shape &s, bool f, const Shape &ix) {
  size_t p = 0;
  if (f)
    for (size_t d = s.size(); d-- > 0;)
      p = p * s[d] + ix[d];
  else
    for (size_t d = 0; d < s.size(); ++d)
      p = p * s[d] + ix[d];
  return p;
}
static std::string showi(const std::vector<int32_t> &v) {
  std::string r = "[";
  for (auto x : v)
    r += std::to_string(x) + ",";
  return r + "]";
}

static std::vector<Shape> shapes(Rng &r) {
  std::vector<Shape> v = {{}, {1}, {7}, {0}, {2, 3}, {3, 2}, {1, 5}, {5, 1}, {0, 4}, {4, 0}, {2, 3, 4}, {4, 3, 2}, {1, 1, 1}, {2, 0, 3}, {3, 1, 2},
                          {2, 3, 4, 5}, {5, 4, 3, 2}, {2, 2, 2, 2, 2}, {3, 2, 1, 2, 3}, {1, 2, 1, 2, 1, 2}, {2, 2, 2, 2, 2, 2, 2}, {300}, {17, 19}, {130, 3}, {3, 130}};
  for (int i = 0; i < (DEEP ? 400 : 40); ++i) {
    Shape s(1 + r.below(6));
    size_t n = 1;
    for (size_t &d : s) {
      d = 1 + r.below(6);
      n *= d;
    }
    if (n < 3000)
      v.push_back(s);
  }
  return v;
}

template <class T> static T mark(size_t i) { return T(i % 251 + 1); }
template <> std::wstring mark<std::wstring>(size_t i) { return L"e" + std::to_wstring(i); }
template <> boolean mark<boolean>(size_t i) { return boolean((i * 7 / 3) % 2 == 0); }

template <class T, class F> static void refused(tensor<T> &t, F f, const std::string &ctx) {
  std::vector<T> before = t.values();
  std::string oc = outcome(f);
  CHECK(oc == "invalid_argument", ctx + ": outcome '" + oc + "'");
  CHECK(before.size() == t.values().size() && same(before.data(), t.values().data(), before.size()), ctx + ": an element was touched");
}

template <class T> static void call_operator(tensor<T> &t, const std::vector<int32_t> &a, const T *want, const std::string &ctx) {
  const tensor<T> &c = t;
  const T *p = nullptr, *q = nullptr;
  switch (a.size()) {
  case 1: p = &t(a[0]); q = &c(a[0]); break;
  case 2: p = &t(a[0], a[1]); q = &c(a[0], a[1]); break;
  case 3: p = &t(a[0], a[1], a[2]); q = &c(a[0], a[1], a[2]); break;
  case 4: p = &t(a[0], a[1], a[2], a[3]); q = &c(a[0], a[1], a[2], a[3]); break;
  default: return;
  }
  CHECK(p == want && q == want, ctx + ": call operator with integers");
}

template <class T> static void c07_shape(const Shape &s, bool f) {
  tensor<T> t(s, f);
  const tensor<T> &c = t;
  size_t n = product(s);
  CHECK(t.size() == n, "size of " + show(s));
  for (size_t i = 0; i < n; ++i)
    t.data()[i] = mark<T>(i);
  Shape ix(s.size(), 0);
  for (size_t k = 0; k < n; ++k) {
    size_t pos = numpy_pos(s, f, ix);
    std::string ctx = "shape " + show(s) + (f ? " F" : " C") + " index " + show(ix);
    CHECK(c.ravel(ix) == pos, ctx + ": ravel gives " + std::to_string(c.ravel(ix)) + " expected " + std::to_string(pos));
    CHECK(&t(ix) == t.data() + pos && &c(ix) == t.data() + pos, ctx + ": call operator with a vector");
    // every mixture of negative and nonnegative components (first 16 masks)
    for (unsigned m = 0; m < (1u << std::min<size_t>(s.size(), 4)); ++m) {
      std::vector<int32_t> a(s.size());
      for (size_t d = 0; d < s.size(); ++d)
        a[d] = (int32_t)ix[d] - ((m >> (d % 4)) & 1 ? (int32_t)s[d] : 0);
      CHECK(c.ravel(a) == pos, ctx + ": ravel of " + showi(a) + " gives " + std::to_string(c.ravel(a)));
      CHECK(&c.get(a) == t.data() + pos, ctx + ": get of " + showi(a));
      call_operator(t, a, t.data() + pos, ctx + " as " + showi(a));
      if (m == 0 || k % 11 == 0) {
        T old = t.data()[pos], nw = mark<T>(pos + 5);
        t.set(a, nw);
        CHECK(same(&t.data()[pos], &nw, 1), ctx + ": set of " + showi(a));
        t.data()[pos] = old;
      }
    }
    // out of range in each dimension
    if (k % 29 == 0 || n < 13)
      for (size_t d = 0; d < s.size(); ++d) {
        for (size_t bad : {s[d], s[d] + 1, s[d] * 2, (size_t)INT32_MAX, (size_t)INT32_MAX + 1, (size_t)1 << 32, ((size_t)1 << 32) + ix[d], (size_t)1 << 63, SIZE_MAX, SIZE_MAX - 1, 0 - s[d]}) {
          if (bad < s[d])
            continue;
          Shape b = ix;
          b[d] = bad;
          std::string cb = "shape " + show(s) + (f ? " F" : " C") + " bad index " + show(b);
          refused(t, [&] { t.ravel(b); }, cb + " ravel");
          refused(t, [&] { t(b) = mark<T>(3); }, cb + " call operator");
          refused(t, [&] { c(b); }, cb + " const call operator");
        }
        for (int64_t bad : {(int64_t)s[d], (int64_t)s[d] + 1, -(int64_t)s[d] - 1, -(int64_t)s[d] - 2, -2 * (int64_t)s[d] - 1, (int64_t)INT32_MAX, (int64_t)INT32_MIN, (int64_t)INT32_MIN + 1}) {
          std::vector<int32_t> b(ix.begin(), ix.end());
          b[d] = (int32_t)bad;
          std::string cb = "shape " + show(s) + (f ? " F" : " C") + " bad index " + showi(b);
          refused(t, [&] { t.ravel(b); }, cb + " ravel");
          refused(t, [&] { t.get(b); }, cb + " get");
          refused(t, [&] { t.set(b, mark<T>(9)); }, cb + " set");
        }
      }
    // next index
    for (size_t d = s.size(); d-- > 0;) {
      if (++ix[d] < s[d])
        break;
      ix[d] = 0;
    }
  }
  // wrong rank
  for (size_t r = 0; r <= s.size() + 3; ++r) {
    if (r == s.size())
      continue;
    std::vector<int32_t> b(r, 0);
    Shape u(r, 0);
    std::string cb = "shape " + show(s) + " index of rank " + std::to_string(r);
    refused(t, [&] { t.ravel(b); }, cb + " ravel");
    refused(t, [&] { t.ravel(u); }, cb + " ravel (unsigned)");
    refused(t, [&] { t.get(b); }, cb + " get");
    refused(t, [&] { t.set(b, mark<T>(9)); }, cb + " set");
    refused(t, [&] { t(u) = mark<T>(9); }, cb + " call operator");
    refused(t, [&] { c(u); }, cb + " const call operator");
  }
  if (s.size() != 1)
    refused(t, [&] { t(0) = mark<T>(9); }, "shape " + show(s) + " call operator with one integer");
  if (s.size() != 2)
    refused(t, [&] { t(0, 0) = mark<T>(9); }, "shape " + show(s) + " call operator with two integers");
  if (s.size() != 3)
    refused(t, [&] { c(0, 0, -1); }, "shape " + show(s) + " call operator with three integers");
  // zero sized dimensions: nothing is addressable
  if (n == 0)
    for (int x : {0, 1, -1, -2, 5}) {
      std::vector<int32_t> b(s.size(), x);
      refused(t, [&] { t.get(b); }, "empty shape " + show(s) + " get " + showi(b));
      refused(t, [&] { t.set(b, mark<T>(1)); }, "empty shape " + show(s) + " set " + showi(b));
      if (x >= 0)
        refused(t, [&] { t.ravel(Shape(s.size(), x)); }, "empty shape " + show(s));
    }
  // order of the underlying data
  if (!s.empty() && n) {
    std::set<size_t> seen;
    Shape i2(s.size(), 0);
    for (size_t k = 0; k < n; ++k) {
      seen.insert(c.ravel(i2));
      for (size_t d = s.size(); d-- > 0;) {
        if (++i2[d] < s[d])
          break;
        i2[d] = 0;
      }
    }
    CHECK(seen.size() == n && *seen.rbegin() == n - 1, "distinct indexes of " + show(s) + " address distinct elements");
  }
}

template <class T> static void c07() {
  Rng r(SEED * 3 + sizeof(T));
  for (auto &s : shapes(r))
    for (int f = 0; f < 2; ++f)
      c07_shape<T>(s, f);
}

// ravel on shapes far too large for memory is out of reach of the public interface; large dimensions that fit:
static void c07_large() {
  for (int f = 0; f < 2; ++f) {
    tensor<uint8_t> t(Shape{70000, 2, 3}, f);
    for (size_t i : {0, 1, 255, 256, 32767, 32768, 65535, 65536, 69999})
      for (size_t j = 0; j < 2; ++j)
        for (size_t k = 0; k < 3; ++k) {
          size_t p = numpy_pos(t.shape(), f, {i, j, k});
          CHECK(t.ravel(Shape{i, j, k}) == p, "large shape ravel");
          CHECK(t.ravel(std::vector<int32_t>{(int)i - 70000, (int)j, (int)k - 3}) == p, "large shape ravel, negative");
        }
  }
  // many dimensions: 16 of size 2 among others of size 1
  for (size_t rank : {17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000})
    for (int f = 0; f < 2; ++f) {
      Shape s(rank, 1);
      for (size_t i = 0; i < 16; ++i)
        s[i * rank / 16] = 2;
      tensor<uint8_t> t(s, f);
      Rng r(SEED + rank);
      for (int n = 0; n < 300; ++n) {
        Shape ix(rank, 0);
        std::vector<int32_t> sx(rank);
        for (size_t d = 0; d < rank; ++d) {
          ix[d] = r.below(s[d]);
          sx[d] = (int32_t)ix[d] - (int32_t)(r.below(2) ? s[d] : 0);
        }
        size_t p = numpy_pos(s, f, ix);
        CHECK(t.ravel(ix) == p && t.ravel(sx) == p, "ravel in rank " + std::to_string(rank));
        size_t d = r.below(rank);
        ix[d] = s[d];
        sx[d] = n % 2 ? (int32_t)s[d] : -(int32_t)s[d] - 1;
        CHECK(outcome([&] { t.ravel(ix); }) == "invalid_argument", "ravel out of range in rank " + std::to_string(rank));
        CHECK(outcome([&] { t.set(sx, 1); }) == "invalid_argument", "set out of range in rank " + std::to_string(rank));
      }
    }
  if (DEEP)
    for (int f = 0; f < 2; ++f) {
      // more than 2^32 elements
      Shape s = f ? Shape{5, 4, size_t(1) << 28, 1} : Shape{4, 5, 2, (size_t(1) << 27) + 8};
      tensor<int8_t> t(s, f);
      size_t n = product(s);
      CHECK(t.size() == n && t.values().size() == n, "size above 2^32");
      t.data()[n - 1] = 3;
      CHECK(t.get({-1, -1, -1, -1}) == 3, "last of more than 2^32 elements");
      for (size_t i = 0; i < s[0]; ++i)
        for (size_t j = 0; j < s[1]; ++j)
          for (size_t k : {size_t(0), size_t(1), s[2] / 2, s[2] - 1})
            for (size_t l : {size_t(0), s[3] / 2, s[3] - 1}) {
              Shape ix = {i, j, k, l};
              std::vector<int32_t> a(ix.begin(), ix.end()), b = {(int32_t)i - (int32_t)s[0], (int32_t)j, (int32_t)((int64_t)k - (int64_t)s[2]), (int32_t)l};
              size_t p = numpy_pos(s, f, ix);
              CHECK(t.ravel(ix) == p && t.ravel(a) == p && t.ravel(b) == p, "ravel among more than 2^32 elements");
              t.set(b, 9);
              CHECK(t.data()[p] == 9 && &t(ix) == t.data() + p, "set among more than 2^32 elements");
            }
    }
}

// ------------------------------------------------------------------ C08
template <class T> static void value_initialised(const tensor<T> &t, const std::string &ctx) {
  T z{};
  for (size_t i = 0; i < t.size(); ++i)
    CHECK(same(&t.values()[i], &z, 1), ctx + ": element " + std::to_string(i) + " is not value-initialised");
}

template <class T> static void consistent(const tensor<T> &t, const Shape &s, bool f, const std::vector<T> &v, const std::string &ctx) {
  CHECK(t.shape() == s, ctx + ": shape " + show(t.shape()) + " expected " + show(s));
  CHECK(t.ndim() == s.size(), ctx + ": ndim");
  for (size_t d = 0; d < s.size(); ++d)
    CHECK(t.shape((int)d) == s[d], ctx + ": shape(" + std::to_string(d) + ")");
  CHECK(t.fortran_order() == f, ctx + ": order");
  CHECK(t.size() == product(s) && t.values().size() == product(s) && (size_t)(t.end() - t.begin()) == product(s), ctx + ": number of elements");
  CHECK(v.size() == t.size() && same(t.data(), v.data(), v.size()), ctx + ": elements");
  CHECK(t.values().data() == t.data() && (t.size() == 0 || &*t.begin() == t.data()), ctx + ": data and values");
  tensor<T> ref(Shape{1});
  CHECK(t.dtype() == ref.dtype(), ctx + ": dtype");
  if (t.size() && s.size()) {
    Shape ix(s.size(), 0);
    for (size_t k = 0; k < t.size() && k < 200; ++k) {
      CHECK(&t(ix) == t.data() + numpy_pos(s, f, ix), ctx + ": indexing at " + show(ix));
      for (size_t d = s.size(); d-- > 0;) {
        if (++ix[d] < s[d])
          break;
        ix[d] = 0;
      }
    }
  }
}

template <class T> static void c08() {
  Rng r(SEED * 5 + sizeof(T));
  std::vector<Shape> sh = {{}, {0}, {1}, {6}, {2, 3}, {3, 2}, {0, 3}, {4, 1, 2}, {2, 2, 2, 2}, {1000}, {3, 4, 5, 2},
                           {0, (size_t(1) << 32) + 5}, {size_t(1) << 33, 0, 7}, {0, SIZE_MAX}};
  if (std::is_same<T, int32_t>::value || std::is_same<T, std::complex<double>>::value) {
    sh.push_back({70001});
    sh.push_back({300, 5, 41});
  }
  for (auto &s : sh)
    for (int f = 0; f < 2; ++f) {
      std::string ctx = std::string(typeid(T).name()) + " " + show(s) + (f ? " F" : " C");
      // dirty the heap so that missing initialisation shows
      {
        std::vector<unsigned char> junk(product(s) * sizeof(T) + 64, 0xAB);
        asm volatile("" ::"r"(junk.data()) : "memory");
      }
      tensor<T> t(s, f);
      value_initialised(t, ctx);
      consistent(t, s, f, std::vector<T>(product(s)), ctx + " new");
      if (!f)
        consistent(tensor<T>(s), s, false, std::vector<T>(product(s)), ctx + " new without order");
      std::vector<T> v(product(s));
      fill(v.data(), v.size(), r);
      t.copy_from(v);
      consistent(t, s, f, v, ctx + " copy_from vector");
      std::vector<T> v2(product(s));
      fill(v2.data(), v2.size(), r);
      t.copy_from(v2.data(), v2.size());
      consistent(t, s, f, v2, ctx + " copy_from pointer");
      std::vector<T> mv = v;
      t.move_from(std::move(mv));
      consistent(t, s, f, v, ctx + " move_from");
      // copies are equal and independent
      tensor<T> c(t);
      consistent(c, s, f, v, ctx + " copied");
      consistent(t, s, f, v, ctx + " source of a copy");
      if (c.size()) {
        c.copy_from(v2);
        consistent(t, s, f, v, ctx + " source after the copy changed");
        consistent(c, s, f, v2, ctx + " changed copy");
        t.data()[0] = v2[0];
        t.data()[t.size() - 1] = v2[t.size() - 1];
        consistent(c, s, f, v2, ctx + " copy after the source changed");
        t.copy_from(v);
      }
      for (auto &s2 : sh)
        for (int f2 = 0; f2 < 2; ++f2) {
          tensor<T> d(s2, f2);
          std::vector<T> w(product(s2));
          fill(w.data(), w.size(), r);
          d.copy_from(w);
          tensor<T> &ref = (d = t);
          CHECK(&ref == &d, ctx + ": assignment returns its target");
          consistent(d, s, f, v, ctx + " assigned over " + show(s2));
          consistent(t, s, f, v, ctx + " source of an assignment");
          if (d.size()) {
            d.data()[0] = T{};
            d.data()[d.size() - 1] = T{};
            consistent(t, s, f, v, ctx + " source after the assigned copy changed");
          }
          tensor<T> m(s2, f2);
          tensor<T> src(t);
          m = std::move(src);
          consistent(m, s, f, v, ctx + " move-assigned over " + show(s2));
          // wrong number of items
          if (product(s2) != product(s)) {
            std::vector<T> x(w);
            refused(t, [&] { t.copy_from(w); }, ctx + " copy_from of " + std::to_string(w.size()) + " items");
            refused(t, [&] { t.copy_from(w.data(), w.size()); }, ctx + " copy_from pointer of " + std::to_string(w.size()));
            refused(t, [&] { t.move_from(std::move(x)); }, ctx + " move_from of " + std::to_string(w.size()));
            consistent(t, s, f, v, ctx + " after refusals");
          }
        }
      for (int bit = 31; bit < 64; ++bit) // a count that agrees with the size only in its low bits
        refused(t, [&] { t.copy_from(v.data(), v.size() + (size_t(1) << bit)); }, ctx + " copy_from pointer of size + 2^" + std::to_string(bit));
      for (size_t k : {t.size() + 1, t.size() - 1, t.size() * 2 + 3}) {
        if (k > t.size() * 2 + 3)
          continue;
        std::vector<T> x(k);
        refused(t, [&] { t.copy_from(x); }, ctx + " copy_from of " + std::to_string(k) + " items");
        refused(t, [&] { t.copy_from(x.data(), k); }, ctx + " copy_from pointer of " + std::to_string(k));
        refused(t, [&] { t.move_from(std::move(x)); }, ctx + " move_from of " + std::to_string(k));
      }
      tensor<T> src(t);
      tensor<T> m(std::move(src));
      consistent(m, s, f, v, ctx + " moved");
      m = *&m;
      consistent(m, s, f, v, ctx + " self-assigned");
      // a moved tensor is independent of what happens to its source
      src = tensor<T>(Shape{2}, !f);
      consistent(m, s, f, v, ctx + " moved, source reused");
      consistent(src, Shape{2}, !f, std::vector<T>(2), ctx + " reused source");
    }
  // counts that do not fit
  for (const Shape &s : std::vector<Shape>{{SIZE_MAX, 2}, {2, SIZE_MAX}, {size_t(1) << 32, size_t(1) << 32}, {size_t(1) << 33, size_t(1) << 31, 1}, {3, SIZE_MAX / 3 + 1},
                                           {SIZE_MAX, SIZE_MAX}, {size_t(1) << 16, size_t(1) << 16, size_t(1) << 16, size_t(1) << 16}, {size_t(1) << 63, 2}, {5, size_t(1) << 62}})
    for (int f = 0; f < 2; ++f) {
      std::string oc = outcome([&] { tensor<T> t(s, f); });
      CHECK(throws_std(oc), "shape " + show(s) + " with too many elements is not refused");
    }
}

static void run_property() {
  if (PROP == "C07") {
    c07_large();
    c07<int32_t>();
    c07<std::wstring>();
    if (DEEP) {
      c07<uint8_t>();
      c07<c128>();
      c07<boolean>();
    }
  } else if (PROP == "C08") {
    c08<uint8_t>();
    c08<int16_t>();
    c08<int32_t>();
    c08<uint64_t>();
    c08<float>();
    c08<double>();
    c08<c64>();
    c08<c128>();
    c08<boolean>();
    c08<std::wstring>();
  }
}
