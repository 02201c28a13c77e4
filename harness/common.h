// Shared parts of the replay harnesses: independent oracles for the NPY and ZIP formats.
// The oracles are written from the format descriptions and do not use code of the library.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "npy/npy.h"
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>

using npy::boolean;
using npy::data_type_t;
using npy::endian_t;
using npy::header_info;
using npy::tensor;
typedef std::vector<size_t> Shape;
typedef std::complex<float> c64;
typedef std::complex<double> c128;

static std::string PROP;
static std::string SCRATCH;
static uint64_t SEED = 1;
static bool DEEP = false;
static long CASES = 0;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  size_t below(size_t n) { return n ? next() % n : 0; }
};

[[noreturn]] static void quit(int code) {
  fflush(stdout);
  fflush(stderr);
  _exit(code);
}

static FILE *OUT = nullptr; // the real stdout: the library prints diagnostics on stdout

[[noreturn]] static void fail(const std::string &what) {
  fprintf(OUT, "FAIL %s\n", what.c_str());
  fflush(OUT);
  quit(1);
}

static std::string hex(const std::string &b, size_t lim = 160) {
  std::string r;
  char t[4];
  for (size_t i = 0; i < b.size() && i < lim; ++i) {
    snprintf(t, sizeof t, "%02x", (unsigned char)b[i]);
    r += t;
  }
  if (b.size() > lim)
    r += "...(" + std::to_string(b.size()) + " bytes)";
  return r;
}

static std::string show(const Shape &s) {
  std::string r = "(";
  for (size_t d : s)
    r += std::to_string(d) + ",";
  return r + ")";
}

#define CHECK(c, what)                                                                                                 \
  do {                                                                                                                 \
    ++CASES;                                                                                                           \
    if (!(c))                                                                                                          \
      fail(std::string(what) + "   [violated: " #c "]");                                                               \
  } while (0)

// what a call does: "" returns, otherwise the kind of exception
template <class F> static std::string outcome(F f) {
  try {
    f();
    return "";
  } catch (const std::invalid_argument &) {
    return "invalid_argument";
  } catch (const std::out_of_range &) {
    return "out_of_range";
  } catch (const std::length_error &) {
    return "length_error";
  } catch (const std::bad_alloc &) {
    return "bad_alloc";
  } catch (const std::runtime_error &) {
    return "runtime_error";
  } catch (const std::exception &) {
    return "exception";
  } catch (...) {
    return "non-standard exception";
  }
}

static bool throws_std(const std::string &o) { return !o.empty() && o != "non-standard exception"; }

// ------------------------------------------------------------------ element types
template <class T> struct Ty;
#define TY(T, CODE, COMP, DT)                                                                                          \
  template <> struct Ty<T> {                                                                                           \
    static constexpr const char *code = CODE;                                                                          \
    static constexpr size_t comp = COMP;                                                                               \
    static constexpr data_type_t dt = DT;                                                                              \
  };
TY(int8_t, "i1", 1, data_type_t::INT8)
TY(uint8_t, "u1", 1, data_type_t::UINT8)
TY(int16_t, "i2", 2, data_type_t::INT16)
TY(uint16_t, "u2", 2, data_type_t::UINT16)
TY(int32_t, "i4", 4, data_type_t::INT32)
TY(uint32_t, "u4", 4, data_type_t::UINT32)
TY(int64_t, "i8", 8, data_type_t::INT64)
TY(uint64_t, "u8", 8, data_type_t::UINT64)
TY(float, "f4", 4, data_type_t::FLOAT32)
TY(double, "f8", 8, data_type_t::FLOAT64)
TY(c64, "c8", 4, data_type_t::COMPLEX64)
TY(c128, "c16", 8, data_type_t::COMPLEX128)
TY(boolean, "b1", 1, data_type_t::BOOL)

static bool host_little() {
  uint16_t x = 1;
  return *(uint8_t *)&x == 1;
}
static bool is_big(endian_t e) { return e == endian_t::NATIVE ? !host_little() : e == endian_t::BIG; }

template <class T> std::string code(endian_t e) {
  return std::string(sizeof(T) == 1 ? "|" : is_big(e) ? ">" : "<") + Ty<T>::code;
}

// the bytes of the elements in byte order e
template <class T> std::string enc(const T *p, size_t n, endian_t e) {
  std::string r((const char *)p, n * sizeof(T));
  bool swap = is_big(e) != !host_little();
  size_t c = Ty<T>::comp;
  if (swap && c > 1)
    for (size_t i = 0; i + c <= r.size(); i += c)
      std::reverse(r.begin() + i, r.begin() + i + c);
  return r;
}

static std::string enc_u(const std::wstring *p, size_t n, endian_t e) {
  size_t m = 0;
  for (size_t i = 0; i < n; ++i)
    m = std::max(m, p[i].size());
  std::string r;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < m; ++j) {
      uint32_t v = j < p[i].size() ? (uint32_t)p[i][j] : 0;
      for (int b = 0; b < 4; ++b)
        r += (char)(v >> 8 * (is_big(e) ? 3 - b : b));
    }
  return r;
}

// ------------------------------------------------------------------ the NPY header
static std::string dict(const std::string &descr, bool fortran, const Shape &s) {
  std::string r = "{'descr': '" + descr + "', 'fortran_order': " + (fortran ? "True" : "False") + ", 'shape': (";
  for (size_t i = 0; i < s.size(); ++i)
    r += (i ? ", " : "") + std::to_string(s[i]);
  return r + (s.size() == 1 ? ",), }" : "), }");
}

static std::string header(const std::string &descr, bool fortran, const Shape &s) {
  std::string d = dict(descr, fortran, s);
  while ((d.size() + 11) % 64)
    d += ' ';
  d += '\n';
  std::string r("\x93NUMPY\x01\x00", 8);
  r += (char)(d.size() & 255);
  r += (char)(d.size() >> 8);
  return r + d;
}

static std::string raw_header(const std::string &d, int version = 1) {
  std::string r("\x93NUMPY", 6);
  r += (char)version;
  r += '\0';
  for (int i = 0; i < (version == 1 ? 2 : 4); ++i)
    r += (char)(d.size() >> 8 * i);
  return r + d;
}

static size_t product(const Shape &s) {
  size_t n = 1;
  for (size_t d : s)
    n *= d;
  return n;
}

// ------------------------------------------------------------------ CRC-32, bit by bit
static uint32_t crc_oracle(const std::string &b) {
  static uint32_t t[256];
  if (!t[1])
    for (uint32_t i = 0; i < 256; ++i) {
      uint32_t c = i;
      for (int k = 0; k < 8; ++k)
        c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1;
      t[i] = c;
    }
  uint32_t c = 0xFFFFFFFFu;
  for (unsigned char x : b)
    c = t[(c ^ x) & 255] ^ (c >> 8);
  return ~c;
}

// ------------------------------------------------------------------ raw DEFLATE decoder
struct Inflate {
  const std::string &in;
  size_t pos = 0;
  uint32_t buf = 0;
  int cnt = 0;
  std::string out;
  bool ok = true, starved = false;
  explicit Inflate(const std::string &s) : in(s) {}
  int bits(int n) {
    while (cnt < n) {
      if (pos >= in.size()) {
        ok = false;
        starved = true;
        return 0;
      }
      buf |= (uint32_t)(unsigned char)in[pos++] << cnt;
      cnt += 8;
    }
    int v = buf & ((1u << n) - 1);
    buf >>= n;
    cnt -= n;
    return v;
  }
  struct Huff {
    short count[16], symbol[288];
    // false if the lengths over-subscribe the code space or leave it incomplete
    bool build(const short *len, int n) {
      memset(count, 0, sizeof count);
      for (int i = 0; i < n; ++i)
        count[len[i]]++;
      int left = 1, used = n - count[0];
      bool over = false;
      for (int i = 1; i <= 15; ++i) {
        left = left * 2 - count[i];
        over |= left < 0;
        if (over)
          return false;
      }
      short offs[16];
      offs[1] = 0;
      for (int i = 1; i < 15; ++i)
        offs[i + 1] = offs[i] + count[i];
      for (int i = 0; i < n; ++i)
        if (len[i])
          symbol[offs[len[i]]++] = i;
      count[0] = 0;
      return left == 0 || (used <= 1 && count[1] == used);
    }
  };
  int decode(const Huff &h) {
    int code = 0, first = 0, index = 0;
    for (int len = 1; len <= 15; ++len) {
      code |= bits(1);
      if (!ok)
        return -1;
      int c = h.count[len];
      if (code - c < first)
        return h.symbol[index + (code - first)];
      index += c;
      first = (first + c) << 1;
      code <<= 1;
    }
    ok = false;
    return -1;
  }
  // decodes one complete stream; true if it is valid and uses all the input
  bool run() {
    static const short lb[] = {3,  4,  5,  6,  7,  8,  9,  10, 11,  13,  15,  17,  19,  23, 27,
                               31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
    static const short le[] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
    static const short db[] = {1,   2,   3,   4,   5,   7,    9,    13,   17,   25,   33,   49,   65,    97,    129,
                               193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
    static const short de[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
    int last = 0;
    while (ok && !last) {
      last = bits(1);
      int type = bits(2);
      if (!ok)
        break;
      if (type == 0) {
        buf = 0;
        cnt = 0;
        if (pos + 4 > in.size())
          return ok = false;
        unsigned len = (unsigned char)in[pos] | (unsigned char)in[pos + 1] << 8;
        unsigned nlen = (unsigned char)in[pos + 2] | (unsigned char)in[pos + 3] << 8;
        pos += 4;
        if (len != (~nlen & 0xFFFF) || pos + len > in.size())
          return ok = false;
        out.append(in, pos, len);
        pos += len;
        continue;
      }
      if (type == 3)
        return ok = false;
      Huff L, D;
      short len[320];
      if (type == 1) {
        for (int i = 0; i < 288; ++i)
          len[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
        L.build(len, 288);
        for (int i = 0; i < 30; ++i)
          len[i] = 5;
        D.build(len, 30);
      } else {
        static const short order[] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
        int nlen = bits(5) + 257, nd = bits(5) + 1, nc = bits(4) + 4;
        if (!ok || nlen > 286 || nd > 30)
          return ok = false;
        memset(len, 0, sizeof len);
        for (int i = 0; i < nc; ++i)
          len[order[i]] = bits(3);
        Huff C;
        if (!C.build(len, 19) || !ok)
          return ok = false;
        int i = 0;
        while (ok && i < nlen + nd) {
          int s = decode(C);
          if (s < 0)
            return ok = false;
          if (s < 16) {
            len[i++] = s;
            continue;
          }
          short prev = 0;
          int rep;
          if (s == 16) {
            if (!i)
              return ok = false;
            prev = len[i - 1];
            rep = 3 + bits(2);
          } else
            rep = s == 17 ? 3 + bits(3) : 11 + bits(7);
          if (i + rep > nlen + nd)
            return ok = false;
          while (rep--)
            len[i++] = prev;
        }
        short dl[32];
        memcpy(dl, len + nlen, nd * sizeof(short));
        if (!ok || !len[256] || !L.build(len, nlen) || !D.build(dl, nd))
          return ok = false;
      }
      while (ok) {
        int s = decode(L);
        if (s < 0)
          return ok = false;
        if (s < 256) {
          out += (char)s;
          continue;
        }
        if (s == 256)
          break;
        s -= 257;
        if (s >= 29)
          return ok = false;
        int n = lb[s] + bits(le[s]);
        int d = decode(D);
        if (d < 0 || d >= 30)
          return ok = false;
        size_t dist = db[d] + bits(de[d]);
        if (!ok || dist > out.size())
          return ok = false;
        while (n--)
          out += out[out.size() - dist];
      }
    }
    return ok && pos == in.size();
  }
};

// raw DEFLATE with stored blocks, and with fixed codes (literals only)
static std::string deflate_stored(const std::string &d) {
  std::string r;
  size_t p = 0;
  do {
    size_t n = std::min<size_t>(65535, d.size() - p);
    r += (char)(p + n == d.size());
    r += (char)(n & 255);
    r += (char)(n >> 8);
    r += (char)(~n & 255);
    r += (char)(~n >> 8);
    r.append(d, p, n);
    p += n;
  } while (p < d.size());
  return r;
}

static std::string deflate_fixed(const std::string &d) {
  std::string r;
  unsigned buf = 0;
  int cnt = 0;
  auto put = [&](unsigned v, int n) {
    for (int i = 0; i < n; ++i) {
      buf |= ((v >> i) & 1) << cnt;
      if (++cnt == 8) {
        r += (char)buf;
        buf = 0;
        cnt = 0;
      }
    }
  };
  auto code_ = [&](unsigned v, int n) {
    for (int i = n - 1; i >= 0; --i)
      put((v >> i) & 1, 1);
  };
  put(1, 1);
  put(1, 2);
  for (unsigned char c : d)
    if (c < 144)
      code_(0x30 + c, 8);
    else
      code_(0x190 + c - 144, 9);
  code_(0, 7);
  if (cnt)
    r += (char)buf;
  return r;
}

// a random raw DEFLATE stream of all block types, with matches, whose bytes the decoder above knows
struct RandomDeflate {
  Rng &r;
  std::string s;
  unsigned buf = 0;
  int cnt = 0;
  size_t made = 0; // bytes it stands for
  int more_l = 0, more_d = 0; // unused codes to declare beyond those there are, which is not valid above 286 and 30
  explicit RandomDeflate(Rng &r) : r(r) {}
  void put(unsigned v, int n) {
    for (int i = 0; i < n; ++i) {
      buf |= ((v >> i) & 1) << cnt;
      if (++cnt == 8) {
        s += (char)buf;
        buf = 0;
        cnt = 0;
      }
    }
  }
  void align() {
    if (cnt)
      put(0, 8 - cnt);
  }
  struct Code {
    std::vector<int> len;
    std::vector<unsigned> code;
    std::vector<int> used;
    void assign() {
      code.assign(len.size(), 0);
      unsigned c = 0;
      for (int l = 1; l <= 15; ++l) {
        for (size_t i = 0; i < len.size(); ++i)
          if (len[i] == l)
            code[i] = c++;
        c <<= 1;
      }
      used.clear();
      for (size_t i = 0; i < len.size(); ++i)
        if (len[i])
          used.push_back(i);
    }
  };
  void sym(const Code &c, int v) {
    for (int i = c.len[v] - 1; i >= 0; --i)
      put(c.code[v] >> i & 1, 1);
  }
  // a complete code for the given symbols, of at most `limit` bits
  Code tree(size_t n, std::vector<int> used, int limit) {
    Code c;
    c.len.assign(n, 0);
    std::vector<int> leaves{0};
    if (used.size() == 1)
      leaves[0] = 1;
    while (leaves.size() < used.size()) {
      size_t i = r.below(4) ? leaves.size() - 1 - r.below(std::min<size_t>(leaves.size(), 2)) : r.below(leaves.size());
      for (size_t k = 0; leaves[i] >= limit && k < leaves.size(); ++k)
        i = (i + 1) % leaves.size();
      ++leaves[i];
      leaves.push_back(leaves[i]);
    }
    for (size_t i = leaves.size(); i > 1; --i)
      std::swap(leaves[i - 1], leaves[r.below(i)]);
    for (size_t i = 0; i < used.size(); ++i)
      c.len[used[i]] = leaves[i];
    c.assign();
    return c;
  }
  void tokens(const Code &L, const Code &D, size_t n) {
    static const short lb[] = {3,  4,  5,  6,  7,  8,  9,  10, 11,  13,  15,  17,  19,  23, 27,
                               31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
    static const short le[] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
    static const short db[] = {1,   2,   3,   4,   5,   7,    9,    13,   17,   25,   33,   49,   65,    97,    129,
                               193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
    static const short de[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
    for (size_t i = 0; i < n; ++i) {
      int v = L.used[r.below(L.used.size())];
      if (v == 256)
        continue;
      if (v < 256) {
        sym(L, v);
        ++made;
        continue;
      }
      if (D.used.empty())
        continue;
      int d = D.used[r.below(D.used.size())];
      unsigned x = de[d] ? r.below(1u << de[d]) : 0;
      if ((size_t)db[d] > made)
        continue;
      while (db[d] + x > made)
        x /= 2;
      unsigned e = le[v - 257] ? r.below(1u << le[v - 257]) : 0;
      sym(L, v);
      put(e, le[v - 257]);
      sym(D, d);
      put(x, de[d]);
      made += lb[v - 257] + e;
    }
    sym(L, 256);
  }
  void block(bool last, size_t n) {
    int type = more_l || more_d ? 2 : r.below(3);
    put(last, 1);
    put(type, 2);
    if (type == 0) {
      align();
      n = std::min<size_t>(n, 65535);
      put(n, 16);
      put(~n & 0xFFFF, 16);
      for (size_t i = 0; i < n; ++i)
        s += (char)r.next();
      made += n;
      return;
    }
    Code L, D;
    if (type == 1) {
      for (int i = 0; i < 288; ++i)
        L.len.push_back(i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8);
      L.assign();
      L.used.resize(286);
      D.len.assign(30, 5);
      D.assign();
      return tokens(L, D, n);
    }
    std::vector<int> ul, ud;
    for (int i = 0; i < 256; ++i)
      if (!r.below(1 + r.below(20)))
        ul.push_back(i);
    ul.push_back(256);
    for (int i = 257; i < 286; ++i)
      if (!r.below(3))
        ul.push_back(i);
    for (int i = 0; i < 30; ++i)
      if (!r.below(3))
        ud.push_back(i);
    if (ul.size() < 2)
      ul.insert(ul.begin(), 65);
    L = tree(288, ul, 15);
    D = tree(32, ud, 15);
    int nl = more_l ? 286 + more_l : ul.back() + 1, nd = more_d ? 30 + more_d : ud.empty() ? 1 : ud.back() + 1;
    // run-length encoding of the lengths
    std::vector<int> lens(L.len.begin(), L.len.begin() + nl);
    lens.insert(lens.end(), D.len.begin(), D.len.begin() + nd);
    std::vector<std::array<int, 3>> out; // symbol, extra bits, their number
    for (size_t i = 0; i < lens.size();) {
      size_t k = 1;
      while (i + k < lens.size() && lens[i + k] == lens[i])
        ++k;
      if (!lens[i] && k >= 11 && r.below(8)) {
        k = std::min<size_t>(k, 138);
        out.push_back({18, int(k) - 11, 7});
      } else if (!lens[i] && k >= 3 && r.below(8)) {
        k = std::min<size_t>(k, 10);
        out.push_back({17, int(k) - 3, 3});
      } else if (i && lens[i] == lens[i - 1] && k >= 3 && r.below(8)) {
        k = std::min<size_t>(k, 6);
        out.push_back({16, int(k) - 3, 2});
      } else {
        k = 1;
        out.push_back({lens[i], 0, 0});
      }
      i += k;
    }
    std::vector<int> uc;
    for (int i = 0; i < 19; ++i)
      for (auto &o : out)
        if (o[0] == i) {
          uc.push_back(i);
          break;
        }
    Code C = tree(19, uc, 7);
    static const short order[] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
    int nc = 19;
    while (nc > 4 && !C.len[order[nc - 1]])
      --nc;
    put(nl - 257, 5);
    put(nd - 1, 5);
    put(nc - 4, 4);
    for (int i = 0; i < nc; ++i)
      put(C.len[order[i]], 3);
    for (auto &o : out) {
      sym(C, o[0]);
      put(o[1], o[2]);
    }
    tokens(L, D, n);
  }
  std::string stream(size_t blocks, size_t n) {
    for (size_t i = 0; i < blocks; ++i)
      block(i + 1 == blocks, r.below(n + 1));
    align();
    return s;
  }
};

// ------------------------------------------------------------------ ZIP archives
static uint64_t le(const std::string &b, size_t p, int n) {
  if (p + n > b.size())
    fail("archive is cut short at offset " + std::to_string(p));
  uint64_t v = 0;
  for (int i = 0; i < n; ++i)
    v |= (uint64_t)(unsigned char)b[p + i] << 8 * i;
  return v;
}
static std::string put(uint64_t v, int n) {
  std::string r;
  for (int i = 0; i < n; ++i)
    r += (char)(v >> 8 * i);
  return r;
}

struct Rec {
  std::string name;
  uint64_t flags = 0, method = 0, crc = 0, csize = 0, usize = 0, offset = 0, version = 20;
  std::string data; // stored bytes
};

static void zip64_of(const std::string &ex, Rec &r, bool cd, const std::string &what) {
  size_t p = 0;
  bool done = false;
  while (p < ex.size()) {
    uint64_t tag = le(ex, p, 2), n = le(ex, p + 2, 2);
    if (p + 4 + n > ex.size())
      fail(what + ": extra field length does not match its content");
    if (tag == 1) {
      size_t q = p + 4, end = p + 4 + n;
      for (uint64_t *f : {&r.usize, &r.csize, &r.offset}) {
        if (f == &r.offset && !cd)
          break;
        if (*f == 0xFFFFFFFF) {
          if (q + 8 > end)
            fail(what + ": ZIP64 field missing");
          *f = le(ex, q, 8);
          q += 8;
        }
      }
      if (q != end)
        fail(what + ": surplus ZIP64 data");
      done = true;
    }
    p += 4 + n;
  }
  if (!done && (r.usize == 0xFFFFFFFF || r.csize == 0xFFFFFFFF || (cd && r.offset == 0xFFFFFFFF)))
    fail(what + ": ZIP64 placeholder without ZIP64 field");
}

// parses an archive strictly: every byte is accounted for, the two directories agree
static std::vector<Rec> parse_zip(const std::string &z, const std::string &ctx) {
  std::vector<Rec> out;
  if (z.size() < 22)
    fail(ctx + ": no end record");
  size_t e = z.size() - 22;
  CHECK(le(z, e, 4) == 0x06054b50, ctx + ": end record signature");
  CHECK(le(z, e + 4, 2) == 0 && le(z, e + 6, 2) == 0, ctx + ": disk numbers");
  CHECK(le(z, e + 20, 2) == 0, ctx + ": archive comment length");
  uint64_t n = le(z, e + 8, 2), size = le(z, e + 12, 4), off = le(z, e + 16, 4);
  CHECK(le(z, e + 10, 2) == n, ctx + ": entry counts of the end record");
  CHECK(off + size == e, ctx + ": directory size and offset of the end record");
  size_t p = off, q = 0;
  for (uint64_t i = 0; i < n; ++i) {
    std::string w = ctx + ": directory record " + std::to_string(i);
    CHECK(le(z, p, 4) == 0x02014b50, w + " signature");
    Rec r;
    r.version = le(z, p + 6, 2);
    r.flags = le(z, p + 8, 2);
    r.method = le(z, p + 10, 2);
    r.crc = le(z, p + 16, 4);
    r.csize = le(z, p + 20, 4);
    r.usize = le(z, p + 24, 4);
    uint64_t nl = le(z, p + 28, 2), el = le(z, p + 30, 2), cl = le(z, p + 32, 2);
    CHECK(le(z, p + 34, 2) == 0, w + ": disk number");
    r.offset = le(z, p + 42, 4);
    CHECK(p + 46 + nl + el + cl <= e, w + ": lengths");
    r.name = z.substr(p + 46, nl);
    zip64_of(z.substr(p + 46 + nl, el), r, true, w);
    p += 46 + nl + el + cl;
    // local record
    std::string lw = ctx + ": local record " + std::to_string(i);
    CHECK(r.offset == q, w + ": offset " + std::to_string(r.offset) + ", the record starts at " + std::to_string(q));
    CHECK(le(z, q, 4) == 0x04034b50, lw + " signature");
    Rec l;
    l.flags = le(z, q + 6, 2);
    l.method = le(z, q + 8, 2);
    l.crc = le(z, q + 14, 4);
    l.csize = le(z, q + 18, 4);
    l.usize = le(z, q + 22, 4);
    uint64_t lnl = le(z, q + 26, 2), lel = le(z, q + 28, 2);
    CHECK(q + 30 + lnl + lel <= off, lw + ": lengths");
    l.name = z.substr(q + 30, lnl);
    zip64_of(z.substr(q + 30 + lnl, lel), l, false, lw);
    CHECK(l.name == r.name, lw + ": name " + l.name + " differs from directory name " + r.name);
    CHECK(l.method == r.method && l.crc == r.crc && l.csize == r.csize && l.usize == r.usize && l.flags == r.flags,
          lw + ": fields differ from the directory record");
    q += 30 + lnl + lel;
    CHECK(q + l.csize <= off, lw + ": compressed size");
    r.data = z.substr(q, l.csize);
    q += l.csize;
    out.push_back(r);
  }
  CHECK(q == off, ctx + ": directory does not follow the last local record");
  CHECK(p == e, ctx + ": directory records do not fill the directory");
  return out;
}

static std::string unpack(const Rec &r, const std::string &ctx) {
  std::string d;
  if (r.method == 0)
    d = r.data;
  else if (r.method == 8) {
    Inflate f(r.data);
    if (!f.run())
      fail(ctx + ": entry " + r.name + " is not one complete DEFLATE stream");
    d = f.out;
  } else
    fail(ctx + ": method of " + r.name);
  CHECK(d.size() == r.usize, ctx + ": uncompressed size of " + r.name);
  CHECK(crc_oracle(d) == r.crc, ctx + ": CRC-32 of " + r.name);
  return d;
}

// builder with every field free, for the reading side
struct Build {
  struct E {
    Rec cd, local;
    std::string cdx, localx; // extra fields
    std::string note;        // the entry's comment
  };
  std::vector<E> es;
  std::string comment; // of the archive
  E &add(const std::string &name, const std::string &data, int method = 0) {
    E e;
    e.cd.name = name;
    e.cd.method = method;
    e.cd.crc = crc_oracle(data);
    e.cd.usize = data.size();
    e.cd.data = method == 8 ? deflate_fixed(data) : data;
    e.cd.csize = e.cd.data.size();
    e.local = e.cd;
    es.push_back(e);
    return es.back();
  }
  std::string bytes() {
    std::string z, cd;
    for (E &e : es) {
      uint64_t off = z.size();
      Rec &l = e.local, &c = e.cd;
      z += put(0x04034b50, 4) + put(l.version, 2) + put(l.flags, 2) + put(l.method, 2) + put(0x00210000, 4) + put(l.crc, 4) +
           put(l.csize, 4) + put(l.usize, 4) + put(l.name.size(), 2) + put(e.localx.size(), 2) + l.name + e.localx + l.data;
      uint64_t o = c.offset ? c.offset : off;
      std::string x = e.cdx;
      size_t at = x.find("@OFFSET@");
      if (at != std::string::npos) {
        x.replace(at, 8, put(off, 8));
        o = 0xFFFFFFFF;
      }
      cd += put(0x02014b50, 4) + put(20, 2) + put(c.version, 2) + put(c.flags, 2) + put(c.method, 2) + put(0x00210000, 4) +
            put(c.crc, 4) + put(c.csize, 4) + put(c.usize, 4) + put(c.name.size(), 2) + put(x.size(), 2) + put(e.note.size(), 2) +
            put(0, 2) + put(0, 2) + put(0x01800000, 4) + put(o, 4) + c.name + x + e.note;
    }
    return z + cd + put(0x06054b50, 4) + put(0, 4) + put(es.size(), 2) + put(es.size(), 2) + put(cd.size(), 4) +
           put(z.size(), 4) + put(comment.size(), 2) + comment;
  }
};

// ------------------------------------------------------------------ files
static std::string scratch(const std::string &n) { return SCRATCH + "/" + n; }
static void spit(const std::string &p, const std::string &b) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f))
    fail("harness: cannot write " + p);
}
static std::string slurp(const std::string &p) {
  FILE *f = fopen(p.c_str(), "rb");
  if (!f)
    fail("file " + p + " was not written");
  std::string r;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0)
    r.append(b, n);
  fclose(f);
  return r;
}

// ------------------------------------------------------------------ random values
template <class T> static void fill(T *p, size_t n, Rng &r) {
  unsigned char *c = (unsigned char *)p;
  for (size_t i = 0; i < n * sizeof(T); ++i)
    c[i] = (unsigned char)r.next();
}
template <> void fill<boolean>(boolean *p, size_t n, Rng &r) {
  for (size_t i = 0; i < n; ++i)
    p[i].value = r.next() & 1;
}
static void fill(std::wstring *p, size_t n, Rng &r) {
  static const uint32_t cps[] = {0x41, 0x7F, 0xE9, 0x3A9, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0, 0x100, 0xD7FF};
  for (size_t i = 0; i < n; ++i) {
    p[i].clear();
    size_t m = r.below(7);
    for (size_t j = 0; j < m; ++j)
      p[i] += (wchar_t)cps[r.below(11)];
    if (m)
      p[i].back() = (wchar_t)(0x42 + r.below(50)); // trailing zeros cannot be represented
  }
}

template <class T> static bool same(const T *a, const T *b, size_t n) { return n == 0 || memcmp(a, b, n * sizeof(T)) == 0; }
static bool same(const std::wstring *a, const std::wstring *b, size_t n) {
  for (size_t i = 0; i < n; ++i)
    if (a[i] != b[i])
      return false;
  return true;
}
template <class T> static bool equal_tensors(const tensor<T> &a, const tensor<T> &b) {
  return a.shape() == b.shape() && a.fortran_order() == b.fortran_order() && a.size() == b.size() &&
         same(a.data(), b.data(), a.size());
}

// ------------------------------------------------------------------ main
static void run_property();
int main(int argc, char **argv) {
  PROP = argc > 1 ? argv[1] : "";
  SEED = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  DEEP = argc > 3 && !strcmp(argv[3], "thorough");
  SCRATCH = argc > 4 ? argv[4] : ".";
  OUT = fdopen(dup(1), "w");
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  std::string o;
  try {
    run_property();
  } catch (const std::exception &e) {
    fail(std::string("an exception escaped: ") + e.what());
  } catch (...) {
    fail("a non-standard exception escaped");
  }
  fprintf(OUT, "OK cases=%ld\n", CASES);
  fflush(OUT);
  quit(0);
}
#endif
