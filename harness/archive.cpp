// C10 structure, C11 round trip, C12 integrity, C13 closing, C14 names, C15 CRC-32, C16 deflate, C17 limits, C22 history
#include "common.h"
#ifndef NO_INTERNALS
#include "zip.h"
#else
// the internal functions are not as expected: only what the archives show is checked
namespace npy {
static uint32_t npy_crc32(const std::string &d) { return crc_oracle(d); }
static std::string npy_deflate(std::string &&d) { return deflate_fixed(d); }
static std::string npy_inflate(std::string &&c) {
  Inflate f(c);
  if (!f.run())
    throw std::runtime_error("invalid");
  return f.out;
}
} // namespace npy
#endif
using npy::compression_method_t;
using npy::npzfilereader;
using npy::npzfilewriter;
using npy::npzstringreader;
using npy::npzstringwriter;
static const compression_method_t METHODS[] = {compression_method_t::STORED, compression_method_t::DEFLATED};

// a tensor of some type together with its bytes
struct Any {
  std::string npy;                 // the bytes save gives
  std::function<void(npzstringwriter &, const std::string &)> ws;
  std::function<void(npzfilewriter &, const std::string &)> wf;
  std::function<bool(npzstringreader &, const std::string &)> rs;
  std::function<bool(npzfilereader &, const std::string &)> rf;
};
template <class T> static Any any(const tensor<T> &t, endian_t e) {
  Any a;
  auto p = std::make_shared<tensor<T>>(t);
  std::ostringstream o;
  npy::save(o, *p, e);
  a.npy = o.str();
  a.ws = [p](npzstringwriter &w, const std::string &n) { w.write(n, *p); };
  a.wf = [p](npzfilewriter &w, const std::string &n) { w.write(n, *p); };
  a.rs = [p](npzstringreader &r, const std::string &n) { return equal_tensors(*p, r.template read<tensor<T>>(n)); };
  a.rf = [p](npzfilereader &r, const std::string &n) { return equal_tensors(*p, r.template read<tensor<T>>(n)); };
  return a;
}
template <class T> static Any gen(Rng &r, endian_t e, size_t n) {
  Shape s;
  switch (r.below(4)) {
  case 0: s = {n}; break;
  case 1: s = {n, 2}; break;
  case 2: s = {2, n, 1}; break;
  default: s = n == 1 ? Shape{} : Shape{n};
  }
  tensor<T> t(s, r.below(2));
  fill(t.data(), t.size(), r);
  if (r.below(2))
    for (size_t i = 1; i < t.size(); ++i)
      t.data()[i] = t.data()[i / 3]; // compressible
  return any(t, e);
}
static Any gen_any(Rng &r, endian_t e, size_t n) {
  switch (r.below(8)) {
  case 0: return gen<uint8_t>(r, e, n);
  case 1: return gen<int16_t>(r, e, n);
  case 2: return gen<int32_t>(r, e, n);
  case 3: return gen<double>(r, e, n);
  case 4: return gen<c64>(r, e, n);
  case 5: return gen<boolean>(r, e, n);
  case 6: return gen<uint64_t>(r, e, n);
  default: return gen<std::wstring>(r, e, n > 5000 ? 5000 : n);
  }
}
static std::string with_npy(const std::string &n) {
  return n.size() >= 4 && n.compare(n.size() - 4, 4, ".npy") == 0 ? n : n + ".npy";
}

struct Arch {
  std::vector<std::string> names; // as given
  std::vector<Any> items;
  std::string bytes;
};

static Arch make(Rng &r, size_t n, compression_method_t m, endian_t e, bool file, size_t maxn, int close_how = 0) {
  Arch a;
  static const char *odd[] = {"", "a", ".npy", "x.npy", "npy", "a.npz", "dir/b", "sp ace", "\xC3\xA9t\xC3\xA9", "UPPER", "a.npy.npy", "a.NPY", "b.np", "Xnpy"};
  std::string p = scratch("mk.npz");
  npzstringwriter *ws = file ? nullptr : new npzstringwriter(m, e);
  npzfilewriter *wf = file ? new npzfilewriter(p, m, e) : nullptr;
  std::set<std::string> used;
  for (size_t i = 0; i < n; ++i) {
    std::string nm = i < 14 && r.below(2) ? odd[i] : r.below(4) ? "t" + std::to_string(r.below(100000)) : std::string(1 + r.below(300), 'n') + std::to_string(i);
    if (r.below(6) == 0) { // any bytes at all
      nm.assign(r.below(12), 'x');
      for (char &c : nm)
        c = r.below(3) ? (char)r.next() : "\0 .nN\xFF"[r.below(6)];
    }
    if (!used.insert(with_npy(nm)).second)
      nm = "u" + std::to_string(i);
    used.insert(with_npy(nm));
    a.names.push_back(nm);
    a.items.push_back(gen_any(r, e, r.below(5) ? r.below(40) : r.below(maxn)));
    if (file)
      a.items.back().wf(*wf, nm);
    else
      a.items.back().ws(*ws, nm);
  }
  if (file) {
    if (close_how != 1)
      wf->close();
    if (close_how == 2)
      wf->close();
    delete wf;
    a.bytes = slurp(p);
    unlink(p.c_str());
  } else {
    ws->close();
    if (close_how == 2)
      ws->close();
    a.bytes = ws->str();
    delete ws;
  }
  return a;
}

static void check_structure(const Arch &a, compression_method_t m, const std::string &ctx) {
  std::vector<Rec> rs = parse_zip(a.bytes, ctx);
  CHECK(rs.size() == a.names.size(), ctx + ": number of entries");
  for (size_t i = 0; i < rs.size(); ++i) {
    CHECK(rs[i].name == with_npy(a.names[i]), ctx + ": entry " + std::to_string(i) + " is named " + rs[i].name + " written as " + a.names[i]);
    CHECK(rs[i].method == (uint64_t)m, ctx + ": method of " + rs[i].name);
    std::string d = unpack(rs[i], ctx);
    CHECK(d == a.items[i].npy, ctx + ": content of " + rs[i].name);
    CHECK(rs[i].version <= 45, ctx + ": version");
  }
}

static void c10() {
  Rng r(SEED * 41);
  for (int k = 0; k < (DEEP ? 400 : 60); ++k)
    for (auto m : METHODS) {
      size_t n = k < 16 ? k : r.below(30);
      endian_t e = k % 3 == 0 ? endian_t::NATIVE : k % 3 == 1 ? endian_t::BIG : endian_t::LITTLE;
      Arch a = make(r, n, m, e, k % 2, 3000, k % 3);
      check_structure(a, m, "archive of " + std::to_string(n) + " entries, method " + std::to_string((int)m) + (k % 2 ? " (file)" : " (string)"));
    }
  // many entries: counts and offsets beyond one and two bytes
  for (size_t n : {255, 256, 257, 300, 1000, 4100}) {
    npzstringwriter w;
    tensor<uint8_t> t(Shape{1});
    std::vector<std::string> names;
    for (size_t i = 0; i < n; ++i)
      w.write("e" + std::to_string(i), t);
    w.close();
    auto rs = parse_zip(w.str(), "archive of " + std::to_string(n) + " entries");
    CHECK(rs.size() == n, "number of entries of " + std::to_string(n));
    for (size_t i = 0; i < n; ++i)
      CHECK(rs[i].name == "e" + std::to_string(i) + ".npy", "order of entries");
  }
  // big entries: sizes beyond two and three bytes
  for (size_t n : {65000, 65536, 70000, 16777216, 17000000})
    for (auto m : METHODS) {
      if (m == compression_method_t::DEFLATED && n > 100000 && !DEEP)
        continue;
      npzstringwriter w(m);
      tensor<uint8_t> t(Shape{n});
      t.data()[n / 2] = 77;
      tensor<uint8_t> s(Shape{3});
      w.write("big", t);
      w.write("small", s);
      w.close();
      auto rs = parse_zip(w.str(), "archive with " + std::to_string(n) + " bytes");
      CHECK(rs.size() == 2 && rs[0].usize == n + 128, "size of a big entry");
      std::string d = unpack(rs[0], "big entry");
      CHECK(d == header("|u1", false, {n}) + std::string((const char *)t.data(), n), "content of a big entry");
    }
  // duplicates are stored as they are written
  npzstringwriter w;
  tensor<uint8_t> t(Shape{4}), u(Shape{5});
  w.write("d", t);
  w.write("d", u);
  w.close();
  auto rs = parse_zip(w.str(), "duplicate names");
  CHECK(rs.size() == 2 && rs[0].name == "d.npy" && rs[1].name == "d.npy" && rs[1].usize == 133, "duplicate names");
  npzstringwriter empty;
  empty.close();
  CHECK(parse_zip(empty.str(), "empty archive").empty(), "empty archive");
}

template <class R> static void check_read(R &rd, const Arch &a, const std::string &ctx, Rng &r, bool file) {
  std::vector<std::string> want;
  for (auto &n : a.names)
    want.push_back(with_npy(n));
  std::sort(want.begin(), want.end());
  CHECK(rd.keys() == want, ctx + ": keys");
  for (auto &w : want)
    CHECK(rd.contains(w), ctx + ": contains " + w);
  for (const char *no : {"missing", "missing.npy", "", "t", "zzz.npy"})
    if (!std::binary_search(want.begin(), want.end(), std::string(no)))
      CHECK(!rd.contains(no), ctx + ": contains " + no);
  for (int round = 0; round < 2; ++round)
    for (size_t k = 0; k < a.names.size(); ++k) {
      size_t i = round ? r.below(a.names.size()) : k;
      std::string n = r.below(2) ? a.names[i] : with_npy(a.names[i]);
      // an exact match of another entry would win
      if (n != with_npy(n) && std::binary_search(want.begin(), want.end(), n))
        n = with_npy(n);
      bool ok;
      if constexpr (std::is_same<R, npzstringreader>::value)
        ok = a.items[i].rs(rd, n);
      else
        ok = a.items[i].rf(rd, n);
      CHECK(ok, ctx + ": tensor read under " + n + " differs");
    }
  CHECK(rd.keys() == want, ctx + ": keys after reading");
}

static void c11() {
  Rng r(SEED * 43);
  for (int k = 0; k < (DEEP ? 400 : 60); ++k)
    for (auto m : METHODS) {
      size_t n = k < 16 ? k : r.below(30);
      endian_t e = k % 3 == 0 ? endian_t::NATIVE : k % 3 == 1 ? endian_t::BIG : endian_t::LITTLE;
      Arch a = make(r, n, m, e, k % 2, 3000);
      std::string ctx = "archive of " + std::to_string(n) + " entries, method " + std::to_string((int)m);
      npzstringreader rs(a.bytes);
      check_read(rs, a, ctx, r, false);
      std::string p = scratch("r.npz");
      spit(p, a.bytes);
      {
        npzfilereader rf(p);
        CHECK(rf.is_open(), ctx + ": open");
        check_read(rf, a, ctx + " (file)", r, true);
        npzfilereader r2(p.c_str()), r3{std::filesystem::path(p)};
        CHECK(r2.keys() == rs.keys() && r3.keys() == rs.keys(), ctx + ": readers on other path types");
      }
      unlink(p.c_str());
    }
  // large entries, both methods, many entries
  for (auto m : METHODS) {
    Arch a;
    npzstringwriter w(m, endian_t::BIG);
    for (size_t n : {size_t(1), size_t(65536), size_t(1) << 20, (size_t(1) << 20) + 1, size_t(3000000), (size_t(1) << 20) - 128}) {
      tensor<uint8_t> t(Shape{n});
      for (size_t i = 0; i < n; ++i)
        t.data()[i] = (i * i >> 7) ^ (i % 13 ? 0 : i);
      a.names.push_back("n" + std::to_string(n));
      a.items.push_back(any(t, endian_t::BIG));
      a.items.back().ws(w, a.names.back());
    }
    for (size_t i = 0; i < 1000; ++i) {
      tensor<int16_t> t(Shape{i % 5});
      a.names.push_back("m" + std::to_string(i));
      a.items.push_back(any(t, endian_t::BIG));
      a.items.back().ws(w, a.names.back());
    }
    w.close();
    a.bytes = w.str();
    npzstringreader rd(std::string(a.bytes));
    check_read(rd, a, "large archive", r, false);
  }
  // writers with other path types
  for (int k = 0; k < 2; ++k) {
    std::string p = scratch("w.npz");
    tensor<float> t(Shape{3});
    t(1) = 2.5f;
    {
      if (k) {
        npzfilewriter w(p.c_str());
        w.write("t", t);
      } else {
        npzfilewriter w{std::filesystem::path(p)};
        w.write("t", t);
      }
    }
    npzfilereader rd(p);
    CHECK((equal_tensors(t, rd.read<tensor<float>>("t"))), "other path types");
    CHECK((equal_tensors(t, rd.read<float, tensor>("t"))), "read with a template");
    unlink(p.c_str());
  }
  // archives from elsewhere: directory not in file order, gaps, extra data
  for (int meth : {0, 8}) {
    Build z;
    tensor<int32_t> t1(Shape{2}), t2(Shape{3});
    t1(0) = 5;
    t2(2) = -7;
    Any a1 = any(t1, endian_t::LITTLE), a2 = any(t2, endian_t::BIG);
    z.add("b.npy", a1.npy, meth);
    z.add("a.npy", a2.npy, meth);
    npzstringreader rd(z.bytes());
    CHECK(rd.keys() == (std::vector<std::string>{"a.npy", "b.npy"}), "keys of a foreign archive");
    CHECK(a1.rs(rd, "b") && a2.rs(rd, "a") && a1.rs(rd, "b.npy"), "tensors of a foreign archive");
  }
}

template <class F> static void must_throw(F f, const std::string &ctx) {
  std::string oc = outcome(f);
  CHECK(throws_std(oc), ctx + ": outcome '" + oc + "'");
}

// reading or peeking "v" must throw (opening may throw as well)
static void integrity(const std::string &z, const std::string &ctx) {
  must_throw([&] {
    npzstringreader r(z);
    r.read<tensor<uint8_t>>("v");
  }, ctx + " (read)");
  must_throw([&] {
    npzstringreader r(z);
    r.peek("v");
  }, ctx + " (peek)");
  std::string p = scratch("i.npz");
  spit(p, z);
  must_throw([&] {
    npzfilereader r(p);
    r.read<tensor<uint8_t>>("v.npy");
  }, ctx + " (file read)");
  must_throw([&] {
    npzfilereader r(p);
    r.peek("v.npy");
  }, ctx + " (file peek)");
  unlink(p.c_str());
}

static void c12() {
  Rng r(SEED * 47);
  std::string data = header("|u1", false, {50});
  for (int i = 0; i < 50; ++i)
    data += (char)(i * 5 + 1);
  for (int meth : {0, 8}) {
    std::string mc = meth ? "deflated" : "stored";
    auto base = [&](std::function<void(Build &)> f) {
      Build z;
      z.add("first.npy", header("|u1", false, {1}) + "x", meth);
      z.add("v.npy", data, meth);
      z.add("last.npy", header("|u1", false, {1}) + "y", meth);
      f(z);
      return z.bytes();
    };
    {
      npzstringreader rd(base([](Build &) {}));
      CHECK(rd.read<tensor<uint8_t>>("v").size() == 50, "the undamaged archive reads");
    }
    // every disagreement between the two records, on either side
    for (int side = 0; side < 2; ++side) {
      auto rec = [side](Build &z) -> Rec & { return side ? z.es[1].local : z.es[1].cd; };
      std::string w = mc + (side ? ": local " : ": directory ");
      for (int bit = 0; bit < 32; ++bit) {
        integrity(base([&](Build &z) { rec(z).crc ^= uint64_t(1) << bit; }), w + "CRC bit " + std::to_string(bit));
        if (bit < 20 || side) { // sizes too large to allocate make no difference
          integrity(base([&](Build &z) { rec(z).usize ^= uint64_t(1) << bit; }), w + "uncompressed size bit " + std::to_string(bit));
          integrity(base([&](Build &z) { rec(z).csize ^= uint64_t(1) << bit; }), w + "compressed size bit " + std::to_string(bit));
        }
        if (bit < 16)
          integrity(base([&](Build &z) { rec(z).method ^= 1 << bit; }), w + "method bit " + std::to_string(bit));
      }
      if (side) {
        integrity(base([&](Build &z) { rec(z).name = "w.npy"; }), w + "name");
        integrity(base([&](Build &z) { rec(z).name = "v.npz"; }), w + "name");
        integrity(base([&](Build &z) { rec(z).name = "V.npy"; }), w + "name");
        integrity(base([&](Build &z) { rec(z).name = "v.npyx"; }), w + "longer name");
        integrity(base([&](Build &z) { rec(z).name = "v.np"; }), w + "shorter name");
        integrity(base([&](Build &z) { rec(z).name = ""; }), w + "empty name");
        integrity(base([&](Build &z) { rec(z).name = std::string("v.npy\0", 6); }), w + "name with a zero");
      }
    }
    // sizes that disagree only beyond their low 32 bits, which are in ZIP64 fields
    for (int field = 0; field < 3; ++field)
      for (int bit = 32; bit < 64; ++bit)
        integrity(base([&](Build &z) {
          auto &e = z.es[1];
          uint64_t add = uint64_t(1) << bit, us = e.cd.usize, cs = e.cd.csize;
          std::string x = put(us + (field == 0 ? add : 0), 8) + put(cs, 8);
          std::string lx = put(us + (field == 1 ? add : 0), 8) + put(cs + (field == 2 ? add : 0), 8);
          e.cd.usize = e.cd.csize = e.local.usize = e.local.csize = 0xFFFFFFFF;
          e.cdx = put(1, 2) + put(x.size(), 2) + x;
          e.localx = put(1, 2) + put(lx.size(), 2) + lx;
        }), mc + ": 64-bit size " + std::to_string(field) + " bit " + std::to_string(bit));
    // both records agree, the data does not
    for (int bit = 0; bit < 32; ++bit)
      integrity(base([&](Build &z) { z.es[1].cd.crc ^= uint64_t(1) << bit; z.es[1].local.crc ^= uint64_t(1) << bit; }), mc + ": both CRC bit " + std::to_string(bit));
    integrity(base([&](Build &z) { z.es[1].cd.crc = z.es[1].local.crc = 0; }), mc + ": CRC zero in both");
    integrity(base([&](Build &z) { z.es[1].cd.crc = z.es[1].local.crc = 0xFFFFFFFF; }), mc + ": CRC all ones in both");
    for (size_t i = 0; i < data.size(); i += (i < 128 ? 9 : 1)) {
      std::string d2 = data;
      d2[i] ^= 1 << (i % 8);
      integrity(base([&](Build &z) {
        z.es[1].local.data = meth ? deflate_fixed(d2) : d2;
        z.es[1].local.csize = z.es[1].cd.csize = z.es[1].local.data.size();
      }), mc + ": data byte " + std::to_string(i) + " changed");
    }
    // swapped, shifted, zeroed data with the same length
    std::string rev(data.rbegin(), data.rend());
    for (std::string d2 : {rev, std::string(data.size(), '\0'), data.substr(1) + data[0]})
      integrity(base([&](Build &z) {
        z.es[1].local.data = meth ? deflate_fixed(d2) : d2;
        z.es[1].local.csize = z.es[1].cd.csize = z.es[1].local.data.size();
      }), mc + ": data replaced");
    // signatures
    std::string good = base([](Build &) {});
    size_t lo = good.find("PK\3\4", 5), cd = good.find("PK\1\2"), cd2 = good.find("PK\1\2", cd + 4), en = good.rfind("PK\5\6");
    for (size_t at : {lo, cd, cd2, en})
      for (int i = 0; i < 4; ++i)
        for (int b = 0; b < 8; ++b) {
          std::string z = good;
          z[at + i] ^= 1 << b;
          integrity(z, mc + ": signature byte " + std::to_string(i) + " of the record at " + std::to_string(at));
        }
    for (int v = 46; v < 400; v += 13) {
      integrity(base([&](Build &z) { z.es[1].local.version = v; }), mc + ": local version " + std::to_string(v));
      integrity(base([&](Build &z) { z.es[1].cd.version = v; }), mc + ": directory version " + std::to_string(v));
    }
    // truncation anywhere
    for (size_t n = 0; n < good.size(); n += (n > good.size() - 40 || n < 40 ? 1 : 3))
      integrity(good.substr(0, n), mc + ": archive cut to " + std::to_string(n));
    // offsets that do not lead to the record
    for (uint64_t o : {1, 3, 100, 1000, 100000})
      integrity(base([&](Build &z) { z.es[1].cd.offset = o; }), mc + ": wrong offset");
    integrity(base([&](Build &z) { z.es[1].cd.offset = lo + 1; }), mc + ": offset one too large");
    // the other entries are still readable
    {
      std::string z = base([&](Build &b) { b.es[1].cd.crc ^= 1; });
      npzstringreader rd(z);
      CHECK(throws_std(outcome([&] { rd.read<tensor<uint8_t>>("v"); })), "damaged entry");
      CHECK(rd.read<tensor<uint8_t>>("first").values()[0] == 'x' && rd.read<tensor<uint8_t>>("last").values()[0] == 'y', "undamaged entries of a damaged archive");
    }
  }
  // stored data cut inside the file while both sizes agree
  {
    std::string d = data;
    Build z;
    z.add("v.npy", d, 0);
    z.es[0].cd.csize = z.es[0].local.csize = d.size() + 2000;
    z.es[0].cd.usize = z.es[0].local.usize = d.size() + 2000;
    integrity(z.bytes(), "sizes beyond the end of the archive");
  }
  // a CRC of data padded with zeros must not be accepted either
  {
    std::string d = data + std::string(3000, '\0');
    Build z;
    z.add("v.npy", d, 0);
    z.es[0].local.data = data;
    integrity(z.bytes(), "stored data shorter than stated, zeros missing");
  }
  // the data of an entry runs over the end of the archive, and its CRC is that of the data filled up with zeros
  for (size_t k : {0, 1, 5, 100, 70000}) {
    std::string nm = "v.npy", end, d;
    size_t cdl = 46 + nm.size();
    end = put(0x06054b50, 4) + put(0, 4) + put(1, 2) + put(1, 2) + put(cdl, 4) + put(0, 4) + put(0, 2);
    d = header("|u1", false, {end.size() + k}) + end;
    std::string full = d + std::string(k, '\0');
    std::string shared = put(20, 2) + put(0, 2) + put(0, 2) + put(0x00210000, 4) + put(crc_oracle(full), 4) + put(full.size(), 4) +
                         put(full.size(), 4) + put(nm.size(), 2) + put(0, 2);
    std::string z = put(0x02014b50, 4) + put(20, 2) + shared + put(0, 2) + put(0, 2) + put(0, 2) + put(0x01800000, 4) + put(cdl, 4) + nm +
                    put(0x04034b50, 4) + shared + nm + d;
    if (k)
      integrity(z, "entry data of which the last " + std::to_string(k) + " bytes are missing");
    else {
      npzstringreader rd(z);
      CHECK(rd.read<tensor<uint8_t>>("v").size() == end.size(), "entry data up to the end of the archive");
    }
  }
  // uncompressed size that disagrees with the data although both records agree on it: the CRC covers the true data
  // random corruption of single bytes of written archives: either an exception or the true content
  tensor<uint8_t> t(Shape{64});
  for (int i = 0; i < 64; ++i)
    t.data()[i] = i * 3;
  for (auto m : METHODS) {
    npzstringwriter w(m);
    w.write("v", t);
    w.close();
    std::string good = w.str();
    for (size_t i = 0; i < good.size(); ++i)
      for (int b = 0; b < 8; ++b) {
        std::string z = good;
        z[i] ^= 1 << b;
        struct rlimit lim = {0, 0};
        (void)lim;
        try {
          npzstringreader rd(z);
          for (auto &k : rd.keys()) {
            try {
              tensor<uint8_t> u = rd.read<tensor<uint8_t>>(k);
              CHECK(equal_tensors(t, u), "byte " + std::to_string(i) + " bit " + std::to_string(b) + " flipped: other data was returned");
            } catch (const std::exception &) {
            }
          }
        } catch (const std::exception &) {
        }
      }
  }
}

static void c13() {
  Rng r(SEED * 53);
  tensor<int32_t> t(Shape{3});
  t(1) = 4;
  for (auto m : METHODS)
    for (size_t n : {0, 1, 2, 7}) {
      std::string ctx = "writer with " + std::to_string(n) + " entries";
      npzstringwriter w(m);
      for (size_t i = 0; i < n; ++i)
        w.write("e" + std::to_string(i), t);
      std::string before = w.str();
      w.close();
      std::string z = w.str();
      CHECK(z.size() > before.size() && z.compare(0, before.size(), before) == 0, ctx + ": closing appends the directory");
      CHECK(parse_zip(z, ctx).size() == n, ctx + ": entries");
      for (int i = 0; i < 3; ++i) {
        w.close();
        CHECK(w.str() == z, ctx + ": closing again changes the archive");
        for (const char *nm : {"late", "e0", "late.npy", ""}) {
          CHECK(outcome([&] { w.write(nm, t); }) == "runtime_error", ctx + ": write after close");
          CHECK(w.str() == z, ctx + ": write after close changes the archive");
        }
      }
      w.close();
      CHECK(w.str() == z, ctx + ": archive after refused writes");
      for (int how = 0; how < 5; ++how) {
        std::string p = scratch("c13.npz");
        {
          npzfilewriter f(p, m);
          CHECK(f.is_open(), ctx + ": open");
          for (size_t i = 0; i < n; ++i)
            f.write("e" + std::to_string(i), t);
          if (how) {
            f.close();
            CHECK(slurp(p) == z, ctx + ": closed file");
            if (how >= 2)
              f.close();
            if (how >= 3) {
              CHECK(outcome([&] { f.write("late", t); }) == "runtime_error", ctx + ": file write after close");
              CHECK(slurp(p) == z, ctx + ": file after a refused write");
            }
            if (how == 4)
              f.close();
          }
        }
        CHECK(slurp(p) == z, ctx + ": file after destruction, way " + std::to_string(how));
        unlink(p.c_str());
      }
    }
  // a refused write (header too long, for instance) does not spoil the archive
  {
    npzstringwriter w;
    w.write("a", t);
    tensor<uint8_t> bad(Shape(30000, 1));
    CHECK(throws_std(outcome([&] { w.write("bad", bad); })), "tensor with a header that cannot be written");
    w.write("b", t);
    w.close();
    auto rs = parse_zip(w.str(), "archive after a refused tensor");
    CHECK(rs.size() == 2 && rs[0].name == "a.npy" && rs[1].name == "b.npy", "entries after a refused tensor");
  }
  // exception unwinding finishes the file
  {
    std::string p = scratch("c13b.npz");
    try {
      npzfilewriter f(p);
      f.write("a", t);
      throw 1;
    } catch (int) {
    }
    CHECK(parse_zip(slurp(p), "file after unwinding").size() == 1, "file after unwinding");
    unlink(p.c_str());
  }
}

static void c14() {
  tensor<int32_t> t(Shape{3});
  std::vector<std::string> names = {"", "a", "ab", "abc", "abcd", "abcde", ".npy", "a.npy", ".npy.npy", "a.npy.npy", "npy", "anpy", "a.np", "a.npyx", "x.npz", "a.NPY", "a.Npy",
                                    ".np", "y", "py", "yy.npy ", " .npy", "a.npy\n", "ypn.", "xypn.", "n.npy/", "dir/a.npy", "dir/a", "\xE9.npy", std::string("z\0.npy", 6),
                                    std::string("z.npy\0", 6), std::string(300, 'q'), std::string(300, 'q') + ".npy", std::string(65531, 'k'), std::string(65531, 'k') + ".npy", "..npy", "a..npy", ".npyy"};
  Rng r(SEED);
  std::string al = ".npyNPYax";
  for (int i = 0; i < (DEEP ? 3000 : 300); ++i) {
    std::string s(r.below(8), ' ');
    for (char &c : s)
      c = al[r.below(al.size())];
    names.push_back(s);
    names.push_back(s + ".npy");
  }
  for (auto &n : names) {
    std::string ctx = "name '" + (n.size() > 40 ? std::to_string(n.size()) + " characters" : n) + "'";
    std::string st = with_npy(n);
    npzstringwriter w;
    w.write(n, t);
    w.close();
    auto rs = parse_zip(w.str(), ctx);
    CHECK(rs.size() == 1 && rs[0].name == st, ctx + " is stored as '" + rs[0].name + "'");
    npzstringreader rd(w.str());
    CHECK(rd.keys() == std::vector<std::string>{st}, ctx + ": keys");
    std::string bare = st.substr(0, st.size() - 4);
    CHECK(rd.read<tensor<int32_t>>(st).size() == 3 && rd.peek(st).shape == Shape{3}, ctx + ": found under the stored name");
    CHECK(rd.read<tensor<int32_t>>(bare).size() == 3 && rd.peek(bare).shape == Shape{3}, ctx + ": found without suffix");
    for (std::string no : {st + ".npy", "q" + st, st + "x", bare + ".np", std::string("no"), st.substr(1), bare + "."}) {
      if (no == st || no + ".npy" == st)
        continue;
      CHECK(outcome([&] { rd.read<tensor<int32_t>>(no); }) == "invalid_argument", ctx + ": read of '" + (no.size() > 60 ? "long" : no) + "'");
      CHECK(outcome([&] { rd.peek(no); }) == "invalid_argument", ctx + ": peek of '" + (no.size() > 60 ? "long" : no) + "'");
    }
    if (n.size() < 100 && n.find('\0') == std::string::npos) {
      std::string p = scratch("c14.npz");
      {
        npzfilewriter f(p);
        f.write(n, t);
      }
      CHECK(slurp(p) == w.str(), ctx + ": file writer");
      npzfilereader fr(p);
      CHECK(fr.peek(bare).shape == Shape{3} && fr.read<tensor<int32_t>>(st).size() == 3, ctx + ": file reader");
      CHECK(outcome([&] { fr.peek(st + ".npy"); }) == "invalid_argument", ctx + ": file reader, unknown name");
      CHECK(outcome([&] { fr.read<tensor<int32_t>>("q" + st); }) == "invalid_argument", ctx + ": file reader, unknown name");
      unlink(p.c_str());
    }
  }
  // an exact match is preferred, whatever else there is
  for (int order = 0; order < 2; ++order) {
    Build z;
    std::string d1 = header("|u1", false, {1}) + "1", d2 = header("|u1", false, {1}) + "2", d3 = header("|u1", false, {1}) + "3";
    if (order) {
      z.add("x.npy", d2);
      z.add("x", d1);
    } else {
      z.add("x", d1);
      z.add("x.npy", d2);
    }
    z.add("x.npy.npy", d3);
    npzstringreader rd(z.bytes());
    CHECK(rd.read<tensor<uint8_t>>("x").values()[0] == '1', "exact match of x");
    CHECK(rd.read<tensor<uint8_t>>("x.npy").values()[0] == '2', "exact match of x.npy");
    CHECK(rd.read<tensor<uint8_t>>("x.npy.npy").values()[0] == '3', "exact match of x.npy.npy");
    CHECK(outcome([&] { rd.peek("x.npy.npy.npy"); }) == "invalid_argument", "no match");
    std::string p = scratch("c14.npz");
    spit(p, z.bytes());
    npzfilereader fr(p);
    CHECK(fr.read<tensor<uint8_t>>("x").values()[0] == '1' && fr.read<tensor<uint8_t>>("x.npy").values()[0] == '2', "exact match in a file");
    unlink(p.c_str());
  }
}

static void c15() {
  Rng r(SEED * 59);
  auto one = [&](const std::string &d, const std::string &ctx) {
    uint32_t got = npy::npy_crc32(d), want = crc_oracle(d);
    CHECK(got == want, ctx + ": " + std::to_string(d.size()) + " bytes " + hex(d, 40) + " CRC " + std::to_string(got) + " expected " + std::to_string(want));
  };
  one("", "empty");
  CHECK(npy::npy_crc32("123456789") == 0xCBF43926u, "check value");
  CHECK(npy::npy_crc32("") == 0, "empty data");
  for (int a = 0; a < 256; ++a) {
    one(std::string(1, (char)a), "one byte");
    for (int b = 0; b < 256; ++b)
      one(std::string{(char)a, (char)b}, "two bytes");
  }
  for (size_t n = 0; n <= 600; ++n)
    for (int k = 0; k < 3; ++k) {
      std::string d(n, k == 1 ? '\0' : k == 2 ? '\xFF' : ' ');
      if (!k)
        for (char &c : d)
          c = (char)r.next();
      one(d, "length " + std::to_string(n));
    }
  for (size_t n : {1023, 1024, 1025, 4095, 4096, 4097, 5551, 5552, 5553, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3 << 20, (16 << 20) + 3}) {
    std::string d(n, ' ');
    for (char &c : d)
      c = (char)r.next();
    one(d, "length " + std::to_string(n));
    d[n / 2] ^= 1;
    one(d, "length " + std::to_string(n));
  }
  // recorded and checked by the archives
  for (auto m : METHODS)
    for (size_t n : {0, 1, 3, 127, 4096, 70000}) {
      npzstringwriter w(m);
      tensor<uint8_t> t(Shape{n});
      fill(t.data(), n, r);
      w.write("v", t);
      w.close();
      std::string d = header("|u1", false, {n}) + std::string((const char *)t.data(), n);
      auto rs = parse_zip(w.str(), "crc");
      CHECK(rs[0].crc == crc_oracle(d), "CRC-32 recorded for " + std::to_string(n) + " elements");
      Build z;
      z.add("v.npy", d, (int)m);
      npzstringreader rd(z.bytes());
      CHECK(equal_tensors(t, rd.read<tensor<uint8_t>>("v")), "CRC-32 accepted for " + std::to_string(n) + " elements");
      for (int bit = 0; bit < 32; ++bit) {
        Build y;
        y.add("v.npy", d, (int)m);
        y.es[0].cd.crc ^= 1u << bit;
        y.es[0].local.crc ^= 1u << bit;
        npzstringreader ry(y.bytes());
        CHECK(throws_std(outcome([&] { ry.read<tensor<uint8_t>>("v"); })), "wrong CRC-32 bit " + std::to_string(bit) + " accepted");
      }
    }
  // an entry without data
  {
    Build z;
    z.add("v.npy", "", 0);
    CHECK(z.es[0].cd.crc == 0, "empty entry");
    npzstringreader rd(z.bytes());
    CHECK(outcome([&] { rd.peek("v"); }) == "runtime_error", "an empty entry is no NPY file");
  }
  if (DEEP) {
    std::string d(size_t(4) << 30, 'z');
    d += "tail";
    one(d, "more than 4 GiB");
  }
}

static void c16() {
  Rng r(SEED * 61);
  auto one = [&](const std::string &d, const std::string &ctx) {
    std::string c = npy::npy_deflate(std::string(d));
    Inflate f(c);
    CHECK(f.run(), ctx + ": " + std::to_string(d.size()) + " bytes do not give one complete DEFLATE stream");
    CHECK(f.out == d, ctx + ": " + std::to_string(d.size()) + " bytes decompress to " + std::to_string(f.out.size()) + " other bytes");
    std::string back = npy::npy_inflate(std::string(c));
    CHECK(back == d, ctx + ": " + std::to_string(d.size()) + " bytes inflate to " + std::to_string(back.size()) + " other bytes");
  };
  auto inf = [&](const std::string &d, const std::string &ctx) {
    CHECK(npy::npy_inflate(deflate_stored(d)) == d, ctx + ": stored blocks");
    CHECK(npy::npy_inflate(deflate_fixed(d)) == d, ctx + ": fixed codes");
  };
  auto data = [&](size_t n, int kind) {
    std::string d(n, '\0');
    uint64_t x = 0;
    for (size_t i = 0; i < n; ++i)
      d[i] = kind == 0 ? 0 : kind == 1 ? (char)r.next() : kind == 2 ? (char)("abc"[i % 3]) : (i % 64 ? (char)x : (char)(x = r.next()));
    return d;
  };
  one("", "empty");
  inf("", "empty");
  for (size_t n = 0; n < 260; ++n)
    for (int k = 0; k < 4; ++k)
      one(data(n, k), "kind " + std::to_string(k));
  size_t M = size_t(1) << 20;
  for (size_t n : {size_t(1000), size_t(4096), size_t(32767), size_t(32768), size_t(32769), size_t(65535), size_t(65536), size_t(65537), M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 1, 3 * M, 3 * M + 77})
    for (int k = 0; k < 4; ++k) {
      if (k != 1 && n > 2 * M + 1 && !DEEP)
        continue;
      std::string d = data(n, k);
      one(d, "kind " + std::to_string(k));
      if (k == 1 || n < 70000)
        inf(d, "kind " + std::to_string(k));
    }
  // compressed data whose length is a multiple of the buffer, and one around it
  for (int del = -12; del <= 12; ++del) {
    std::string d(M - 5 * 17 + del, '\0');
    for (size_t i = 0; i < d.size(); i += 8) {
      uint64_t x = r.next();
      memcpy(&d[i], &x, std::min<size_t>(8, d.size() - i));
    }
    std::string c = deflate_stored(d);
    CHECK(npy::npy_inflate(std::string(c)) == d, "compressed length " + std::to_string(c.size()));
  }
  // copies of earlier parts, at every kind of distance and length, with changes between them
  for (int i = 0; i < (DEEP ? 1500 : 150); ++i) {
    size_t n = i % 10 ? r.below(6000) : r.below(300000);
    unsigned alphabet = 1 + r.below(i % 3 ? 5 : 256);
    std::string d;
    while (d.size() < n) {
      if (!r.below(3) || d.empty())
        for (size_t k = 1 + r.below(6); k--;)
          d += (char)(r.below(alphabet) * 37);
      else {
        size_t dist = 1 + r.below(std::min<size_t>(d.size(), r.below(2) ? 40 : 40000));
        for (size_t k = 1 + r.below(r.below(4) ? 12 : 700); k--;)
          d += d[d.size() - dist];
      }
    }
    one(d, "copies");
  }
  // matches of lengths as unevenly distributed as codes need to grow longest, with each number of lengths
  for (int k = 2; k <= 19; ++k)
    for (int close = 0; close < (k > 14 && k < 18 ? 10 : 2); ++close) {
      std::string pool = data(31745, 1), d = pool;
      std::vector<int> todo;
      int a = 1, b = 1;
      for (int i = k - 1; i >= 0; --i) {
        int len = i < 6 ? 4 + i : i < 10 ? 11 + 2 * (i - 6) : i < 14 ? 19 + 4 * (i - 10) : 35 + 8 * (i - 14);
        todo.insert(todo.end(), b, len);
        b += a;
        a = b - a;
      }
      for (size_t i = todo.size(); i > 1; --i)
        std::swap(todo[i - 1], todo[r.below(i)]);
      int next = -1; // no match is longer than meant
      std::vector<bool> used(300000);
      for (int len : todo) {
        size_t at = 0, lo = d.size() > 32400 ? d.size() - 32400 : 0;
        for (int tries = 0; tries < 1000; ++tries) {
          at = close == 1 || lo > 31500 ? d.size() - 300 - (r.below(4096) & r.below(4096)) : lo + r.below(31745 - 200 - lo);
          if (d[at] != next && !used[at] && !used[at + len - 1])
            break;
        }
        std::fill_n(used.begin() + at, len, true);
        d += d.substr(at, len);
        next = d[at + len];
      }
      one(d, std::to_string(k) + " lengths");
    }
  // the same for distances
  for (int t = 0; t < 42; ++t) {
    int k = t < 17 ? 2 + t : 15 + t % 3;
    static const int base[] = {65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
    std::string d = data(31745, 1);
    std::vector<bool> used(200000);
    std::vector<int> todo;
    int a = 0, b = 1;
    for (int i = k - 1; i >= 0; --i) {
      todo.insert(todo.end(), b, 17 - i);
      b += a;
      a = b - a;
    }
    for (size_t i = todo.size(); i > 1; --i)
      std::swap(todo[i - 1], todo[r.below(i)]);
    int next = -1;
    for (int c : todo) {
      size_t at = 0;
      for (int tries = 0; tries < 1000; ++tries) {
        at = d.size() - base[c] - r.below(c == 17 ? 7000 : base[c | 1] - base[c & ~1]);
        if (!used[at] && !used[at + 3] && d[at] != next)
          break;
      }
      std::fill_n(used.begin() + at, 4, true);
      d += d.substr(at, 4);
      next = d[at + 4];
    }
    one(d, std::to_string(k) + " distances");
  }
  // literals of every number of different counts
  for (int k = 0; k < (DEEP ? 2000 : 200); ++k) {
    std::string d;
    int syms = 1 + r.below(256), step = 1 + r.below(255) / 2 * 2;
    for (size_t n = 60 + r.below(9000); n--;) {
      uint64_t x = r.next();
      d += (char)(step * (k % 2 ? (x >> 8) % syms : __builtin_ctzll(x | 1ull << 40) + (x >> 50) % syms));
    }
    one(d, "uneven literals");
  }
  {
    // around the window: a run whose start is also found once, at each distance about the longest
    for (size_t p = 32500; p <= 32780; p += (DEEP || p > 32760 ? 1 : 3)) {
      // (the compressor does not find what is at position 0)
      std::string d = "baaa" + data(p - 3, 1) + std::string(400, 'a') + "bc";
      for (size_t i = 4; i <= p; ++i)
        if (d[i] == 'a')
          d[i] = 'x';
      one(d, "window distance " + std::to_string(p));
    }
    // a block across each end of the window, then its start followed by zeros
    for (size_t p = 32768 - 262; p <= 32768 + 4; p += (DEEP || p >= 32764 ? 1 : 5))
      for (size_t len : {253, 254, 255, 256, 257, 258}) {
        std::string d = data(p + 300, 1);
        for (char &x : d)
          x = x ? x : 1;
        d += d.substr(p, len) + std::string(40, '\0') + "end";
        one(d, "window end " + std::to_string(p));
      }
    std::string w = data(32767 + 300, 2);
    for (size_t i = 0; i < w.size(); ++i)
      w[i] = 1 + (i * i + i / 7) % 255;
    for (int v = 0; v < 256; ++v)
      one(w + w.substr(32767, 256) + std::string(10, (char)v), "window end, then " + std::to_string(v));
  }
  {
    // compressed data that ends just before and after the end of the buffer
    std::string d = data(M + 100, 1);
    size_t n = M - 200;
    for (int i = 0; i < 4; ++i)
      n += M - npy::npy_deflate(d.substr(0, n)).size();
    for (int k = -10; k <= 10; ++k)
      one(d.substr(0, n + k), "end of the buffer " + std::to_string(k));
  }
  if (DEEP) {
    one(data(20 * M + 3, 1), "20 MiB");
    one(data(64 * M, 0), "64 MiB of zeros");
  }
  // highly expanding data: output far larger than the buffers
  one(std::string(8 * M + 5, 'e'), "expanding");
  // truncated and invalid streams
  for (int k = 0; k < 4; ++k)
    for (size_t n : {0, 1, 10, 300, 5000}) {
      std::string d = data(n, k);
      for (std::string c : {npy::npy_deflate(std::string(d)), deflate_stored(d), deflate_fixed(d)})
        for (size_t cut = 1; cut <= c.size(); cut += (cut < 12 ? 1 : 1 + c.size() / 23)) {
          std::string t = c.substr(0, c.size() - cut);
          std::string oc = outcome([&] { npy::npy_inflate(std::string(t)); });
          CHECK(throws_std(oc), "stream of " + std::to_string(c.size()) + " bytes cut by " + std::to_string(cut) + ": outcome '" + oc + "'");
        }
    }
  {
    std::string d = data(3 * M, 1), c = npy::npy_deflate(std::string(d));
    for (size_t keep : {size_t(0), size_t(1), M - 1, M, M + 1, 2 * M, c.size() - 1, c.size() - 2})
      CHECK(throws_std(outcome([&] { npy::npy_inflate(c.substr(0, keep)); })), "large stream cut to " + std::to_string(keep));
    std::string z(5 * M, 'q'), cz = npy::npy_deflate(std::string(z));
    for (size_t cut = 1; cut < cz.size(); cut += 1 + cz.size() / 40)
      CHECK(throws_std(outcome([&] { npy::npy_inflate(cz.substr(0, cz.size() - cut)); })), "expanding stream cut by " + std::to_string(cut));
  }
  // streams of every block type with matches, and every one of them with any single bit inverted: the decoder above decides
  auto judge = [&](const std::string &c, const std::string &ctx, bool must) {
    Inflate f(c);
    bool valid = f.run();
    if (must && !valid)
      fail("generator: " + ctx + " " + hex(c, 60));
    std::string back;
    std::string oc = outcome([&] { back = npy::npy_inflate(std::string(c)); });
    if (valid)
      CHECK(oc.empty() && back == f.out, ctx + ": valid stream " + hex(c, 60) + " outcome '" + oc + "'");
    if (!f.ok)
      CHECK(throws_std(oc), ctx + ": invalid stream " + hex(c, 60) + " outcome '" + oc + "'");
  };
  for (int i = 0; i < (DEEP ? 3000 : 150); ++i) {
    RandomDeflate g(r);
    std::string c = g.stream(1 + r.below(4), i % 5 ? 20 : 3000);
    judge(c, "random blocks", true);
    for (size_t k = 0; k < c.size() * 8; k += (i % 5 ? 1 : 1 + c.size() / 8) ) {
      std::string t = c;
      t[k / 8] ^= 1 << k % 8;
      judge(t, "bit " + std::to_string(k) + " inverted", false);
    }
  }
  for (int i = 1; i < 9; ++i) {
    RandomDeflate g(r);
    g.more_l = i / 3;
    g.more_d = i % 3;
    judge(g.stream(1, 50), "too many codes declared", false);
  }
  for (int i = 0; i < (DEEP ? 30 : 3); ++i) {
    RandomDeflate g(r);
    judge(g.stream(400, 30000), "several MiB of random blocks", true);
  }
  // random blocks: valid for the decoder above or refused, never other data
  for (int i = 0; i < (DEEP ? 200000 : 20000); ++i) {
    std::string c(1 + r.below(40), 0);
    for (char &x : c)
      x = (char)r.next();
    c[0] = (c[0] & ~7) | (i % 3 ? 3 : 5);
    Inflate f(c);
    bool valid = f.run();
    std::string back;
    std::string oc = outcome([&] { back = npy::npy_inflate(std::string(c)); });
    if (valid)
      CHECK(oc.empty() && back == f.out, "valid random stream " + hex(c, 60) + " outcome '" + oc + "'");
    if (!f.ok)
      CHECK(throws_std(oc), "invalid random stream " + hex(c, 60) + " outcome '" + oc + "'");
  }
  for (std::string bad : {std::string("\x07", 1), std::string("\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF", 8), std::string("\x01\x05\x00\x00\x00Hello", 10), std::string("\x06", 1), std::string("\x78\x9c", 2)})
    CHECK(throws_std(outcome([&] { npy::npy_inflate(std::string(bad)); })), "invalid stream " + hex(bad));
  for (int i = 0; i < (DEEP ? 20000 : 2000); ++i) {
    std::string d = data(1 + r.below(400), r.below(4));
    std::string c = i % 2 ? deflate_fixed(d) : npy::npy_deflate(std::string(d));
    c[r.below(c.size())] ^= 1 << r.below(8);
    Inflate f(c);
    bool valid = f.run();
    std::string back;
    std::string oc = outcome([&] { back = npy::npy_inflate(std::string(c)); });
    if (oc.empty())
      CHECK(f.out == back || !valid ? true : false, "damaged stream gives other data");
    if (f.starved) // ran out of input
      CHECK(throws_std(oc), "stream that runs out of input: " + hex(c, 60) + " outcome '" + oc + "'");
    if (valid)
      CHECK(oc.empty() && back == f.out, "valid stream " + hex(c, 60) + " outcome '" + oc + "'");
  }
  // through the archive
  for (int zero = 0; zero < 2; ++zero)
  for (size_t n : {size_t(0), size_t(1), size_t(32641), size_t(65537), M - 128, M, M + 1, 2 * M - 128, 2 * M, 2 * M + 1 - 128}) {
    tensor<uint8_t> t(Shape{n});
    if (!zero)
      fill(t.data(), n, r);
    npzstringwriter w(compression_method_t::DEFLATED);
    w.write("v", t);
    w.close();
    auto rs = parse_zip(w.str(), "deflated archive");
    unpack(rs[0], "deflated archive");
    npzstringreader rd(w.str());
    CHECK(equal_tensors(t, rd.read<tensor<uint8_t>>("v")), "deflated archive of " + std::to_string(n));
  }
}

static void c17() {
  Rng r(SEED * 67);
  tensor<uint8_t> t(Shape{1});
  // names
  for (size_t n : {size_t(255), size_t(256), size_t(65530), size_t(65531), size_t(65532), size_t(65533), size_t(65535), size_t(65536), size_t(65540), size_t(70000), size_t(131072 + 5)}) {
    for (int suf = 0; suf < 2; ++suf) {
      std::string nm(n, 'n');
      if (suf)
        nm += ".npy";
      std::string st = with_npy(nm), ctx = "name of " + std::to_string(st.size()) + " bytes";
      npzstringwriter w;
      w.write("before", t);
      std::string oc = outcome([&] { w.write(nm, t); });
      w.write("after", t);
      w.close();
      auto rs = parse_zip(w.str(), ctx);
      if (st.size() > 65535) {
        CHECK(throws_std(oc), ctx + ": not refused");
        CHECK(rs.size() == 2, ctx + ": refused but recorded");
      } else {
        CHECK(oc.empty(), ctx + ": refused with " + oc);
        CHECK(rs.size() == 3 && rs[1].name == st, ctx + ": recorded name");
        npzstringreader rd(w.str());
        CHECK(rd.read<tensor<uint8_t>>(nm).size() == 1, ctx + ": read back");
      }
    }
  }
  // number of entries
  {
    npzstringwriter w;
    size_t refused = 0;
    for (size_t i = 0; i < 65535 + 3; ++i)
      if (!outcome([&] { w.write(std::to_string(i), t); }).empty()) {
        ++refused;
        CHECK(i >= 65535, "entry " + std::to_string(i) + " is refused");
      } else
        CHECK(i < 65535, "entry " + std::to_string(i) + " is accepted");
    w.close();
    auto rs = parse_zip(w.str(), "65535 entries");
    CHECK(rs.size() == 65535 && refused == 3, "65535 entries");
    npzstringreader rd(w.str());
    CHECK(rd.keys().size() == 65535 && rd.contains("65534.npy"), "65535 entries read");
  }
  // reading the ZIP64 field: every subset of placeholders, surplus data, both records
  std::string d = header("|u1", false, {20}) + std::string(20, '\7');
  for (int meth : {0, 8})
    for (int mask = 0; mask < 8; ++mask)
      for (int lmask = 0; lmask < 4; ++lmask)
        for (int surplus : {0, 1, 8, 16, 200}) {
          Build z;
          z.add("q.npy", d, meth);
          auto &e = z.add("v.npy", d, meth);
          uint64_t us = e.cd.usize, cs = e.cd.csize;
          std::string x, lx;
          if (mask & 1) {
            x += put(us, 8);
            e.cd.usize = 0xFFFFFFFF;
          }
          if (mask & 2) {
            x += put(cs, 8);
            e.cd.csize = 0xFFFFFFFF;
          }
          if (mask & 4) {
            x += "@OFFSET@";
            e.cd.offset = 0xFFFFFFFF;
          }
          if (lmask & 1) {
            lx += put(us, 8);
            e.local.usize = 0xFFFFFFFF;
          }
          if (lmask & 2) {
            lx += put(cs, 8);
            e.local.csize = 0xFFFFFFFF;
          }
          if (!x.empty() || surplus) {
            x += std::string(surplus, '\x11');
            e.cdx = put(1, 2) + put(x.size(), 2) + x;
          }
          if (!lx.empty() || surplus) {
            lx += std::string(surplus, '\x22');
            e.localx = put(1, 2) + put(lx.size(), 2) + lx;
          }
          z.add("w.npy", d, meth);
          std::string ctx = "ZIP64 fields: directory mask " + std::to_string(mask) + " local mask " + std::to_string(lmask) + " surplus " + std::to_string(surplus);
          std::string b = z.bytes();
          std::string oc = outcome([&] {
            npzstringreader rd(b);
            for (const char *n : {"v", "w", "q", "v"})
              if (rd.read<tensor<uint8_t>>(n).values() != std::vector<uint8_t>(20, 7))
                fail(ctx + ": other data for " + n);
          });
          CHECK(oc.empty(), ctx + ": outcome '" + oc + "'");
          // a field that is too short is refused
          if (mask && !surplus) {
            Build y = z;
            y.es[1].cdx.resize(y.es[1].cdx.size() - 8);
            y.es[1].cdx[2] = (char)(y.es[1].cdx.size() - 4);
            std::string yb = y.bytes();
            CHECK(throws_std(outcome([&] { npzstringreader rd(yb); rd.read<tensor<uint8_t>>("v"); })), ctx + ": missing field accepted");
          }
        }
  // 64-bit values that agree with the true ones only in their low bits
  for (int meth : {0, 8})
    for (int field = 0; field < 5; ++field)
      for (int bit = 32; bit < 64; ++bit) {
        Build z;
        z.es.reserve(4);
        auto &e = z.add("v.npy", d, meth);
        uint64_t add = /* v starts at offset 0 */ uint64_t(1) << bit, us = e.cd.usize, cs = e.cd.csize;
        std::string x = put(us + (field == 0 ? add : 0), 8) + put(cs + (field == 1 ? add : 0), 8);
        std::string lx = put(us + (field == 2 ? add : 0), 8) + put(cs + (field == 3 ? add : 0), 8);
        e.cd.usize = e.cd.csize = e.local.usize = e.local.csize = 0xFFFFFFFF;
        if (field == 4) {
          x += put(add, 8);
          e.cd.offset = 0xFFFFFFFF;
        }
        e.cdx = put(1, 2) + put(x.size(), 2) + x;
        e.localx = put(1, 2) + put(lx.size(), 2) + lx;
        z.add("q.npy", d, meth);
        std::string b = z.bytes();
        CHECK(throws_std(outcome([&] {
                npzstringreader rd(b);
                rd.read<tensor<uint8_t>>("v");
              })),
              "ZIP64 field " + std::to_string(field) + " with bit " + std::to_string(bit) + " set: accepted");
        CHECK(outcome([&] { npzstringreader rd(b); rd.read<tensor<uint8_t>>("q"); }).empty(), "an entry beside it is refused");
      }
  // the writing side for sizes that do not fit in memory: see zip64.cpp
  if (DEEP) {
    tensor<uint8_t> big(Shape{(size_t)2415919104u + 1000}); // above the writer's limit 0x8FFFFFFF
    big.data()[5] = 9;
    big.data()[2415919104u + 7] = 3;
    std::string p = scratch("big.npz");
    {
      npzfilewriter w(p);
      w.write("big", big);
      std::string oc = outcome([&] { w.write("big2", big); });
      CHECK(throws_std(oc), "an archive beyond 32-bit offsets is not refused");
    }
    npzfilereader rd(p);
    CHECK(rd.read<tensor<uint8_t>>("big").values() == big.values(), "entry above the ZIP64 limit");
    unlink(p.c_str());
  }
}

static void c22() {
  Rng r(SEED * 71);
  std::string d = header("|u1", false, {30});
  for (int i = 0; i < 30; ++i)
    d += (char)i;
  tensor<int32_t> t4(Shape{4}), t5(Shape{5, 2}, true);
  t4(2) = 3;
  t5(2, 1) = 8;
  for (int meth : {0, 8}) {
    Build z;
    z.add("good.npy", any(t4, endian_t::LITTLE).npy, meth);
    z.add("crc.npy", d, meth);
    z.es.back().cd.crc ^= 1;
    z.es.back().local.crc ^= 1;
    z.add("local.npy", d, meth);
    z.es.back().local.usize++;
    z.add("cut.npy", d.substr(0, d.size() - 3), meth);
    z.add("nothdr.npy", "garbage garbage garbage", meth);
    z.add("sig.npy", d, meth);
    z.es.back().cd.offset = 3;
    z.add("u8.npy", d, meth);
    z.add("beyond.npy", d, meth);
    z.es.back().cd.offset = 90000000;
    z.add("toolong.npy", d, meth);
    z.es.back().cd.csize = z.es.back().local.csize = 70000;
    z.add("plain", any(t5, endian_t::BIG).npy, meth);
    z.add("good2.npy", any(t5, endian_t::BIG).npy, meth);
    std::string b = z.bytes();
    std::vector<std::string> names = {"good", "good.npy", "crc", "local", "cut", "nothdr", "sig", "u8", "beyond", "toolong", "plain", "good2", "missing", "plain.npy", ""};
    std::string p = scratch("c22.npz");
    spit(p, b);
    // operation: name x (read int32, read uint8, peek, contains, keys)
    auto op = [&](auto &rd, size_t k) -> std::string {
      std::string n = names[k / 5];
      std::string res;
      std::string oc = outcome([&] {
        switch (k % 5) {
        case 0: {
          auto t = rd.template read<tensor<int32_t>>(n);
          res = show(t.shape()) + (t.fortran_order() ? "F" : "C") + hex(std::string((const char *)t.data(), t.size() * 4));
          break;
        }
        case 1: {
          auto t = rd.template read<tensor<uint8_t>>(n);
          res = show(t.shape()) + hex(std::string((const char *)t.data(), t.size()));
          break;
        }
        case 2: {
          header_info h = rd.peek(n);
          res = show(h.shape) + std::to_string((int)h.dtype) + std::to_string((int)h.endianness) + std::to_string(h.fortran_order);
          break;
        }
        case 3:
          res = rd.contains(n) ? "yes" : "no";
          break;
        default:
          for (auto &x : rd.keys())
            res += x + "|";
        }
      });
      return oc + ":" + res;
    };
    size_t nops = names.size() * 5;
    std::vector<std::string> fresh(nops);
    for (size_t k = 0; k < nops; ++k) {
      npzstringreader rd(b);
      fresh[k] = op(rd, k);
      npzfilereader fr(p);
      std::string f2 = op(fr, k);
      CHECK(f2 == fresh[k], "file and string reader differ on " + names[k / 5] + ": " + f2 + " / " + fresh[k]);
    }
    // all pairs
    for (size_t i = 0; i < nops; ++i) {
      for (size_t k = 0; k < nops; ++k) {
        if (!DEEP && k % 5 == 4 && i % 5 == 4)
          continue;
        npzstringreader rd(b);
        op(rd, i);
        std::string a = op(rd, k);
        CHECK(a == fresh[k], "operation " + std::to_string(k % 5) + " on '" + names[k / 5] + "' after operation " + std::to_string(i % 5) + " on '" + names[i / 5] + "': " + a + ", fresh reader: " + fresh[k]);
      }
    }
    // long histories
    npzstringreader rd(b);
    npzfilereader fr(p);
    for (int s = 0; s < (DEEP ? 20000 : 1500); ++s) {
      size_t k = r.below(nops);
      CHECK(op(rd, k) == fresh[k], "operation " + std::to_string(k % 5) + " on '" + names[k / 5] + "' after a long history");
      CHECK(op(fr, k) == fresh[k], "file: operation " + std::to_string(k % 5) + " on '" + names[k / 5] + "' after a long history");
    }
    unlink(p.c_str());
  }
}

static void run_property() {
  struct rlimit lim = {size_t(24) << 30, size_t(24) << 30};
  setrlimit(RLIMIT_AS, &lim);
  if (PROP == "C10")
    c10();
  else if (PROP == "C11")
    c11();
  else if (PROP == "C12")
    c12();
  else if (PROP == "C13")
    c13();
  else if (PROP == "C14")
    c14();
  else if (PROP == "C15")
    c15();
  else if (PROP == "C16")
    c16();
  else if (PROP == "C17")
    c17();
  else if (PROP == "C22")
    c22();
}
