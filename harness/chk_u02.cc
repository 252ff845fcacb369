// U02: binary encodings decode to what was encoded and reject damage
#include "pbt.h"
#include "util/coded_io.h"
#include "util/serialization.h"
#include "util/serialization_flatmap.h"
#include "core/dic/field_reader.h"
#include <cstring>
#include <map>
#include <memory>
using namespace pbt;
using namespace jumanpp;
namespace ser = jumanpp::util::serialization;

namespace u02 {
enum class Kind { A = -3, B = 0, C = 77 };
SERIALIZE_ENUM_CLASS(Kind, i32);
struct Leaf {
  i32 a = 0;
  std::string s;
  float f = 0;
};
template <typename A>
void Serialize(A& a, Leaf& o) {
  a& o.a;
  a& o.s;
  a& o.f;
}
struct Rec {
  bool b = false;
  u32 u = 0;
  i64 l = 0;
  u64 ul = 0;
  Kind k = Kind::B;
  std::vector<Leaf> leaves;
  std::vector<std::vector<i32>> nested;
  std::vector<std::string> strs;
  util::FlatMap<i32, std::string> map;
  util::FlatMap<std::string, std::vector<u64>> smap;
  Leaf tail;
};
template <typename A>
void Serialize(A& a, Rec& o) {
  a& o.b;
  a& o.u;
  a& o.l;
  a& o.ul;
  a& o.k;
  a& o.leaves;
  a& o.nested;
  a& o.strs;
  a& o.map;
  a& o.smap;
  a& o.tail;
}
// plain model
struct PLeaf { int32_t a; std::string s; uint32_t f; bool operator==(const PLeaf& o) const { return a == o.a && s == o.s && f == o.f; } };
struct PRec {
  bool b; uint32_t u; int64_t l; uint64_t ul; int32_t k;
  std::vector<PLeaf> leaves; std::vector<std::vector<int32_t>> nested; std::vector<std::string> strs;
  std::map<int32_t, std::string> map; std::map<std::string, std::vector<uint64_t>> smap; PLeaf tail;
};
uint32_t fbits(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
std::string diff(const Rec& r, const PRec& p) {
#define D(x, y) if (!(x)) return y
  D(r.b == p.b, "bool"); D(r.u == p.u, "u32"); D(r.l == p.l, "i64"); D(r.ul == p.ul, "u64"); D((int32_t)r.k == p.k, "enum");
  D(r.leaves.size() == p.leaves.size(), "number of leaves");
  auto same = [](const Leaf& a, const PLeaf& b) { return a.a == b.a && a.s == b.s && fbits(a.f) == b.f; };
  for (size_t i = 0; i < p.leaves.size(); ++i) D(same(r.leaves[i], p.leaves[i]), "leaf");
  D(r.nested.size() == p.nested.size(), "nested");
  for (size_t i = 0; i < p.nested.size(); ++i) { std::vector<int32_t> v(r.nested[i].begin(), r.nested[i].end()); D(v == p.nested[i], "inner list"); }
  D(r.strs == p.strs, "strings");
  std::map<int32_t, std::string> m;
  size_t n = 0;
  for (auto& x : r.map) m[x.first] = x.second, ++n;
  D(m == p.map && n == m.size() && r.map.size() == n, "int map");
  std::map<std::string, std::vector<uint64_t>> sm;
  for (auto& x : r.smap) sm[x.first] = std::vector<uint64_t>(x.second.begin(), x.second.end());
  D(sm == p.smap && r.smap.size() == sm.size(), "string map");
  D(same(r.tail, p.tail), "tail");
#undef D
  return "";
}
// ---- reference encoding and decoding ----
void putV(std::string& o, uint64_t v) { while (v >= 0x80) { o += (char)(v | 0x80); v >>= 7; } o += (char)v; }
struct Cur {
  const std::string& d; size_t p = 0; bool ok = true; bool unclear = false;
  uint64_t v() {
    uint64_t r = 0; int n = 0;
    while (true) {
      if (!ok || p >= d.size() || n == 10) { ok = false; return 0; }
      unsigned char b = d[p++];
      if (n == 9 && (b & 0x7e)) unclear = true;  // bits beyond the 64th: either dropped or refused
      r |= (uint64_t)(b & 0x7f) << (7 * n);
      ++n;
      if (!(b & 0x80)) return r;
    }
  }
  std::string s() { uint64_t n = v(); if (!ok || n > d.size() - p) { ok = false; return ""; } std::string r = d.substr(p, n); p += n; return r; }
  uint32_t f() { if (!ok || d.size() - p < 4) { ok = false; return 0; } uint32_t r = 0; for (int i = 0; i < 4; ++i) r |= (uint32_t)(unsigned char)d[p + i] << 8 * i; p += 4; return r; }
};
PLeaf leaf(Cur& c) { PLeaf l; l.a = (int32_t)(uint32_t)c.v(); l.s = c.s(); l.f = c.f(); return l; }
PRec decode(Cur& c) {
  PRec r;
  uint64_t b = c.v();
  if (b > 1) c.unclear = true;
  r.b = b == 1; r.u = (uint32_t)c.v(); r.l = (int64_t)c.v(); r.ul = c.v(); r.k = (int32_t)(uint32_t)c.v();
  auto cnt = [&](const char*) { return c.v(); };
  uint64_t n = cnt("");
  for (uint64_t i = 0; c.ok && i < n; ++i) r.leaves.push_back(leaf(c));
  n = c.v();
  for (uint64_t i = 0; c.ok && i < n; ++i) { r.nested.emplace_back(); uint64_t m = c.v(); for (uint64_t j = 0; c.ok && j < m; ++j) r.nested.back().push_back((int32_t)(uint32_t)c.v()); }
  n = c.v();
  for (uint64_t i = 0; c.ok && i < n; ++i) r.strs.push_back(c.s());
  c.v(); n = c.v();
  for (uint64_t i = 0; c.ok && i < n; ++i) { int32_t k = (int32_t)(uint32_t)c.v(); if (r.map.count(k)) c.unclear = true; auto s = c.s(); r.map[k] = s; }
  c.v(); n = c.v();
  for (uint64_t i = 0; c.ok && i < n; ++i) { auto k = c.s(); if (r.smap.count(k)) c.unclear = true; auto& v = r.smap[k]; uint64_t m = c.v(); for (uint64_t j = 0; c.ok && j < m; ++j) v.push_back(c.v()); }
  r.tail = leaf(c);
  if (c.p != c.d.size()) c.ok = false;
  return r;
}
// bytes in memory of their own, so that reading outside is seen
struct Own {
  std::unique_ptr<char[]> m; size_t n;
  explicit Own(const std::string& s) : m(new char[s.size()]), n(s.size()) { memcpy(m.get(), s.data(), n); }
  StringPiece sp() const { return StringPiece(m.get(), n); }
};
std::string genS(Ctx& c, int mx = 20) {
  std::string s;
  int n = c.weighted({10, 3, 1}) == 0 ? c.range(0, mx) : c.range(0, mx * 16);
  if (n > 40) { s.assign(n, (char)c.choose(256)); return s; }
  for (int i = 0; i < n; ++i) s += c.chance(1, 3) ? (char)c.choose(256) : (char)('a' + c.choose(4));
  return s;
}
uint64_t genV(Ctx& c) {
  switch (c.weighted({3, 4, 3, 1})) {
    case 0: return c.choose(300);
    case 1: { int b = c.range(0, 63); return (1ull << b) + (uint64_t)(int64_t)c.range(-2, 2); }
    case 2: return c.anyU64();
    default: return ~0ull - c.choose(3);
  }
}
Leaf genLeaf(Ctx& c) { Leaf l; l.a = (i32)genV(c); l.s = genS(c); uint32_t b = (uint32_t)c.anyU64(); memcpy(&l.f, &b, 4); return l; }
PLeaf pl(const Leaf& l) { return {l.a, l.s, fbits(l.f)}; }

// ---- sequences of primitive values on one buffer ----
struct Item { int t; uint64_t v; std::string s; };
void coded(Ctx& c) {
  util::CodedBuffer buf;
  int rounds = c.range(1, 3);
  bool grew = false;
  for (int r = 0; r < rounds; ++r) {
    std::vector<Item> items;
    std::string ref;
    int n = c.weighted({5, 1}) == 0 ? c.range(0, 12) : c.range(0, 60);
    if (r) buf.reset();
    for (int i = 0; i < n; ++i) {
      Item it{(int)c.weighted({5, 2, 3, 1}), 0, ""};
      size_t before = buf.position();
      switch (it.t) {
        case 0: it.v = genV(c); buf.writeVarint(it.v); putV(ref, it.v); break;
        case 1: it.v = (uint32_t)c.anyU64(); buf.writeFixed32((u32)it.v); for (int k = 0; k < 4; ++k) ref += (char)(it.v >> 8 * k); break;
        case 2: it.s = genS(c); buf.writeString(it.s); putV(ref, it.s.size()); ref += it.s; break;
        default: it.s = genS(c); buf.writeStringDataWithoutLengthPrefix(it.s); ref += it.s;
      }
      PEQ(c, buf.position(), ref.size(), "position after a write");
      PCHECK(c, buf.position() >= before, "the position only moves forward");
      items.push_back(it);
    }
    grew = grew || ref.size() > 30;
    std::string got = buf.contents().str();
    c.describe("items " + std::to_string(n) + " bytes " + std::to_string(ref.size()));
    PCHECK(c, got == ref, "encoded bytes " << quote(got) << " expected " << quote(ref));
    // read back, whole or cut
    bool cut = !ref.empty() && c.chance(1, 2);
    size_t len = cut ? c.choose(ref.size()) : ref.size();
    Own own(ref.substr(0, len));
    util::CodedBufferParser p(own.sp());
    size_t pos = 0;
    bool failed = false;
    for (auto& it : items) {
      std::string one;
      size_t w = 0;
      bool ok;
      switch (it.t) {
        case 0: { putV(one, it.v); w = one.size(); u64 v = 12345; ok = p.readVarint64(&v); if (ok) PEQ(c, (uint64_t)v, it.v, "integer read back"); break; }
        case 1: { w = 4; u32 v = 0; ok = p.readFixed32(&v); if (ok) PEQ(c, (uint64_t)v, it.v, "fixed integer read back"); break; }
        case 2: { putV(one, it.s.size()); w = one.size() + it.s.size(); StringPiece sp; ok = p.readStringPiece(&sp); if (ok) PCHECK(c, sp.str() == it.s, "string read back as " << quote(sp.str()) << ", not " << quote(it.s)); break; }
        default: {
          w = it.s.size();
          util::CodedBufferParser q(StringPiece(own.m.get() + std::min(pos + w, own.n), own.m.get() + own.n));
          p = q;
          ok = pos + w <= own.n;
        }
      }
      bool want = pos + w <= len;
      PCHECK(c, ok == want, "reading item of " << w << " bytes at " << pos << " of " << len << (ok ? " succeeds" : " fails"));
      if (!ok) { failed = true; break; }
      pos += w;
      PEQ(c, p.remaining(), len - pos, "bytes left after reading");
      PEQ(c, p.atEnd(), pos == len, "at end");
    }
    c.labelIf(cut && failed, "truncated");
    if (!cut) PEQ(c, pos, len, "bytes consumed");
  }
  c.labelIf(grew, "buffer grew");
  c.labelIf(rounds > 1, "buffer reused");
  c.nontrivial(grew);
}
// ---- any bytes as a sequence of primitives ----
std::string genBytes(Ctx& c) {
  std::string s;
  int n = c.range(0, 24);
  int st = c.choose(3);
  for (int i = 0; i < n; ++i) s += (char)(st == 0 ? c.choose(256) : st == 1 ? 0x80 | c.choose(128) : c.oneOf<int>({0, 1, 2, 3, 5, 0x7f, 0x80, 0xff, 0x81}));
  return s;
}
void anyBytes(Ctx& c) {
  std::string s = genBytes(c);
  c.describe(quote(s));
  Own own(s);
  util::CodedBufferParser p(own.sp());
  Cur ref{s};
  int good = 0, bad = 0;
  for (int i = 0; i < 12; ++i) {
    size_t start = ref.p;
    switch (c.weighted({4, 2, 3, 2})) {
      case 0: {
        u64 v = 99; bool ok = p.readVarint64(&v); uint64_t w = ref.v();
        if (ref.unclear) { c.label("overlong"); return; }
        PCHECK(c, ok == ref.ok, "integer at " << start << (ok ? " accepted" : " refused"));
        if (ok) PEQ(c, (uint64_t)v, w, "integer");
        break;
      }
      case 1: { u32 v = 0; bool ok = p.readFixed32(&v); uint32_t w = ref.f(); PCHECK(c, ok == ref.ok, "fixed integer at " << start); if (ok) PEQ(c, v, w, "fixed integer"); break; }
      case 2: {
        StringPiece sp; bool ok = p.readStringPiece(&sp); std::string w = ref.s();
        if (ref.unclear) { c.label("overlong"); return; }
        PCHECK(c, ok == ref.ok, "string at " << start << (ok ? " accepted" : " refused"));
        if (ok) PCHECK(c, sp.str() == w, "string " << quote(sp.str()) << " expected " << quote(w));
        break;
      }
      default: {
        i32 v = 0; bool ok = p.readInt(&v); uint64_t w = ref.v();
        if (ref.unclear) { c.label("overlong"); return; }
        PCHECK(c, ok == ref.ok, "int at " << start);
        if (ok) PEQ(c, (int64_t)v, (int64_t)(int32_t)(uint32_t)w, "int");
      }
    }
    if (!ref.ok) { ++bad; break; }
    ++good;
    PEQ(c, p.remaining(), s.size() - ref.p, "bytes left");
    PEQ(c, (size_t)p.numReadBytes(), ref.p, "bytes read");
  }
  c.labelIf(bad, "ends in a refusal");
  c.nontrivial(good > 0);
}
// ---- records ----
Rec genRec(Ctx& c, PRec& p) {
  Rec r;
  r.b = p.b = c.chance(1, 2);
  r.u = p.u = (uint32_t)genV(c);
  r.l = p.l = (int64_t)genV(c);
  r.ul = p.ul = genV(c);
  p.k = c.oneOf<int>({-3, 0, 77});
  r.k = (Kind)p.k;
  for (int n = c.range(0, 4); n > 0; --n) { r.leaves.push_back(genLeaf(c)); p.leaves.push_back(pl(r.leaves.back())); }
  for (int n = c.range(0, 3); n > 0; --n) { r.nested.emplace_back(); p.nested.emplace_back(); for (int m = c.range(0, 4); m > 0; --m) { i32 x = (i32)genV(c); r.nested.back().push_back(x); p.nested.back().push_back(x); } }
  for (int n = c.range(0, 3); n > 0; --n) { r.strs.push_back(genS(c)); p.strs.push_back(r.strs.back()); }
  int km = c.weighted({4, 1}) == 0 ? 6 : 40;
  for (int n = c.range(0, km); n > 0; --n) { i32 k = c.chance(1, 2) ? (i32)c.choose(50) : (i32)genV(c); auto s = genS(c, 5); r.map[k] = s; p.map[k] = s; }
  for (int n = c.range(0, 4); n > 0; --n) { auto k = genS(c, 4); std::vector<u64> v; for (int m = c.range(0, 3); m > 0; --m) v.push_back(genV(c)); r.smap[k] = v; p.smap[k].assign(v.begin(), v.end()); }
  if (c.chance(1, 3) && !p.map.empty()) { int k = p.map.begin()->first; r.map.erase(k); p.map.erase(k); }
  r.tail = genLeaf(c);
  p.tail = pl(r.tail);
  return r;
}
void records(Ctx& c) {
  PRec p;
  Rec r = genRec(c, p);
  ser::Saver s;
  s.save(r);
  std::string bytes = s.result().str();
  c.describe("record of " + std::to_string(bytes.size()) + " bytes, " + std::to_string(p.leaves.size()) + " leaves, " + std::to_string(p.map.size()) + " map entries");
  PEQ(c, s.size(), bytes.size(), "size of the saved record");
  {
    Own own(bytes);
    ser::Loader l(own.sp());
    Rec q;
    PCHECK(c, l.load(&q), "the saved record doesn't load: " << quote(bytes));
    std::string d = diff(q, p);
    PCHECK(c, d.empty(), "loaded record differs in: " << d << " bytes " << quote(bytes));
    // the same loader again
    Rec q2;
    l.reset(own.sp());
    PCHECK(c, l.load(&q2) && diff(q2, p).empty(), "loading again with the same loader");
    ser::Saver s2;
    s2.save(q);
    Cur cur{bytes};
    PRec dec = decode(cur);
    PCHECK(c, cur.ok && diff(r, dec).empty(), "the bytes are not the documented encoding: " << quote(bytes));
  }
  c.nontrivial(p.leaves.size() + p.map.size() + p.nested.size() > 0);
}
void damage(Ctx& c) {
  PRec p;
  Rec r = genRec(c, p);
  ser::Saver s;
  s.save(r);
  std::string bytes = s.result().str();
  std::string bad = bytes;
  int kind = c.weighted({3, 4, 2, 2, 2});
  size_t at = bytes.empty() ? 0 : c.choose(bytes.size());
  switch (kind) {
    case 0: bad.resize(at); break;
    case 1: bad[at] = (char)c.oneOf<int>({0, 1, 0x7f, 0x80, 0xff, (int)c.choose(256)}); break;
    case 2: { std::string big; putV(big, genV(c)); bad.replace(at, 1, big); break; }
    case 3: bad.erase(at, 1 + c.choose(4)); break;
    default: bad = genBytes(c); if (c.chance(1, 2)) bad.insert(0, bytes.substr(0, at));
  }
  if (c.chance(1, 6)) bad += genBytes(c);
  c.describe("damaged: " + quote(bad));
  Own own(bad);
  ser::Loader l;
  l.reset(own.sp());
  Rec q;
  bool ok = l.load(&q);
  Cur cur{bad};
  PRec want = decode(cur);
  if (cur.unclear) { c.label("unclear"); return; }
  PCHECK(c, ok == cur.ok, "damaged record is " << (ok ? "accepted" : "refused") << ": " << quote(bad) << " (from " << quote(bytes) << ")");
  if (ok) {
    std::string d = diff(q, want);
    PCHECK(c, d.empty(), "damaged record is read with a different " << d << ": " << quote(bad));
    c.label("still a record");
  } else
    c.label("refused");
  c.labelIf(kind == 0, "truncated");
  c.nontrivial(bad != bytes);
  // a loader that failed reads the next record normally
  Own good(bytes);
  l.reset(good.sp());
  Rec q2;
  PCHECK(c, l.load(&q2) && diff(q2, p).empty(), "after damage the intact record doesn't load: " << quote(bytes));
}
// ---- lists as dictionaries store them ----
void lists(Ctx& c) {
  util::CodedBuffer buf;
  std::vector<i32> v;
  int n = c.range(0, 10);
  i32 prev = 0;
  std::vector<std::pair<i32, std::pair<bool, i32>>> kv;
  buf.writeVarint(0x5a);
  size_t off = buf.position();
  buf.writeVarint(n);
  bool kvl = c.chance(1, 2);
  for (int i = 0; i < n; ++i) {
    i32 x = (i32)c.choose(c.oneOf<unsigned>({3, 200, 100000, 1u << 26}));
    if (kvl) {
      bool has = c.chance(1, 2);
      i32 val = (i32)c.choose(1u << 20);
      prev += x;
      buf.writeVarint((u64)x << 1 | (has ? 1 : 0));
      if (has) buf.writeVarint(val);
      kv.push_back({prev, {has, val}});
    } else {
      prev += x;
      buf.writeVarint(x);
      v.push_back(prev);
    }
  }
  std::string bytes = buf.contents().str();
  size_t cut = c.chance(1, 3) ? off + c.choose(bytes.size() - off + 1) : bytes.size();
  c.describe(quote(bytes.substr(0, cut)) + (kvl ? " key-value" : " list"));
  Own own(bytes.substr(0, cut));
  core::dic::impl::IntStorageReader rd(own.sp());
  if (cut <= off) { c.label("empty"); return; }
  if (kvl) {
    auto t = rd.kvListAt((i32)off);
    size_t k = 0;
    while (t.moveNext()) {
      PCHECK(c, k < kv.size(), "more items than written");
      PEQ(c, t.key(), kv[k].first, "key " + std::to_string(k));
      PEQ(c, t.hasValue(), kv[k].second.first, "has a value");
      if (t.hasValue()) PEQ(c, t.value(), kv[k].second.second, "value");
      ++k;
    }
    if (cut == bytes.size()) PEQ(c, k, kv.size(), "number of items");
  } else {
    auto t = rd.listAt((i32)off);
    i32 cur = 0;
    size_t k = 0;
    while (t.readOneCumulative(&cur)) {
      PCHECK(c, k < v.size(), "more items than written");
      PEQ(c, cur, v[k], "item " + std::to_string(k));
      ++k;
    }
    if (cut == bytes.size()) PEQ(c, k, v.size(), "number of items");
    c.labelIf(cut < bytes.size() && k < v.size(), "cut list");
  }
  c.nontrivial(n > 1);
}
}  // namespace u02
int main(int argc, char** argv) {
  CheckDef d;
  d.id = "U02";
  d.assumptions = {"The reference decoder is written from the format (LEB128 integers, length-prefixed strings, little-endian fixed integers, size-prefixed lists, capacity+size-prefixed maps). A 10th integer byte with bits beyond the 64th, a bool that is neither 0 nor 1 and repeated map keys may be refused or normalised."};
  d.facets = {
      {"coded", "the buffer had to grow", 120000, 2000000, u02::coded},
      {"bytes", "at least one value was read", 120000, 2000000, u02::anyBytes},
      {"records", "the record has list or map elements", 50000, 1000000, u02::records},
      {"damage", "the bytes differ from the intact record", 120000, 2000000, u02::damage},
      {"lists", "at least two items", 50000, 1000000, u02::lists},
  };
  return runMain(argc, argv, d);
}
