// U04: the supporting containers behave like their plain models
#include "pbt.h"
#include "util/array_slice.h"
#include "util/array_slice_util.h"
#include "util/bounded_queue.h"
#include "util/char_buffer.h"
#include "util/fast_printer.h"
#include "util/flatmap.h"
#include "util/flatset.h"
#include "util/inlined_vector.h"
#include "util/lazy.h"
#include "util/lru_cache.h"
#include "util/memory.hpp"
#include "util/parse_utils.h"
#include "util/printer.h"
#include "util/sliceable_array.h"
#include "util/stl_util.h"
#include "util/string_piece.h"
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <thread>
using namespace pbt;
using namespace jumanpp;

namespace u04 {
// a value that owns memory and counts its instances
struct Obj {
  static long live;
  std::unique_ptr<int> p;
  Obj() : p(new int(0)) { ++live; }
  Obj(int v) : p(new int(v)) { ++live; }
  Obj(const Obj& o) : p(new int(*o)) { ++live; }
  Obj(Obj&& o) noexcept : p(std::move(o.p)) { ++live; }
  Obj& operator=(const Obj& o) { p.reset(new int(*o)); return *this; }
  Obj& operator=(Obj&& o) noexcept { p = std::move(o.p); return *this; }
  ~Obj() { --live; }
  int operator*() const { return p ? *p : -777; }
  bool operator==(const Obj& o) const { return **this == *o; }
  bool operator<(const Obj& o) const { return **this < *o; }
};
long Obj::live = 0;
int val(int x) { return x; }
int val(const Obj& x) { return *x; }
template <typename K> K mk(int x) { return K(x); }
template <> std::string mk<std::string>(int x) { return x % 3 ? "k" + std::to_string(x) : std::string(40, 'a' + x % 5) + std::to_string(x); }

struct HId { template <typename T> size_t operator()(const T& x) const { return (size_t)val(x) << 8; } };
struct HBad { template <typename T> size_t operator()(const T& x) const { return (size_t)(val(x) & 3) << 8 | (val(x) & 1); } };
struct HMix { template <typename T> size_t operator()(const T& x) const { return (size_t)val(x) * 0x9e3779b97f4a7c15ull >> 7; } };
struct HStr { size_t operator()(const std::string& x) const { return std::hash<std::string>()(x); } };
struct HStrBad { size_t operator()(const std::string& x) const { return x.size() * 257; } };

template <typename M, typename K>
void sameMap(Ctx& c, M& m, const std::map<K, int>& ref, const char* when) {
  PEQ(c, m.size(), ref.size(), std::string("size ") + when);
  PEQ(c, m.empty(), ref.empty(), std::string("empty ") + when);
  std::map<K, int> seen;
  size_t n = 0;
  for (auto& kv : m) {
    ++n;
    seen[kv.first] = val(kv.second);
    PCHECK(c, n <= ref.size(), "iteration visits more elements than there are " << when);
  }
  PCHECK(c, seen == ref, "iteration visits other elements than those inserted " << when << ": " << seen.size() << " distinct of " << n);
  const M& cm = m;
  n = 0;
  for (auto it = cm.begin(); it != cm.end(); ++it) ++n;
  PEQ(c, n, ref.size(), std::string("const iteration ") + when);
}
template <typename K, typename H>
void mapOps(Ctx& c, int keys, util::memory::ErasedAllocator* alloc = nullptr) {
  using M = util::FlatMap<K, Obj, H>;
  long before = Obj::live;
  {
    auto fresh = [&]() { return alloc ? std::unique_ptr<M>(new M(alloc)) : c.chance(1, 3) ? std::unique_ptr<M>(new M((size_t)c.choose(40))) : std::unique_ptr<M>(new M()); };
    std::unique_ptr<M> m = fresh(), other = fresh();
    std::map<K, int> r, ro;
    std::string log;
    bool grew = false, erased = false;
    int n = c.weighted({4, 2, 1}) == 0 ? c.range(1, 30) : c.range(10, 120);
    for (int i = 0; i < n; ++i) {
      int x = (int)c.choose(keys);
      K k = mk<K>(x);
      int v = i + 1;
      int op = c.weighted({12, 8, 6, 8, 3, 1, 1, 2, 2, 2, 2, 2, 2, 3});
      log += " " + std::to_string(op) + "(" + std::to_string(x) + ")";
      size_t cap = m->bucket_count();
      switch (op) {
        case 0: {
          bool had = r.count(k);
          auto res = m->insert(std::make_pair(k, Obj(v)));
          PEQ(c, res.second, !had, "insert reports insertion" + log);
          if (!had) r[k] = v;
          PCHECK(c, res.first->first == k && val(res.first->second) == r[k], "insert returns the element" << log);
          break;
        }
        case 1: (*m)[k] = Obj(v); r[k] = v; break;
        case 2: {
          auto it = m->find(k);
          PEQ(c, it != m->end(), r.count(k) == 1, "find" + log);
          if (it != m->end()) PCHECK(c, it->first == k && val(it->second) == r[k], "found element" << log);
          PEQ(c, m->count(k), r.count(k), "count");
          PEQ(c, m->exists(k), r.count(k) == 1, "exists");
          if (r.count(k)) PEQ(c, val(m->at(k)), r[k], "at");
          break;
        }
        case 3: { size_t e = m->erase(k); PEQ(c, e, r.erase(k), "erased" + log); erased = erased || e; break; }
        case 4: {
          auto it = m->find(k);
          if (it != m->end()) {
            auto nx = it;
            ++nx;
            auto res = m->erase(it);
            PCHECK(c, res == nx, "erase returns the next element" << log);
            r.erase(k);
            erased = true;
          }
          break;
        }
        case 5: m->clear(); r.clear(); break;
        case 6: m->clear_no_resize(); r.clear(); break;
        case 7: m->reserve((size_t)c.choose(80)); break;
        case 8: m->swap(*other); r.swap(ro); break;
        case 9: if (!alloc) { *other = *m; ro = r; } break;
        case 10: { if (!alloc) { std::unique_ptr<M> cp(new M(*m)); sameMap(c, *cp, r, "of a copy"); (*cp)[k] = Obj(-5); if (c.chance(1, 2)) cp->clear(); } break; }
        case 11: {
          // erase a range of the iteration order
          auto it = m->begin();
          size_t skip = r.empty() ? 0 : c.choose(r.size() + 1);
          for (size_t j = 0; j < skip; ++j) ++it;
          std::vector<K> gone;
          auto last = it;
          for (int j = 0; j < 3 && last != m->end(); ++j, ++last) gone.push_back(last->first);
          m->erase(it, last);
          for (auto& g : gone) r.erase(g);
          erased = erased || !gone.empty();
          break;
        }
        case 12: {
          auto e = m->equal_range(k);
          size_t d = 0;
          for (auto it = e.first; it != e.second; ++it) ++d;
          PEQ(c, d, r.count(k), "equal_range" + log);
          break;
        }
        default: {
          bool had = r.count(k);
          auto res = m->emplace(k, Obj(v));
          PEQ(c, res.second, !had, "emplace reports insertion" + log);
          if (!had) r[k] = v;
          break;
        }
      }
      grew = grew || m->bucket_count() > cap;
      PEQ(c, m->size(), r.size(), "size after" + log);
      PEQ(c, Obj::live - before, (long)(r.size() + ro.size()), "live values after" + log);
      if (i % 8 == 7) sameMap(c, *m, r, log.c_str());
    }
    c.describe(log);
    sameMap(c, *m, r, log.c_str());
    sameMap(c, *other, ro, log.c_str());
    for (int x = 0; x < keys; ++x) PEQ(c, m->exists(mk<K>(x)), r.count(mk<K>(x)) == 1, "every key looked up" + log);
    c.labelIf(grew, "grew");
    c.labelIf(erased, "erased");
    c.nontrivial(r.size() + ro.size() > 3 && erased);
  }
  PEQ(c, Obj::live, before, "values left after destruction");
}
void maps(Ctx& c) {
  int keys = c.oneOf<int>({4, 20, 200});
  switch (c.choose(6)) {
    case 0: mapOps<int, HId>(c, keys); break;
    case 1: mapOps<int, HBad>(c, std::min(keys, 60)); break;
    case 2: mapOps<int, HMix>(c, keys); break;
    case 3: mapOps<std::string, HStr>(c, keys); break;
    case 4: mapOps<std::string, HStrBad>(c, std::min(keys, 60)); break;
    default: {
      util::memory::Manager mgr(1 << 20);
      auto al = mgr.core();
      mapOps<int, HMix>(c, keys, al.get());
    }
  }
}
template <typename K, typename H>
void setOps(Ctx& c, int keys) {
  using S = util::FlatSet<K, H>;
  S s, other;
  std::set<K> r, ro;
  std::string log;
  bool erased = false;
  int n = c.weighted({4, 2}) == 0 ? c.range(1, 30) : c.range(10, 120);
  auto same = [&](S& a, const std::set<K>& b) {
    PEQ(c, a.size(), b.size(), "size" + log);
    std::set<K> seen;
    size_t cnt = 0;
    for (auto& k : a) { seen.insert(k); PCHECK(c, ++cnt <= b.size(), "iteration is too long" << log); }
    PCHECK(c, seen == b, "elements differ" << log);
  };
  for (int i = 0; i < n; ++i) {
    int x = (int)c.choose(keys);
    K k = mk<K>(x);
    int op = c.weighted({10, 6, 8, 3, 1, 1, 2, 2, 2, 2});
    log += " " + std::to_string(op) + "(" + std::to_string(x) + ")";
    switch (op) {
      case 0: { auto res = s.insert(k); PEQ(c, res.second, r.insert(k).second, "insertion reported" + log); PCHECK(c, *res.first == k, "insert returns the element"); break; }
      case 1: PEQ(c, s.contains(k), r.count(k) == 1, "contains" + log); PEQ(c, s.count(k), r.count(k), "count"); PEQ(c, s.find(k) != s.end(), r.count(k) == 1, "find"); break;
      case 2: { size_t e = s.erase(k); PEQ(c, e, r.erase(k), "erased" + log); erased = erased || e; break; }
      case 3: { auto it = s.find(k); if (it != s.end()) { s.erase(it); r.erase(k); erased = true; } break; }
      case 4: s.clear(); r.clear(); break;
      case 5: s.clear_no_resize(); r.clear(); break;
      case 6: s.reserve((size_t)c.choose(80)); break;
      case 7: s.swap(other); r.swap(ro); break;
      case 8: other = s; ro = r; break;
      default: { S cp(s); PCHECK(c, cp == s, "a copy is equal" << log); if (cp.size()) { cp.erase(*r.begin()); PCHECK(c, cp != s, "a changed copy differs"); } same(s, r); }
    }
    if (i % 8 == 7) same(s, r);
  }
  c.describe(log);
  same(s, r);
  same(other, ro);
  for (int x = 0; x < keys; ++x) PEQ(c, s.contains(mk<K>(x)), r.count(mk<K>(x)) == 1, "every key looked up" + log);
  c.nontrivial(r.size() + ro.size() > 3 && erased);
}
void sets(Ctx& c) {
  int keys = c.oneOf<int>({4, 20, 200});
  switch (c.choose(4)) {
    case 0: setOps<int, HId>(c, keys); break;
    case 1: setOps<int, HBad>(c, std::min(keys, 60)); break;
    case 2: setOps<std::string, HStr>(c, keys); break;
    default: setOps<Obj, HMix>(c, keys);
  }
}
// ---- small vector ----
template <typename T, int N>
void vecOps(Ctx& c) {
  long before = Obj::live;
  {
    using V = util::InlinedVector<T, N>;
    V a, b;
    std::vector<int> ra, rb;
    std::string log;
    bool spilled = false;
    int maxn = N > 100 ? 400 : 40;
    auto same = [&](const V& v, const std::vector<int>& r) {
      PEQ(c, v.size(), r.size(), "size" + log);
      PCHECK(c, v.capacity() >= v.size(), "capacity" << log);
      size_t i = 0;
      for (auto& x : v) { PEQ(c, (int)val(x), r[i], "element " + std::to_string(i) + log); ++i; }
      PEQ(c, i, r.size(), "iteration" + log);
      if (!r.empty()) { PEQ(c, (int)val(v.front()), r.front(), "front"); PEQ(c, (int)val(v.back()), r.back(), "back"); size_t q = c.choose(r.size()); PEQ(c, (int)val(v[q]), r[q], "[]"); }
    };
    int n = c.range(1, 30), next = 0;
    for (int i = 0; i < n; ++i) {
      int op = c.weighted({8, 4, 3, 3, 3, 2, 2, 2, 2, 1, 3, 2, 2, 1, 2, 1});
      log += " " + std::to_string(op);
      next = (next + 1) % 100;
      T x = T(next);
      switch (op) {
        case 0: a.push_back(x); ra.push_back(next); break;
        case 1: a.emplace_back(next); ra.push_back(next); break;
        case 2: if (!ra.empty()) { a.pop_back(); ra.pop_back(); } break;
        case 3: { size_t p = c.choose(ra.size() + 1); auto it = a.insert(a.begin() + p, x); ra.insert(ra.begin() + p, next); PEQ(c, (size_t)(it - a.begin()), p, "insert position"); break; }
        case 4: if (!ra.empty()) { size_t p = c.choose(ra.size()); auto it = a.erase(a.begin() + p); ra.erase(ra.begin() + p); PEQ(c, (size_t)(it - a.begin()), p, "erase position"); } break;
        case 5: { size_t p = c.choose(ra.size() + 1), q = p + c.choose(ra.size() - p + 1); a.erase(a.begin() + p, a.begin() + q); ra.erase(ra.begin() + p, ra.begin() + q); break; }
        case 6: { size_t k = c.choose(maxn); a.resize(k); ra.resize(k, 0); break; }
        case 7: { size_t k = c.choose(maxn); a.resize(k, x); ra.resize(k, next); break; }
        case 8: a.reserve(c.choose(maxn)); break;
        case 9: a.clear(); ra.clear(); break;
        case 10: a.swap(b); ra.swap(rb); break;
        case 11: b = a; rb = ra; break;
        case 12: { V d(a); same(d, ra); PCHECK(c, d == a && !(d < a) && d <= a, "a copy is equal" << log); break; }
        case 13: { std::vector<T> src; std::vector<int> sr; for (int k = c.range(0, maxn); k > 0; --k) src.push_back(T(k % 100)), sr.push_back(k % 100); V d(src.begin(), src.end()); same(d, sr); V e(sr.size(), x); PEQ(c, e.size(), sr.size(), "filled"); for (auto& y : e) PEQ(c, (int)val(y), next, "filled element"); break; }
        case 14: if (!ra.empty()) { size_t p = c.choose(ra.size()); a.push_back(a[p]); ra.push_back(int(ra[p])); } break;
        default: { PCHECK(c, (a == b) == (ra == rb), "equality" << log); PCHECK(c, (a < b) == (ra < rb), "order" << log); }
      }
      spilled = spilled || ra.size() > (size_t)N;
      same(a, ra);
      same(b, rb);
    }
    c.describe(log);
    c.labelIf(spilled, "outgrew the inline storage");
    c.nontrivial(spilled);
  }
  PEQ(c, Obj::live, before, "values left after destruction");
}
void vectors(Ctx& c) {
  switch (c.choose(5)) {
    case 0: vecOps<int, 2>(c); break;
    case 1: vecOps<Obj, 1>(c); break;
    case 2: vecOps<Obj, 4>(c); break;
    case 3: vecOps<unsigned char, 300>(c); break;
    default: vecOps<int, 32>(c);
  }
}
// ---- LRU cache: the latest value of a key; the `capacity` most recently used keys are there ----
void lru(Ctx& c) {
  size_t cap = c.range(1, 8);
  using L = util::LruCache<int, int, HMix>;
  L l(cap);
  std::map<int, int> last;  // latest value
  std::list<int> recent;    // most recent first
  std::string log = "capacity " + std::to_string(cap) + ":";
  int keys = c.oneOf<int>({3, 8, 30});
  int n = c.range(1, 60);
  bool evicted = false;
  for (int i = 0; i < n; ++i) {
    int k = (int)c.choose(keys);
    bool ins = c.chance(3, 5);
    log += (ins ? " +" : " ?") + std::to_string(k);
    auto touch = [&]() { recent.remove(k); recent.push_front(k); };
    if (ins) {
      l.insert(k, i);
      last[k] = i;
      touch();
    } else {
      int v = -1;
      bool f = l.tryFind(k, &v);
      if (f) { PCHECK(c, last.count(k), "a key never inserted is found:" << log); PEQ(c, v, last[k], "cached value, " + log); touch(); }
      else { size_t pos = 0; for (int q : recent) { if (q == k) break; ++pos; } PCHECK(c, !last.count(k) || pos >= cap, "key " << k << " was used before only " << pos << " others, but is lost, " << log); }
    }
    // contents, seen through copies
    size_t present = 0;
    for (int q = 0; q < keys; ++q) {
      L cp(l);
      int v = -1;
      bool f = cp.tryFind(q, &v);
      present += f;
      size_t pos = 0;
      for (int z : recent) { if (z == q) break; ++pos; }
      if (f) { PCHECK(c, last.count(q), "key " << q << " never inserted is found, " << log); PEQ(c, v, last[q], "cached value of " + std::to_string(q) + ", " + log); }
      else if (last.count(q)) { evicted = true; PCHECK(c, pos >= cap, "key " << q << " is lost after " << pos << " others, " << log); }
    }
    PCHECK(c, present <= 2 * cap, "cache of capacity " << cap << " holds " << present << " keys");
  }
  c.describe(log);
  c.nontrivial(evicted);
}
// ---- queue ----
void queueSeq(Ctx& c) {
  unsigned cap = c.range(1, 6);
  util::bounded_queue<Obj> q(cap);
  if (c.chance(1, 3)) { q.~bounded_queue(); new (&q) util::bounded_queue<Obj>(); q.initialize(cap); }
  std::deque<int> r;
  std::string log = "capacity " + std::to_string(cap) + ":";
  int n = c.range(1, 60);
  bool full = false, wrapped = false;
  int put = 0;
  for (int i = 0; i < n; ++i) {
    switch (c.weighted({5, 3, 2})) {
      case 0: {
        unsigned res = c.chance(1, 4) ? c.choose(cap + 1) : 0;
        bool want = cap - r.size() > res;
        bool ok = q.offer(Obj(i), res);
        log += " +" + std::to_string(res);
        PEQ(c, ok, want, "offer, " + log);
        if (ok) r.push_back(i), ++put;
        full = full || !ok;
        break;
      }
      case 1: {
        Obj o(-1);
        bool ok = q.recieve(&o);
        log += " -";
        PEQ(c, ok, !r.empty(), "receive, " + log);
        if (ok) { PEQ(c, *o, r.front(), "received, " + log); r.pop_front(); }
        break;
      }
      default: if (!r.empty()) { Obj o = q.waitFor(); log += " w"; PEQ(c, *o, r.front(), "received, " + log); r.pop_front(); }
    }
    PEQ(c, q.size(), r.size(), "size, " + log);
    PEQ(c, q.remaining(), cap - r.size(), "remaining, " + log);
  }
  wrapped = put > (int)cap;
  c.describe(log);
  c.nontrivial(full && wrapped);
}
void queueThreads(Ctx& c) {
  unsigned cap = c.range(1, 4);
  int prod = c.range(1, 3), cons = c.range(1, 3), per = c.range(1, 60);
  c.describe("capacity " + std::to_string(cap) + " producers " + std::to_string(prod) + " consumers " + std::to_string(cons) + " items " + std::to_string(per));
  util::bounded_queue<int> q(cap);
  int total = prod * per;
  std::vector<std::vector<int>> got(cons);
  std::vector<std::thread> ts;
  for (int p = 0; p < prod; ++p)
    ts.emplace_back([&, p] { for (int i = 0; i < per; ++i) { int v = p * 1000 + i; while (!q.offer(int(v))) std::this_thread::yield(); } });
  std::vector<int> share(cons, total / cons);
  share[0] += total % cons;
  for (int k = 0; k < cons; ++k)
    ts.emplace_back([&, k] { for (int i = 0; i < share[k]; ++i) got[k].push_back(q.waitFor()); });
  for (auto& t : ts) t.join();
  std::multiset<int> all;
  for (auto& g : got) {
    std::map<int, int> lastOf;
    for (int v : g) {
      all.insert(v);
      PCHECK(c, !lastOf.count(v / 1000) || lastOf[v / 1000] < v, "items of one producer arrive out of order");
      lastOf[v / 1000] = v;
    }
  }
  PEQ(c, (int)all.size(), total, "items received");
  for (int p = 0; p < prod; ++p) for (int i = 0; i < per; ++i) PEQ(c, (int)all.count(p * 1000 + i), 1, "times an item was received");
  PEQ(c, q.size(), (size_t)0, "items left");
  c.nontrivial(prod + cons > 2 && per > (int)cap);
}
// ---- arena ----
void arena(Ctx& c) {
  size_t page = c.oneOf<size_t>({4096, 5000, 8192, 65536, (size_t)(2u << 20)});
  util::memory::Manager mgr(page);
  std::vector<std::unique_ptr<util::memory::PoolAlloc>> pools;
  pools.push_back(mgr.core());
  struct Blk { unsigned char* p; size_t n; unsigned char v; };
  std::vector<Blk> blks;
  std::string log = "page " + std::to_string(page) + ":";
  auto verify = [&]() {
    for (auto& b : blks)
      for (size_t i = 0; i < b.n; i += (b.n > 300 ? b.n / 100 : 1)) PCHECK(c, b.p[i] == b.v, "a block changed, " << log);
  };
  int n = c.range(1, 40), pagesUsed = 0;
  bool big = false;
  for (int i = 0; i < n; ++i) {
    switch (c.weighted({20, 1, 1, 1, 1})) {
      case 0: {
        size_t al = (size_t)1 << c.choose(c.chance(1, 6) ? 10 : 6);
        size_t sz = c.weighted({6, 2, 1}) == 0 ? c.range(0, 200) : c.chance(1, 2) ? c.range(0, (int)page) : page - (size_t)c.choose(70);
        auto& pool = *pools[c.choose(pools.size())];
        size_t rem = pool.remaining();
        log += " " + std::to_string(sz) + "/" + std::to_string(al);
        auto p = (unsigned char*)pool.allocate_memory(sz, al);
        if (sz) {
          PEQ(c, (size_t)p % al, (size_t)0, "alignment, " + log);
          for (auto& b : blks) PCHECK(c, p + sz <= b.p || b.p + b.n <= p, "blocks overlap, " << log);
          unsigned char v = (unsigned char)(i * 7 + 1);
          memset(p, v, sz);
          blks.push_back({p, sz, v});
        }
        if (pool.remaining() > rem || rem < sz) ++pagesUsed;
        break;
      }
      case 1: pools.push_back(mgr.core()); break;
      case 2: {
        // a new input: everything is given back
        verify();
        log += " reset";
        mgr.reset();
        for (auto& p : pools) p->reset();
        blks.clear();
        for (auto& p : pools) PEQ(c, (size_t)p->remaining(), (size_t)0, "remaining after a reset");
        break;
      }
      case 3: {
        big = true;
        log += " too-big";
        bool thrown = false;
        try {
          pools[0]->allocate_memory(page + 1 + c.choose(1000), 8);
        } catch (std::bad_alloc&) { thrown = true; }
        PCHECK(c, thrown, "an object larger than a page is allocated, " << log);
        break;
      }
      default: {
        auto b = pools[0]->allocateBuf<int>(c.choose(page / 8));
        for (size_t k = 0; k < b.size(); ++k) b[k] = 0x01010101;
        if (b.size()) blks.push_back({(unsigned char*)b.data(), b.size() * sizeof(int), 1});
      }
    }
    PCHECK(c, mgr.used() % page == 0, "used memory is a multiple of the page size");
  }
  verify();
  c.describe(log);
  c.labelIf(big, "object larger than a page");
  c.nontrivial(pagesUsed > 1);
}
std::string genS(Ctx& c, int mx) {
  std::string s;
  for (int n = c.range(0, mx); n > 0; --n) s += c.chance(1, 3) ? (char)c.oneOf<int>({0, 1, 0x7f, 0x80, 0xff}) : (char)('a' + c.choose(2));
  return s;
}
// ---- string buffer ----
void charbuf(Ctx& c) {
  using B = util::CharBuffer<64>;
  B b, spare;
  std::vector<std::pair<StringPiece, std::string>> kept, keptSpare;
  std::string log;
  int n = c.range(1, 30), over = 0;
  auto verify = [&]() {
    for (auto& k : kept) PCHECK(c, k.first.size() == k.second.size() && memcmp(k.first.data(), k.second.data(), k.second.size()) == 0, "a kept string changed," << log);
    for (auto& k : keptSpare) PCHECK(c, k.first.size() == k.second.size() && memcmp(k.first.data(), k.second.data(), k.second.size()) == 0, "a kept string changed," << log);
  };
  for (int i = 0; i < n; ++i) {
    switch (c.weighted({12, 3, 1, 1, 1})) {
      case 0: case 1: {
        std::string s = genS(c, c.oneOf<int>({3, 30, 70}));
        log += " " + std::to_string(s.size());
        std::unique_ptr<char[]> own(new char[s.size()]);
        if (s.size()) memcpy(own.get(), s.data(), s.size());
        StringPiece sp(own.get(), s.size());
        bool ok = b.import(&sp);
        PEQ(c, ok, s.size() <= 64, "import of " + std::to_string(s.size()));
        if (ok) { PCHECK(c, s.empty() || sp.data() != own.get(), "not copied"); kept.emplace_back(sp, s); PCHECK(c, !b.empty() || s.empty(), "empty after an import"); }
        else { ++over; PCHECK(c, sp.data() == own.get() && sp.size() == s.size(), "a failed import changes its argument"); }
        break;
      }
      case 2: log += " reset"; verify(); b.reset(); kept.clear(); PCHECK(c, b.empty(), "empty after reset"); break;
      case 3: { log += " move"; B t(std::move(b)); std::swap(kept, keptSpare); kept.clear(); spare = std::move(t); keptSpare = std::vector<std::pair<StringPiece, std::string>>(); b = B(); break; }
      default: { log += " moved-to"; b = std::move(spare); kept = std::move(keptSpare); keptSpare.clear(); spare = B(); }
    }
    verify();
  }
  c.describe(log);
  c.labelIf(over, "too long");
  c.nontrivial(kept.size() + keptSpare.size() > 2);
}
// ---- string views ----
int sgn(int x) { return x < 0 ? -1 : x > 0; }
void pieces(Ctx& c) {
  std::string a = genS(c, 12), b = c.chance(1, 3) ? a : c.chance(1, 2) ? a.substr(0, c.choose(a.size() + 1)) + genS(c, 3) : genS(c, 12);
  c.describe(quote(a) + " " + quote(b));
  std::unique_ptr<char[]> oa(new char[a.size()]), ob(new char[b.size()]);
  if (a.size()) memcpy(oa.get(), a.data(), a.size());
  if (b.size()) memcpy(ob.get(), b.data(), b.size());
  StringPiece x(oa.get(), a.size()), y(ob.get(), b.size());
  if (c.chance(1, 10)) { x = StringPiece(); a.clear(); }
  auto ucmp = [](const std::string& p, const std::string& q) { return sgn(p.compare(q)); };
  PEQ(c, x == y, a == b, "equality of " + quote(a) + " and " + quote(b));
  PEQ(c, x != y, a != b, "inequality");
  PEQ(c, x < y, ucmp(a, b) < 0, "order of " + quote(a) + " and " + quote(b));
  PEQ(c, y < x, ucmp(b, a) < 0, "order of " + quote(b) + " and " + quote(a));
  std::hash<StringPiece> h;
  if (a == b) PEQ(c, h(x), h(y), "hashes of equal strings");
  PCHECK(c, x.str() == a && x.size() == a.size() && x.empty() == a.empty(), "contents");
  size_t f = c.choose(a.size() + 1), t = f + c.choose(a.size() - f + 1);
  PCHECK(c, x.slice(f, t).str() == a.substr(f, t - f), "slice " << f << " " << t << " of " << quote(a));
  if (f < a.size()) {
    PCHECK(c, x.from(f).str() == a.substr(f), "from");
    PCHECK(c, x.take(f).str() == a.substr(0, f), "take");
    PEQ(c, x[f], a[f], "character");
  }
  std::string asg;
  x.assignTo(asg);
  PCHECK(c, asg == a, "assignTo");
  std::ostringstream os;
  os << x;
  PCHECK(c, os.str() == a, "stream output");
  util::FlatMap<StringPiece, int> m;
  m[x] = 1;
  m[y] = 2;
  PEQ(c, m.size(), (size_t)(a == b ? 1 : 2), "distinct strings as keys: " + quote(a) + " " + quote(b));
  util::io::FastPrinter fp;
  util::io::Printer pr;
  fp << x << 12 << "lit" << y << 'c';
  pr << x << 12 << "lit" << y << 'c';
  std::string want = a + "12lit" + b + "c";
  PCHECK(c, fp.result().str() == want, "fast printer: " << quote(fp.result().str()));
  PCHECK(c, pr.result().str() == want, "printer: " << quote(pr.result().str()));
  pr.reset(); fp.reset();
  PCHECK(c, pr.result().empty() && fp.result().empty(), "printers are empty after reset");
  pr << y; fp << y;
  PCHECK(c, pr.result().str() == b && fp.result().str() == b, "printers after reset: " << quote(pr.result().str()));
  // numbers
  std::string num = c.chance(1, 2) ? std::to_string(c.anyU64()) : c.chance(1, 2) ? std::to_string(c.choose(1000)) + std::string(c.choose(20), '9') : genS(c, 3);
  if (c.chance(1, 5)) num.insert(c.choose(num.size() + 1), 1, (char)c.oneOf<int>({'-', ' ', '+', '0', 'a', '/', ':'}));
  bool digits = !num.empty();
  unsigned __int128 v = 0;
  for (char ch : num) { if (ch < '0' || ch > '9') digits = false; else if (v >> 64 == 0) v = v * 10 + (ch - '0'); }
  u64 got = 0;
  bool ok = util::parseU64(num, &got), fits = digits && v >> 64 == 0;
  PEQ(c, ok, fits, "number " + quote(num) + " accepted");
  if (ok) PEQ(c, (uint64_t)got, (uint64_t)v, "number " + num);
  c.labelIf(digits && !fits, "number too large");
  c.nontrivial(a.size() > 1 && b.size() > 1 && a[0] == b[0]);
}
// ---- slices ----
void slices(Ctx& c) {
  size_t rows = c.range(0, 6), cols = c.range(1, 5);
  std::vector<int> base(rows * cols);
  for (size_t i = 0; i < base.size(); ++i) base[i] = (int)i + 1;
  std::vector<int> ref = base;
  util::MutableArraySlice<int> ms(&base);
  util::Sliceable<int> sl(ms, cols, rows);
  c.describe(std::to_string(rows) + "x" + std::to_string(cols));
  PEQ(c, sl.size(), ref.size(), "size");
  PEQ(c, sl.numRows(), rows, "rows");
  size_t a = c.choose(rows + 1), b = a + c.choose(rows - a + 1);
  auto check = [&](util::ConstSliceable<int> s, size_t from, size_t to) {
    PEQ(c, s.numRows(), to - from, "rows of a part");
    PEQ(c, s.rowSize(), cols, "row size of a part");
    PEQ(c, s.size(), (to - from) * cols, "size of a part");
    for (size_t r = 0; r < to - from; ++r) {
      auto row = s.row((i32)r);
      PEQ(c, row.size(), cols, "row size");
      for (size_t k = 0; k < cols; ++k) {
        PEQ(c, row.at(k), ref[(from + r) * cols + k], "element of a row");
        PEQ(c, s.at(r, k), ref[(from + r) * cols + k], "element by row and column");
        PEQ(c, s.at(r * cols + k), ref[(from + r) * cols + k], "element by index");
      }
    }
    size_t i = from * cols;
    for (auto v : s) PEQ(c, v, ref[i++], "iteration");
    PEQ(c, i, to * cols, "iteration length");
  };
  const util::Sliceable<int>& csl = sl;
  util::ConstSliceable<int> cs(sl);
  for (int i = c.range(0, 6); i > 0 && !ref.empty(); --i) {
    size_t r = c.choose(rows), k = c.choose(cols);
    int v = c.range(100, 999);
    switch (c.choose(3)) {
      case 0: sl.at(r, k) = v; break;
      case 1: sl.row((i32)r)[k] = v; break;
      default: sl.rows(r, rows).at(0, k) = v;
    }
    ref[r * cols + k] = v;
  }
  check(cs, 0, rows);
  check(cs.rows(a, b), a, b);
  check(cs.topRows(b), 0, b);
  check(sl.rows(a, b), a, b);
  check(sl.topRows(b), 0, b);
  check(csl.rows(a, b), a, b);
  check(csl.topRows(b), 0, b);
  // one-dimensional
  util::ArraySlice<int> as(base);
  size_t p = c.choose(ref.size() + 1), n = c.choose(ref.size() - p + 1);
  util::ArraySlice<int> sub(as, p, n);
  std::vector<int> want(ref.begin() + p, ref.begin() + p + n), got(sub.begin(), sub.end()), rev(sub.rbegin(), sub.rend());
  PCHECK(c, got == want, "subslice");
  PCHECK(c, std::equal(rev.begin(), rev.end(), want.rbegin()) && rev.size() == want.size(), "reverse iteration");
  size_t k = c.choose(n + 1), l = c.choose(n - k + 1);
  sub.remove_prefix(k);
  sub.remove_suffix(l);
  std::vector<int> w2(want.begin() + k, want.end() - l);
  PCHECK(c, sub == util::ArraySlice<int>(w2) && sub.size() == w2.size(), "after removing a prefix and a suffix");
  std::vector<int> w3 = w2;
  if (!w3.empty()) { w3[c.choose(w3.size())] ^= 1; PCHECK(c, sub != util::ArraySlice<int>(w3), "slices of different content are equal"); }
  // compaction
  std::vector<int> data = ref, erase, left;
  for (size_t i = 0; i < data.size(); ++i) if (c.chance(1, 3)) erase.push_back((int)i); else left.push_back(data[i]);
  std::vector<int> all = data;
  util::compact(data, erase);
  std::vector<int> front(data.begin(), data.begin() + left.size());
  PCHECK(c, front == left, "elements kept by compact");
  std::sort(data.begin(), data.end());
  std::sort(all.begin(), all.end());
  PCHECK(c, data == all, "compact loses elements");
  c.nontrivial(rows > 1 && cols > 1 && b > a);
}
// ---- partition ----
void partition(Ctx& c) {
  int n = c.weighted({4, 1}) == 0 ? c.range(1, 14) : c.range(1, 80);
  int vals = c.oneOf<int>({1, 2, 5, 1000});
  std::vector<std::pair<int, int>> v;
  for (int i = 0; i < n; ++i) v.emplace_back((int)c.choose(vals), i);
  int lo = c.range(1, n), hi = c.range(lo, n);
  std::string log;
  for (auto& x : v) log += std::to_string(x.first) + " ";
  c.describe(log + "[" + std::to_string(lo) + "," + std::to_string(hi) + "]");
  auto before = v;
  bool rev = c.chance(1, 2);
  auto cmp = [&](const std::pair<int, int>& a, const std::pair<int, int>& b) { return rev ? a.first > b.first : a.first < b.first; };
  auto mid = util::partition(v.begin(), v.end(), cmp, (size_t)lo, (size_t)hi);
  int k = (int)(mid - v.begin());
  PCHECK(c, lo <= k && k <= hi, "size of the best part is " << k << ", asked for " << lo << " to " << hi);
  for (int i = 0; i < k; ++i) for (int j = k; j < n; ++j) PCHECK(c, !cmp(v[j], v[i]), "an element left out is better than one kept: " << v[j].first << " " << v[i].first);
  std::sort(v.begin(), v.end());
  std::sort(before.begin(), before.end());
  PCHECK(c, v == before, "partition loses elements");
  c.nontrivial(n > 3 && hi < n);
}
// ---- lazily created value ----
void lazy(Ctx& c) {
  long before = Obj::live;
  {
    using L = util::Lazy<Obj>;
    std::vector<std::unique_ptr<L>> v;
    std::vector<int> r;  // -1: empty
    std::string log;
    auto add = [&](L* l, int x) { v.emplace_back(l); r.push_back(x); };
    add(new L(), -1);
    int used = 0;
    long moved = 0;  // a move takes the value over without destroying the source
    for (int n = c.range(1, 20); n > 0; --n) {
      size_t i = c.choose(v.size()), j = c.choose(v.size());
      int op = (int)c.choose(7);
      log += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ")";
      switch (op) {
        case 0: { int x = c.range(0, 99); v[i]->initialize(x); r[i] = x; break; }
        case 1: v[i]->destroy(); r[i] = -1; break;
        case 2: if (v.size() < 5) { // memory that held something else
            auto mem = ::operator new(sizeof(L)); memset(mem, 0x5a, sizeof(L)); add(new (mem) L(*v[i]), r[i]); ++used; } break;
        case 3: if (v.size() < 5) { auto mem = ::operator new(sizeof(L)); memset(mem, 0x5a, sizeof(L)); add(new (mem) L(std::move(*v[i])), r[i]); if (r[i] >= 0) ++moved; r[i] = -1; ++used; } break;
        case 4: if (r[j] >= 0) { *v[i] = *v[j]; r[i] = r[j]; ++used; } break;
        case 5: if (i != j && r[j] >= 0) { *v[i] = std::move(*v[j]); r[i] = r[j]; r[j] = -1; ++used; ++moved; } break;
        default: add(new L(), -1);
      }
      for (size_t k = 0; k < v.size(); ++k) {
        PEQ(c, v[k]->isInitialized(), r[k] >= 0, "initialized, element " + std::to_string(k) + " after" + log);
        if (r[k] >= 0) PEQ(c, *v[k]->value(), r[k], "value after" + log);
      }
      long alive = 0;
      for (int x : r) alive += x >= 0;
      PEQ(c, Obj::live - before - moved, alive, "live values after" + log);
    }
    c.describe(log);
    c.nontrivial(used > 0);
    before += moved;
  }
  PEQ(c, Obj::live, before, "values left after destruction");
}
}  // namespace u04
int main(int argc, char** argv) {
  CheckDef d;
  d.id = "U04";
  d.assumptions = {"operations respect the documented preconditions (no element reference used across a change, ranges within bounds)",
                   "LRU cache: the capacity most recently used keys are kept, at most twice the capacity is held, a second insertion of a key replaces its value"};
  using namespace u04;
  d.facets.push_back({"maps", "more than 3 elements at the end and something was erased", 100000, 1800000, maps});
  d.facets.push_back({"sets", "more than 3 elements at the end and something was erased", 75000, 1200000, sets});
  d.facets.push_back({"vectors", "the inline storage was outgrown", 100000, 1800000, vectors});
  d.facets.push_back({"lru", "something was evicted", 40000, 600000, lru});
  d.facets.push_back({"queue", "the queue was full and wrapped around", 100000, 1800000, queueSeq});
  d.facets.push_back({"queue-threads", "several threads and more items than capacity", 400, 10000, queueThreads, 40, true});
  d.facets.push_back({"arena", "several pages were used", 40000, 600000, arena});
  d.facets.push_back({"charbuf", "more than two strings kept", 100000, 1800000, charbuf});
  d.facets.push_back({"pieces", "both strings have a common first byte", 300000, 6000000, pieces});
  d.facets.push_back({"slices", "several rows and columns", 150000, 3000000, slices});
  d.facets.push_back({"partition", "more than three elements, some left out", 300000, 6000000, partition});
  d.facets.push_back({"lazy", "copied or moved", 100000, 1800000, lazy});
  return runMain(argc, argv, d);
}
