// Small property-based testing framework.
//
// All randomness of a case is drawn through Ctx::choose(n) from one recorded
// choice sequence. A case is identified by its choice sequence, so shrinking
// and replay work on that sequence for every generator ("internal shrinking").
// Cases run in forked workers: crashes, sanitizer aborts and CPU-time blowups
// are failures of the case that was running and are shrunk like any other.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

typedef uint64_t u64;
extern u64* gRecBuf;
extern size_t gRecCap;

struct Rng {  // splitmix64
  u64 s;
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};

struct Discard {};
struct Failure {
  std::string sig;
  std::string msg;
};

class Ctx {
  const std::vector<u64>* replay_ = nullptr;
  size_t pos_ = 0;
  Rng rng_{0};
  std::vector<u64> rec_;

 public:
  std::vector<std::string> labels;
  std::string sample_;
  std::string note_;
  bool nontrivial_ = false;
  u64 hash_ = 0;
  bool hashSet_ = false;
  std::string tmpdir;  // scratch directory of this worker
  bool thorough = false;

  explicit Ctx(u64 seed) : rng_{seed} {}
  explicit Ctx(const std::vector<u64>& replay) : replay_{&replay} {}
  const std::vector<u64>& recorded() const { return rec_; }

  // uniform in [0, n). 0 is the simplest value.
  u64 choose(u64 n) {
    u64 v;
    if (n <= 1) return 0;
    if (replay_) {
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
      ++pos_;
      if (v >= n) v = n - 1;
    } else {
      v = rng_.next() % n;
    }
    rec_.push_back(v);
    if (gRecBuf && rec_.size() <= gRecCap) {
      gRecBuf[rec_.size()] = v;
      gRecBuf[0] = rec_.size();
    }
    return v;
  }
  int range(int lo, int hi) { return lo + (int)choose((u64)(hi - lo) + 1); }
  u64 bits(int nbits) {
    if (nbits >= 64) return (choose(1ull << 32) << 32) | choose(1ull << 32);
    return choose(1ull << nbits);
  }
  // an integer with a random magnitude
  u64 anyU64() {
    int b = range(0, 64);
    if (b == 0) return 0;
    u64 v = bits(b);
    switch (choose(6)) {
      case 1: return b == 64 ? ~0ull : (1ull << b) - 1;
      case 2: return b == 64 ? 1ull << 63 : (1ull << b);
      default: return v;
    }
  }
  // true with probability num/den; shrinks to false
  bool chance(int num, int den) { return choose(den) >= (u64)(den - num); }
  // continue a list? average length about avg
  bool more(size_t have, size_t min, size_t max, int avg) {
    if (have < min) return true;
    if (have >= max) return false;
    return choose(avg + 1) != 0;
  }
  template <typename V>
  auto pick(const V& v) -> decltype(v[0]) {
    return v[choose(v.size())];
  }
  template <typename T>
  T oneOf(std::initializer_list<T> v) {
    return *(v.begin() + choose(v.size()));
  }
  int weighted(std::initializer_list<int> w) {
    int sum = 0;
    for (int x : w) sum += x;
    int r = (int)choose(sum);
    int i = 0;
    for (int x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }

  void label(const std::string& l) { labels.push_back(l); }
  void labelIf(bool b, const std::string& l) {
    if (b) labels.push_back(l);
  }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  // textual form of the case: hashed for distinctness, sampled for evidence
  void writeDescription(const std::string& fn) const;
  std::string descFile;  // the description survives a crash in this file
  void describe(const std::string& s) {
    if (sample_.size() < 20000) sample_ += s;
    for (unsigned char ch : s) hash_ = (hash_ ^ ch) * 0x100000001b3ull;
    hashSet_ = true;
    if (!descFile.empty()) writeDescription(descFile);
  }
  void note(const std::string& s) {
    if (note_.size() < 20000) note_ += s + "\n";
    if (!descFile.empty()) writeDescription(descFile);
  }
  void discard() { throw Discard{}; }
  void fail(const std::string& msg, const std::string& sig = "") {
    throw Failure{sig, msg};
  }
};

struct Facet {
  std::string name;
  std::string rule;
  int quick;
  int thorough;
  std::function<void(Ctx&)> fn;
  int cpuLimit = 40;  // CPU seconds for one case before it counts as a hang
  bool nondet = false;  // outcome may depend on thread scheduling
  int workers = 8;
};

struct CheckDef {
  std::string id;
  std::vector<std::string> assumptions;
  std::vector<Facet> facets;
};

int runMain(int argc, char** argv, const CheckDef& def);

std::string quote(const std::string& s);  // printable rendering of bytes
std::string scratchFile(Ctx& c, const std::string& name);
void writeFile(const std::string& name, const std::string& data);
std::string readFile(const std::string& name);

}  // namespace pbt

#define PCHECK(c, cond, msg)                                       \
  do {                                                             \
    if (!(cond)) {                                                 \
      std::ostringstream os_;                                      \
      os_ << #cond << " at " << __FILE__ << ":" << __LINE__ << ": " << msg; \
      (c).fail(os_.str());                                         \
    }                                                              \
  } while (0)

#define PEQ(c, a, b, msg)                                              \
  do {                                                                 \
    auto&& a_ = (a);                                                   \
    auto&& b_ = (b);                                                   \
    if (!(a_ == b_)) {                                                 \
      std::ostringstream os_;                                          \
      os_ << #a " == " #b << " at " << __FILE__ << ":" << __LINE__     \
          << ": got " << a_ << " expected " << b_ << ": " << msg;      \
      (c).fail(os_.str());                                             \
    }                                                                  \
  } while (0)
