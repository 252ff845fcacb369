// Generated recurrent networks, their files and a reference forward pass in double precision.
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
#include "core/analysis/rnn_scorer_gbeam.h"
#include "rnn/mikolov_rnn.h"
#include "world.h"

namespace rn {
using namespace w;
typedef std::vector<double> Vec;

struct Net {
  std::vector<float> emb, nce, W, me;
  int L = 1, order = 3;
  uint64_t maxent = 0;
  float lnz = 9;
  Strs words;  // vocabulary, the first is the end of sentence
  int V() const { return (int)words.size(); }
  static Net make(Ctx& c, const Strs& words) {
    Net n;
    n.words = words;
    n.L = c.oneOf({4, 1, 2, 3, 5, 8, 13, 16, 17, 32});
    n.order = c.range(1, 4);
    n.maxent = words.size() + c.oneOf<uint64_t>({1, 2, 3, 7, 64, 101, 1000, 4099});
    n.lnz = c.oneOf({9, 0, -3, 4}) + c.oneOf({0.f, 0.5f});
    pbt::Rng r{c.bits(32)};
    auto fill = [&](std::vector<float>& v, size_t k, float scale) {
      v.resize(k);
      for (auto& x : v) x = ((int)(r.next() % 4001) - 2000) / 2000.f * scale;
    };
    fill(n.emb, (size_t)n.L * n.V(), 2);
    fill(n.nce, (size_t)n.L * n.V(), 3);
    fill(n.W, (size_t)n.L * n.L, n.L > 4 ? 1 : 2);
    fill(n.me, n.maxent, c.oneOf({2.f, 0.f, 5.f}));
    return n;
  }
  std::string str() const {
    std::ostringstream o;
    o << "network: layer " << L << " order " << order << " maxent " << maxent << " lnz " << lnz << " words";
    for (auto& x : words) o << " " << quote(x);
    return o.str();
  }
  static constexpr size_t kHeader = 8 + 8 + 4 + 1 + 4 + 1 + 64 + 4 + 4;
  std::string nnet() const {
    std::string s;
    auto put = [&](const void* p, size_t n) { s.append((const char*)p, n); };
    uint64_t sv = 60000 + L;
    uint32_t ord = order, lc = 1, hs = 2;
    bool nceF = true, rev = false;
    char type[64] = "sigmoid";
    put(&sv, 8), put(&maxent, 8), put(&ord, 4), put(&nceF, 1), put(&lnz, 4), put(&rev, 1), put(type, 64), put(&lc, 4), put(&hs, 4);
    for (auto v : {&emb, &nce, &W, &me}) put(v->data(), v->size() * 4);
    return s;
  }
  std::string vocab() const {
    std::string s;
    for (size_t i = 0; i < words.size(); ++i) s += words[i] + " " + std::to_string(1000 - i) + "\n";
    return s;
  }
  void write(const std::string& base) const {
    pbt::writeFile(base, vocab());
    pbt::writeFile(base + ".nnet", nnet());
  }
  // the definition
  Vec step(const Vec& ctx, int word) const {
    Vec r(L);
    for (int b = 0; b < L; ++b) {
      double x = emb[(size_t)word * L + b];
      for (int a = 0; a < L; ++a) x += (double)W[(size_t)b * L + a] * ctx[a];
      r[b] = 1 / (1 + std::exp(-x));
    }
    return r;
  }
  Vec bos() const { return step(Vec(L, 0.0), 0); }
  // history: the previous word first
  double raw(const Vec& ctx, const std::vector<int>& hist, int word) const {
    double x = 0;
    for (int a = 0; a < L; ++a) x += (double)nce[(size_t)word * L + a] * ctx[a];
    uint64_t max = maxent - V();
    namespace mk = jumanpp::rnn::mikolov;
    for (int i = 0; i < order; ++i) {
      uint64_t h = mk::PRIMES[0] * mk::PRIMES[1];
      for (int j = 1; j <= i; ++j) h += mk::PRIMES[(i * mk::PRIMES[j] + j) % 36] * ((uint64_t)(int64_t)hist.at(j - 1) + 1);
      x += me[((h % max) + word) % max];
    }
    return x;
  }
};
inline bool near(double a, double b) { return std::fabs(a - b) <= 1e-3 + 1e-4 * (std::fabs(a) + std::fabs(b)); }
}  // namespace rn
