// A03: results do not depend on history, instance or thread
#include <thread>
#include "core/analysis/analyzer.h"
#include "snapshot.h"
using namespace w;

namespace {
// prefers or forbids words depending on their span
struct SpanPlugin : an::ScorePlugin {
  int salt = 0;
  bool updateScore(const an::Lattice* l, const an::ConnectionPtr& p, float* s) const override {
    auto& ni = l->boundary(p.boundary)->starts()->nodeInfo().at(p.right);
    *s += (float)((ni.start() * 7 + ni.end() * 3 + salt) % 5) - 2.f;
    return true;
  }
};
struct Step {
  std::string s;
  int plugin;  // 0: none
};
void history(Ctx& c) {
  GenOpts o;
  o.fallback = c.chance(4, 5);
  o.maxRows = 12;
  World w = genWorld(c, o);
  Weights wt = Weights::make(c);
  Beams bm = Beams::make(c);
  auto cfg = bm.cfg();
  cfg.maxInputBytes = 300;
  if (c.chance(1, 5)) {
    cfg.autoBeamStep = c.range(1, 4);
    cfg.autoBeamBase = c.range(1, 4);
    cfg.autoBeamMax = c.range(1, 10);
  }
  std::vector<Step> steps;
  int n = c.range(2, 7);
  for (int i = 0; i < n; ++i) {
    Step x;
    x.plugin = c.chance(1, 4) ? c.range(1, 3) : 0;
    switch (c.weighted({6, 1, 1, 2})) {
      case 0: x.s = genSentence(c, w, c.chance(1, 6) ? 40 : 10); break;
      case 1: x.s = std::string(301, 'a'); break;
      case 2: x.s = genSentence(c, w, 6) + "\xff"; break;
      case 3: x.s = steps.empty() ? genSentence(c, w) : c.pick(steps).s; break;
    }
    steps.push_back(x);
  }
  std::string d;
  for (auto& s : steps) d += "input: " + quote(s.s) + (s.plugin ? " plugin" + std::to_string(s.plugin) : "") + "\n";
  c.describe(show(w) + d + bm.str() + " auto" + std::to_string(cfg.autoBeamStep));
  Model m;
  m.build(c, w);
  Engine used(c, m.core.get(), wt, bm, cfg);
  an::Analyzer api;
  WOK(c, api.initialize(used.an.get(), &used.sdef), "initialize");
  int ok = 0, failed = 0;
  std::map<std::pair<std::string, int>, std::string> first;
  for (auto& x : steps) {
    SpanPlugin pl, pl2;
    pl.salt = pl2.salt = x.plugin;
    auto go = [&](Engine& e, an::Analyzer& a, SpanPlugin* p) {
      Status st = a.analyze(x.s, x.plugin ? p : nullptr);
      if (!st) return "error: " + st.message().str();
      return snapshot(c, w, *e.an);
    };
    std::string r1 = go(used, api, &pl);
    auto cfg2 = cfg;
    cfg2.pageSize = (size_t)c.oneOf({1 << 18, 1 << 19, 1 << 20});
    Engine fresh(c, m.core.get(), wt, bm, cfg2);
    an::Analyzer f;
    WOK(c, f.initialize(fresh.an.get(), &fresh.sdef), "initialize");
    std::string r2 = go(fresh, f, &pl2);
    PCHECK(c, r1 == r2, "analysis of " << quote(x.s) << " after other sentences differs from that of a fresh analyzer:" << firstDiff(r1, r2));
    auto it = first.insert({{x.s, x.plugin}, r1});
    PCHECK(c, it.first->second == r1, "analysis of " << quote(x.s) << " differs from the first time:" << firstDiff(it.first->second, r1));
    c.labelIf(!it.second, "repeated sentence");
    (r1.substr(0, 6) == "error:" ? failed : ok)++;
    c.labelIf(x.plugin, "constrained");
  }
  // settings changed between sentences behave as if set from the start
  if (c.chance(1, 3) && bm.gleft) {
    Beams b2 = bm;
    b2.gleft = c.range(1, 6);
    b2.rcheck = c.range(0, 2);
    b2.rsize = c.range(1, 4);
    used.an->setGlobalBeam(b2.gleft, b2.rcheck, b2.rsize);
    bool all = c.chance(1, 2);
    used.an->setStoreAllPatterns(all);
    auto cfg2 = cfg;
    cfg2.globalBeamSize = b2.gleft;
    cfg2.rightGbeamCheck = b2.rcheck;
    cfg2.rightGbeamSize = b2.rsize;
    Engine fresh(c, m.core.get(), wt, b2, cfg2);
    std::string s = genSentence(c, w, 10);
    an::Analyzer f;
    WOK(c, f.initialize(fresh.an.get(), &fresh.sdef), "initialize");
    Status a = api.analyze(s), b = f.analyze(s);
    PCHECK(c, a.isOk() == b.isOk(), "changed settings: one analyzer fails for " << quote(s));
    if (a) {
      std::string x = snapshot(c, w, *used.an), y = snapshot(c, w, *fresh.an);
      PCHECK(c, x == y, "after changing the global beam the analysis of " << quote(s) << " differs from that with the setting from the start:" << firstDiff(x, y));
    }
    c.label("settings changed");
  }
  c.labelIf(failed > 0 && ok > 0, "failures between sentences");
  c.nontrivial(ok >= 2);
}
// several threads, one model
void threads(Ctx& c) {
  GenOpts o;
  o.maxRows = 12;
  World w = genWorld(c, o);
  Weights wt = Weights::make(c);
  Beams bm = Beams::make(c);
  Strs ss;
  int n = c.range(2, 8);
  for (int i = 0; i < n; ++i) ss.push_back(genSentence(c, w, 10));
  std::string d;
  for (auto& s : ss) d += "input: " + quote(s) + "\n";
  c.describe(show(w) + d + bm.str());
  Model m;
  m.build(c, w);
  an::HashedFeaturePerceptron hfp{util::ArraySlice<float>(wt.v)};
  an::ScorerDef def;
  def.feature = &hfp;
  def.scoreWeights.push_back(1.f);
  auto mk = [&] {
    std::unique_ptr<Analyzer> a(new Analyzer(m.core.get(), core::ScoringConfig{bm.beam, 1}, bm.cfg()));
    WOK(c, a->initScorers(def), "initScorers");
    return a;
  };
  Strs want;
  for (auto& s : ss) {
    auto a = mk();
    an::Analyzer api;
    WOK(c, api.initialize(a.get(), &def), "initialize");
    WOK(c, api.analyze(s), "analyze");
    want.push_back(snapshot(c, w, *a));
  }
  int nt = 4;
  std::vector<std::string> err(nt);
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      try {
        Ctx dummy(1);  // only used to report
        auto a = mk();
        an::Analyzer api;
        Status st = api.initialize(a.get(), &def);
        for (int rep = 0; rep < 3; ++rep)
          for (int i = 0; i < n; ++i) {
            int k = (i * (t + 1) + t) % n;
            Status r = api.analyze(ss[k]);
            std::string got = r ? snapshot(dummy, w, *a) : std::string("error");
            if (got != want[k]) {
              err[t] = "analysis of " + quote(ss[k]) + " in a thread differs:" + firstDiff(got, want[k]);
              return;
            }
          }
      } catch (pbt::Failure& f) {
        err[t] = f.msg;
      }
    });
  for (auto& t : th) t.join();
  for (auto& e : err)
    if (!e.empty()) c.fail(e, "thread");
  c.nontrivial(n >= 3);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "A03";
  d.assumptions = {"the output renderings are compared by O01-O03, which also run after other sentences"};
  d.facets.push_back({"history", "at least two sentences of the history were analysed", 6000, 120000, history});
  d.facets.push_back({"threads", "at least three sentences, four threads", 600, 10000, threads, 40, true, 4});
  return pbt::runMain(argc, argv, d);
}
