// A06: scores add up, beams keep the best, wide beams find the optimum
#include <array>
#include "scoring.h"
using namespace w;

namespace {
typedef an::ConnectionBeamElement El;
World smallWorld(Ctx& c, int maxRows = 10) {
  GenOpts o;
  o.maxRows = maxRows;
  o.rich = c.chance(1, 3);
  return genWorld(c, o);
}
std::string ids(NodeId n) { return std::to_string(n.b - 2) + "/" + std::to_string(n.i); }
NodeId leftOf(an::Lattice* L, const an::ConnectionPtr& p) {
  auto x = L->boundary(p.boundary)->ends()->nodePtrs().at(p.left);
  return {x.boundary, x.position};
}
std::vector<float> totals(util::ArraySlice<El> beam) {
  std::vector<float> r;
  for (auto& e : beam) {
    if (fake(e)) break;
    r.push_back(e.totalScore);
  }
  return r;
}
std::vector<float> top(std::vector<float> v, size_t k) {
  std::sort(v.begin(), v.end(), std::greater<float>());
  if (v.size() > k) v.resize(k);
  return v;
}
std::string fl(const std::vector<float>& v) {
  std::ostringstream o;
  for (auto x : v) o << " " << x;
  return o.str();
}

// a plugin giving every connection an offset that depends on the two nodes
struct Offsets : an::ScorePlugin {
  static float value(int lb, int li, int rb, int ri) { return (float)(((lb * 31 + li) * 17 + rb * 7 + ri * 3) % 13 - 6) / 8.f; }
  bool updateScore(const an::Lattice* l, const an::ConnectionPtr& p, float* s) const override {
    auto x = l->boundary(p.boundary)->ends()->nodePtrs().at(p.left);
    *s += value(x.boundary, x.position, p.boundary, p.right);
    return true;
  }
};
// a second score source
struct Second : an::ScoreComputer {
  static float value(int b, int left, int right, int beam) { return (float)((b * 29 + left * 13 + right * 5 + beam * 3) % 19 - 9) / 16.f; }
  Status scoreLattice(an::Lattice* l, const an::ExtraNodesContext*, u32 idx) override {
    for (u32 b = 2; b < l->createdBoundaryCount(); ++b) {
      auto bnd = l->boundary(b);
      for (u32 i = 0; i < bnd->localNodeCount(); ++i) {
        auto ns = bnd->scores()->nodeScores(i);
        for (u32 x = 0; x < ns.beam(); ++x)
          for (u32 y = 0; y < ns.left(); ++y) ns.beamLeft(x, y).at(idx) = value(b, y, i, x);
      }
    }
    return Status::Ok();
  }
};
struct SecondFactory : an::ScorerFactory {
  Status load(const core::model::ModelInfo&) override { return Status::Ok(); }
  Status makeInstance(std::unique_ptr<an::ScoreComputer>* r) override {
    r->reset(new Second);
    return Status::Ok();
  }
};

void beams(Ctx& c) {
  World w = smallWorld(c);
  std::string s = genSentence(c, w);
  Weights wt = Weights::make(c);
  Beams bm = Beams::make(c);
  bool plug = c.chance(1, 4);
  int autoStep = 0, autoBase = 0, autoMax = 0;
  if (c.chance(1, 6)) {
    autoStep = c.range(1, 4);
    autoBase = c.range(1, 4);
    autoMax = c.range(1, 12);
  }
  c.describe(show(w) + "sentence: " + s + "\n" + bm.str() + (plug ? " plugin" : "") + (autoStep ? " auto " + std::to_string(autoBase) + "+n/" + std::to_string(autoStep) + "<=" + std::to_string(autoMax) : ""));
  Model m;
  m.build(c, w);
  auto cfg = bm.cfg();
  cfg.autoBeamStep = autoStep;
  cfg.autoBeamBase = autoBase;
  cfg.autoBeamMax = autoMax;
  Engine e(c, m.core.get(), wt, bm, cfg);
  WOK(c, e.lattice(s), "lattice for " + quote(s));
  Offsets off;
  WOK(c, e.an->bootstrapAnalysis(), "bootstrap");
  if (plug) {
    e.an->setPlugin(&off);
    e.an->sproc()->plugin_ = &off;
  }
  WOK(c, e.an->computeScores(&e.sdef), "computeScores");
  if (s.empty()) return;
  int n = (int)cps(s).size();
  size_t K = bm.beam, G = bm.gleft;
  if (autoStep) {
    K = std::min(autoBase + n / autoStep, autoMax);
    G = bm.gleft ? K : 0;
  }
  auto L = e.an->lattice();
  RefScorer ref(*e.an, wt.v);
  int cut = 0, nodes = 0, full = 0, headOnly = 0;
  for (int b = 2; b < (int)L->createdBoundaryCount(); ++b) {
    auto bnd = L->boundary(b);
    auto ends = bnd->ends()->nodePtrs();
    if (bnd->localNodeCount() == 0) continue;
    // all beam elements on the left
    struct LE {
      int left, beam;
      const El* e;
    };
    std::vector<LE> lefts;
    for (int l = 0; l < (int)ends.size(); ++l) {
      auto row = L->boundary(ends.at(l).boundary)->starts()->beamData().row(ends.at(l).position);
      for (int k = 0; k < (int)row.size() && !fake(row.at(k)); ++k) lefts.push_back({l, k, &row.at(k)});
    }
    std::set<std::pair<int, int>> head;
    size_t headSize = 0;
    if (G) {
      std::vector<float> all, got;
      for (auto& x : lefts) all.push_back(x.e->totalScore);
      auto gb = bnd->ends()->globalBeam();
      size_t cnt = std::min(G, lefts.size());
      if (cnt > 0 || gb.size() == 0) {
        for (size_t i = 0; i < gb.size(); ++i) got.push_back(gb.at(i)->totalScore);
        PCHECK(c, got == top(all, G), "global beam at " << b - 2 << " holds" << fl(got) << " but the best are" << fl(top(all, G)));
      }
      std::vector<LE> kept;
      headSize = bm.rcheck > 0 ? std::min<size_t>({(size_t)bm.rcheck, bnd->localNodeCount(), cnt}) : cnt;
      std::set<const El*> seen;
      for (size_t i = 0; i < cnt; ++i) {
        bool found = false;
        for (auto& x : lefts)
          if (x.e == gb.at(i)) {
            found = true;
            PCHECK(c, seen.insert(x.e).second, "an element is twice in the global beam");
            kept.push_back(x);
            if (i < headSize) head.insert({x.left, x.beam});
          }
        PCHECK(c, found, "the global beam has an element that doesn't end at " << b - 2);
      }
      cut += lefts.size() > kept.size();
      lefts = kept;
    }
    std::vector<float> cutoff;
    std::vector<char> isHeadOnly, isFull;
    for (int i = 0; i < (int)bnd->localNodeCount(); ++i) {
      NodeId me{b, i};
      std::vector<float> all, headT;
      float sum = 0;
      std::map<std::pair<int, int>, float> cand;
      for (auto& x : lefts) {
        NodeId l1 = {ends.at(x.left).boundary, ends.at(x.left).position};
        NodeId l2 = {x.e->ptr.previous->boundary, x.e->ptr.previous->right};
        float local = ref.score(l2, l1, me);
        if (plug) local += Offsets::value(l1.b, l1.i, b, i);
        float tot = x.e->totalScore + local;
        cand[{x.left, x.beam}] = tot;
        all.push_back(tot);
        if (head.count({x.left, x.beam})) {
          headT.push_back(tot);
          sum += local;
        }
      }
      auto beam = bnd->starts()->beamData().row(i);
      PCHECK(c, beam.size() == K, "beam size " << beam.size() << " expected " << K);
      auto got = totals(beam);
      for (size_t k = got.size(); k < beam.size(); ++k) PCHECK(c, fake(beam.at(k)), "element after the end of a beam at " << ids(me));
      bool okAll = got == top(all, K), okHead = got == top(headT, K);
      PCHECK(c, okAll || (bm.rcheck > 0 && G > 0 && okHead), "beam of node " << ids(me) << " holds" << fl(got) << " but the best continuations are" << fl(top(all, K)) << (headT.size() != all.size() ? " or for the head" + fl(top(headT, K)) : ""));
      std::set<std::pair<int, int>> used;
      for (size_t k = 0; k < got.size(); ++k) {
        auto& el = beam.at(k);
        auto key = std::make_pair((int)el.ptr.left, (int)el.ptr.beam);
        PCHECK(c, el.ptr.boundary == b && el.ptr.right == i, "beam element of " << ids(me) << " claims to be another node");
        PCHECK(c, cand.count(key), "beam element of " << ids(me) << " continues something that was not kept");
        PCHECK(c, used.insert(key).second, "the same continuation is twice in the beam of " << ids(me));
        PCHECK(c, cand[key] == el.totalScore, "element score " << el.totalScore << " of " << ids(me) << " is not the sum of its parts " << cand[key]);
        auto lp = ends.at(el.ptr.left);
        auto& le = L->boundary(lp.boundary)->starts()->beamData().row(lp.position).at(el.ptr.beam);
        PCHECK(c, el.ptr.previous == &le.ptr, "beam element of " << ids(me) << " links to another element than it names");
        float stored = bnd->scores()->forPtr(el.ptr).at(0);
        PCHECK(c, stored + le.totalScore == el.totalScore, "stored connection score " << stored << " of " << ids(me) << " and previous " << le.totalScore << " do not give " << el.totalScore);
      }
      ++nodes;
      cutoff.push_back(sum);
      isFull.push_back(okAll);
      isHeadOnly.push_back(okHead);
      cut += all.size() > K;
    }
    if (G && bm.rcheck > 0) {
      // the rsize nodes with the best scores over the head are continued from the whole global beam
      size_t keep = std::min<size_t>(bm.rsize, cutoff.size());
      auto sorted = top(cutoff, cutoff.size());
      for (size_t i = 0; i < cutoff.size(); ++i) {
        bool sureIn = keep == cutoff.size() || cutoff[i] > sorted[keep];
        bool sureOut = !sureIn && cutoff[i] < sorted[keep - 1];
        if (sureIn) PCHECK(c, isFull[i], "node " << b - 2 << "/" << i << " is among the best but was not given the whole global beam");
        if (sureOut) PCHECK(c, isHeadOnly[i], "node " << b - 2 << "/" << i << " is not among the best but was given the whole global beam");
        full += sureIn;
        headOnly += sureOut;
      }
    }
  }
  // the reported path is the first element of the end-of-sentence beam
  auto path = topPath(c, *e.an);
  auto eosB = (int)L->createdBoundaryCount() - 1;
  auto& best = L->boundary(eosB)->starts()->beamData().row(0).at(0);
  PCHECK(c, !fake(best), "no analysis reaches the end of the sentence");
  float sum = 0;
  NodeId t2{0, 0}, t1{1, 0};
  auto pp = path;
  pp.push_back({eosB, 0});
  for (auto t0 : pp) {
    sum += ref.score(t2, t1, t0);
    if (plug) sum += Offsets::value(t1.b, t1.i, t0.b, t0.i);
    t2 = t1;
    t1 = t0;
  }
  PCHECK(c, sum == best.totalScore, "score of the best path is " << sum << ", reported " << best.totalScore);
  c.labelIf(cut > 0, "something pruned");
  c.labelIf(G > 0, "global beam");
  c.labelIf(full > 0 && headOnly > 0, "right side pruned");
  c.labelIf(plug, "plugin");
  c.labelIf(autoStep > 0, "auto beam");
  c.nontrivial(nodes >= 6);
}

// exact second-order dynamic programming over all routes
void optimum(Ctx& c) {
  World w = smallWorld(c, 8);
  std::string s = genSentence(c, w, c.chance(1, 3) ? 8 : 5);
  Weights wt = Weights::make(c);
  Beams wide;
  wide.beam = 1;
  c.describe(show(w) + "sentence: " + s + " weights " + std::to_string(wt.v.size()));
  if (s.empty()) return;
  Model m;
  m.build(c, w);
  // count routes first
  Engine probe(c, m.core.get(), wt, wide);
  WOK(c, probe.lattice(s), "lattice for " + quote(s));
  auto L0 = probe.an->lattice();
  int B = (int)L0->createdBoundaryCount();
  std::map<NodeId, double> routes;
  routes[{1, 0}] = 1;
  double maxRoutes = 0, maxLeft = 0;
  for (int b = 2; b < B; ++b) {
    double in = 0;
    for (auto& p : L0->boundary(b)->ends()->nodePtrs()) in += routes[{p.boundary, p.position}];
    for (int i = 0; i < (int)L0->boundary(b)->localNodeCount(); ++i) {
      routes[{b, i}] = in;
      maxRoutes = std::max(maxRoutes, in);
    }
    maxLeft = std::max(maxLeft, in);
  }
  if (maxRoutes > 220) c.discard();
  wide.beam = (int)std::max(1.0, maxRoutes) + c.range(0, 3);
  bool g = c.chance(1, 2);
  Beams gb = wide;
  gb.gleft = (int)maxLeft + c.range(1, 3);
  if (c.chance(1, 2)) {
    gb.rcheck = c.oneOf({1, 2, 300});
    gb.rsize = c.oneOf({400, 1000});
  }
  Engine e(c, m.core.get(), wt, wide), eg(c, m.core.get(), wt, gb);
  WOK(c, e.analyze(s), "analysis of " + quote(s));
  auto L = e.an->lattice();
  RefScorer ref(*e.an, wt.v);
  std::map<std::pair<NodeId, NodeId>, float> dp;  // (t1, t0) -> best
  dp[{NodeId{0, 0}, NodeId{1, 0}}] = 0;
  std::map<NodeId, std::vector<std::pair<NodeId, float>>> states;  // t0 -> (t1, score)
  states[{1, 0}].push_back({NodeId{0, 0}, 0.f});
  for (int b = 2; b < B; ++b)
    for (int i = 0; i < (int)L->boundary(b)->localNodeCount(); ++i) {
      NodeId t0{b, i};
      for (auto& p : L->boundary(b)->ends()->nodePtrs()) {
        NodeId t1{p.boundary, p.position};
        bool any = false;
        float best = 0;
        for (auto& st : states[t1]) {
          float x = st.second + ref.score(st.first, t1, t0);
          if (!any || x > best) best = x;
          any = true;
        }
        if (any) states[t0].push_back({t1, best});
      }
    }
  float best = -1e30f;
  for (auto& st : states[{B - 1, 0}]) best = std::max(best, st.second);
  auto check = [&](Engine& x, const char* what) {
    auto& el = x.an->lattice()->boundary(B - 1)->starts()->beamData().row(0).at(0);
    PCHECK(c, !fake(el), "no result with " << what);
    PCHECK(c, el.totalScore == best, "the best route of " << quote(s) << " scores " << best << ", the analysis with " << what << " found " << el.totalScore);
    float sum = 0;
    NodeId t2{0, 0}, t1{1, 0};
    auto pp = topPath(c, *x.an);
    pp.push_back({B - 1, 0});
    for (auto t0 : pp) {
      sum += ref.score(t2, t1, t0);
      t2 = t1;
      t1 = t0;
    }
    PCHECK(c, sum == best, "the reported path scores " << sum << " and not the maximum " << best << " with " << what);
  };
  check(e, "a wide beam");
  {
    WOK(c, eg.analyze(s), "analysis with a global beam of " + quote(s));
    check(eg, "a wide global beam");
    for (int b = 2; b < B; ++b)
      for (int i = 0; i < (int)L->boundary(b)->localNodeCount(); ++i) {
        auto x = totals(L->boundary(b)->starts()->beamData().row(i)), y = totals(eg.an->lattice()->boundary(b)->starts()->beamData().row(i));
        PCHECK(c, x == y, "beam of " << b - 2 << "/" << i << " differs with a global beam that prunes nothing:" << fl(x) << " /" << fl(y));
      }
  }
  c.labelIf(maxRoutes > 10, "more than ten routes");
  c.labelIf(g, "global beam");
  c.nontrivial(maxRoutes >= 4);
}

// with a second scorer: totals are the weighted sums
void second(Ctx& c) {
  World w = smallWorld(c);
  std::string s = genSentence(c, w);
  if (s.empty()) s = c.pick(w.alphabet);
  Weights wt = Weights::make(c);
  Beams bm = Beams::make(c);
  bm.gleft = c.oneOf({1, 2, 3, 5, 8});
  float w0 = c.oneOf({1.f, 0.5f, 0.f}), w1 = c.oneOf({1.f, 0.5f, 2.f, -1.f, 0.f});
  c.describe(show(w) + "sentence: " + s + "\n" + bm.str() + " w=" + std::to_string(w0) + "," + std::to_string(w1));
  Model m;
  m.build(c, w);
  SecondFactory f;
  an::HashedFeaturePerceptron hfp{util::ArraySlice<float>(wt.v)};
  an::ScorerDef def;
  def.feature = &hfp;
  def.others.push_back(&f);
  def.scoreWeights = {w0, w1};
  Analyzer a(m.core.get(), core::ScoringConfig{bm.beam, 2}, bm.cfg());
  WOK(c, a.initScorers(def), "initScorers");
  WOK(c, a.resetForInput(s), "reset");
  WOK(c, a.prepareNodeSeeds(), "seeds");
  WOK(c, a.buildLattice(), "lattice");
  WOK(c, a.bootstrapAnalysis(), "bootstrap");
  WOK(c, a.computeScores(&def), "computeScores");
  RefScorer ref(a, wt.v);
  auto L = a.lattice();
  int B = (int)L->createdBoundaryCount();
  std::map<const El*, float> total;
  int n = 0;
  auto expect = [&](int b, const an::ConnectionPtr& p) {
    NodeId t1 = leftOf(L, p);
    NodeId t2{p.previous->previous->boundary, p.previous->previous->right};
    float x = ref.score(t2, t1, NodeId{b, p.right}) * w0 + Second::value(b, p.left, p.right, p.beam) * w1;
    return x + reinterpret_cast<const El*>(p.previous)->totalScore;
  };
  for (int b = 3; b < B; ++b) {
    if (L->boundary(b)->localNodeCount() == 0) continue;
    for (auto el : L->boundary(b)->ends()->globalBeam()) {
      ++n;
      float x = expect(el->ptr.boundary, el->ptr);
      PCHECK(c, x == el->totalScore, "score " << el->totalScore << " of a kept path ending at " << b - 2 << " is not the weighted sum " << x);
    }
  }
  // the end: every kept path continued to the end of sentence, best first
  auto row = L->boundary(B - 1)->starts()->beamData().row(0);
  std::vector<float> all, got = totals(row);
  auto gb = L->boundary(B - 1)->ends()->globalBeam();
  auto ends = L->boundary(B - 1)->ends()->nodePtrs();
  for (auto el : gb)
    for (int l = 0; l < (int)ends.size(); ++l) {
      auto r = L->boundary(ends.at(l).boundary)->starts()->beamData().row(ends.at(l).position);
      for (int k = 0; k < (int)r.size(); ++k)
        if (&r.at(k) == el) {
          NodeId t1{ends.at(l).boundary, ends.at(l).position}, t2{el->ptr.previous->boundary, el->ptr.previous->right};
          all.push_back(ref.score(t2, t1, NodeId{B - 1, 0}) * w0 + Second::value(B - 1, l, 0, k) * w1 + el->totalScore);
        }
    }
  PCHECK(c, got == top(all, bm.beam), "end of sentence holds" << fl(got) << " expected" << fl(top(all, bm.beam)));
  for (auto& el : row) {
    if (fake(el)) break;
    PCHECK(c, expect(B - 1, el.ptr) == el.totalScore, "score of a final path is not the sum of its parts");
  }
  c.nontrivial(n >= 4);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "A06";
  d.assumptions = {"weights are multiples of 1/1024 and sentences short, so that float sums are exact in any order",
                   "feature values come from the whole-ngram interface; A07 decides whether they are right",
                   "among equal scores any choice is accepted"};
  d.facets.push_back({"beams", "at least six lattice words, for any beam configuration", 40000, 500000, beams});
  d.facets.push_back({"optimum", "at least four routes through the lattice", 16000, 200000, optimum});
  d.facets.push_back({"second-scorer", "at least four paths kept by the global beam", 10000, 120000, second});
  return pbt::runMain(argc, argv, d);
}
