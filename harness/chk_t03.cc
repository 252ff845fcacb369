// T03: the training signal: loss, feature difference and weight update
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
#include "core/impl/model_io.h"
#include "core/input/partial_example_io.h"
#include "core/training/partial_trainer.h"
#include "core/training/scw.h"
#include "partial.h"
#include "scoring.h"
using namespace w;
namespace in = jumanpp::core::input;

namespace {
using Diff = std::map<u32, double>;
Diff toDiff(Ctx& c, util::ArraySlice<tr::ScoredFeature> d, u32 nf) {
  Diff r;
  std::set<u32> seen;
  for (auto& x : d) {
    PCHECK(c, x.feature < nf, "feature " << x.feature << " is outside of the weights");
    PCHECK(c, std::isfinite(x.score), "the difference of feature " << x.feature << " is " << x.score);
    if (x.score == 0) continue;
    PCHECK(c, seen.insert(x.feature).second, "feature " << x.feature << " is twice in the difference");
    r[x.feature] = x.score;
  }
  return r;
}
std::string str(const Diff& d) {
  std::ostringstream o;
  for (auto& x : d) o << x.first << ":" << x.second << " ";
  return o.str();
}
bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }

// ---------------------------------------------------------------- weights
struct Scw {
  tr::TrainingConfig tc;
  std::unique_ptr<tr::SoftConfidenceWeighted> s;
  Scw(Ctx& c, int exponent) {
    tc.featureNumberExponent = exponent;
    tc.scw.C = c.oneOf({1.f, .1f, 10.f, .01f});
    tc.scw.phi = c.oneOf({5.f, 1.f, .5f, 2.f, 10.f});
    tc.randomSeed = (u32)c.choose(1000);
    s.reset(new tr::SoftConfidenceWeighted(tc));
  }
  std::vector<float> weights() {
    core::model::ModelInfo mi;
    s->exportModel(&mi);
    auto d = mi.parts.at(0).data.at(1);
    std::vector<float> r(d.size() / sizeof(float));
    memcpy(r.data(), d.begin(), r.size() * sizeof(float));
    return r;
  }
  std::vector<float> diag(Ctx& c, std::vector<float>* w) {
    std::string dir = pbt::scratchFile(c, "x");
    dir.resize(dir.rfind('/'));
    s->dumpModel(dir, "p", 7);
    core::model::FilesystemModel f;
    std::string name = dir + "/p.000007.mdldump";
    WOK(c, f.open(name), "dump of the weights");
    core::model::ModelInfo mi;
    WOK(c, f.load(&mi), "dump of the weights");
    PEQ(c, mi.parts.size(), (size_t)1, "parts of the dump");
    PEQ(c, mi.parts[0].data.size(), (size_t)3, "data of the dump");
    auto get = [&](int i) {
      auto d = mi.parts[0].data[i];
      std::vector<float> r(d.size() / sizeof(float));
      memcpy(r.data(), d.begin(), r.size() * sizeof(float));
      return r;
    };
    *w = get(1);
    auto r = get(2);
    unlink(name.c_str());
    return r;
  }
  double margin(const std::vector<float>& w, const Diff& d) {
    double m = 0;
    for (auto& x : d) m += w[x.first] * x.second;
    return m;
  }
  // one update, compared with the definition of SCW-I; false: nothing had to change
  bool update(Ctx& c, float loss, util::ArraySlice<tr::ScoredFeature> fs, const Diff& d) {
    auto w0 = weights();
    std::vector<float> wd;
    auto s0 = diag(c, &wd);
    PCHECK(c, wd == w0, "dumped weights are not the exported ones");
    PEQ(c, w0.size(), (size_t)tc.numFeatures(), "number of weights");
    s->update(loss, fs);
    auto w1 = weights();
    auto s1 = diag(c, &wd);
    PCHECK(c, wd == w1, "dumped weights are not the exported ones");
    typedef long double ld;
    ld v = 0, sc = 0, phi = tc.scw.phi, C = tc.scw.C, zeta = 1 + phi * phi, psi = 1 + phi * phi / 2;
    for (auto& x : d) v += (ld)x.second * x.second * s0[x.first], sc += (ld)w0[x.first] * x.second;
    if (loss < 1e-5 || v == 0) {
      PCHECK(c, w0 == w1 && s0 == s1, "the weights change without a loss");
      return false;
    }
    ld m = loss * sc;
    ld alpha = (-m * psi + std::sqrt(m * m * phi * phi * phi * phi / 4 + v * phi * phi * zeta)) / (v * zeta);
    alpha = std::max<ld>(0, std::min(C, alpha));
    ld q = -alpha * v * phi + std::sqrt(alpha * alpha * v * v * phi * phi + 4 * v);
    ld u = q * q / 4;
    ld beta = alpha * phi / (std::sqrt(u) + v * alpha * phi);
    double scale = std::fabs((double)m) * (double)psi / (double)(v * zeta);  // cancellation in alpha
    for (u32 i = 0; i < w0.size(); ++i) {
      auto it = d.find(i);
      double x = it == d.end() ? 0 : it->second;
      double ew = w0[i] + (double)alpha * loss * s0[i] * x, es = s0[i] - (double)beta * s0[i] * s0[i] * x * x;
      if (x == 0) {
        PCHECK(c, w1[i] == w0[i] && s1[i] == s0[i], "the weight of feature " << i << " changes, it is not in the difference");
        continue;
      }
      double tol = 1e-5 * (1 + std::fabs(w0[i]) + std::fabs(ew)) + 1e-6 * scale * std::fabs(x * s0[i]);
      PCHECK(c, std::fabs(w1[i] - ew) <= tol, "weight of feature " << i << ": " << w0[i] << " -> " << w1[i] << ", expected " << ew << ", loss " << loss << " difference " << x << " confidence " << s0[i]);
      PCHECK(c, std::fabs(s1[i] - es) <= 1e-5 + 1e-6 * scale, "confidence of feature " << i << ": " << s0[i] << " -> " << s1[i] << ", expected " << es << " beta " << (double)beta << " x " << x);
      PCHECK(c, s1[i] >= 0 && s1[i] <= s0[i], "confidence of feature " << i << ": " << s0[i] << " -> " << s1[i]);
    }
    double m0 = margin(w0, d), m1 = margin(w1, d);
    PCHECK(c, m1 >= m0 - 1e-5 * (1 + std::fabs(m0)), "an update lowers the margin: " << m0 << " -> " << m1);
    c.labelIf(alpha == 0, "no step: the margin is large");
    c.labelIf(alpha == C, "largest step");
    c.labelIf(alpha > 0 && alpha < C, "step by confidence");
    return alpha > 0;
  }
};
void scw(Ctx& c) {
  Scw s(c, c.range(2, 8));
  int n = (int)s.tc.numFeatures();
  std::ostringstream o;
  o << "2^" << s.tc.featureNumberExponent << " C " << s.tc.scw.C << " phi " << s.tc.scw.phi << " seed " << s.tc.randomSeed << "\n";
  WOK(c, s.s->validate(), "validate");
  double lim = 1 / std::sqrt((double)n);
  bool zeroed = false;
  auto w0 = s.weights();
  for (float x : w0) PCHECK(c, std::fabs(x) <= lim * 1.0001, "initial weight " << x << " is not small, limit " << lim);
  tr::SoftConfidenceWeighted again(s.tc);
  {
    core::model::ModelInfo mi;
    again.exportModel(&mi);
    auto d = mi.parts.at(0).data.at(1);
    PCHECK(c, d.size() == w0.size() * 4 && !memcmp(d.begin(), w0.data(), d.size()), "initial weights depend on more than the seed");
  }
  int rounds = c.range(1, 12), real = 0;
  std::vector<Diff> past;
  for (int r = 0; r < rounds; ++r) {
    if (c.chance(1, 10)) {
      auto b = s.weights();
      u64 k = s.s->substractInitValues(), e = 0;
      auto a = s.weights();
      for (int i = 0; i < n; ++i) {
        double m = std::fabs(b[i]) * std::sqrt((double)n);
        if (std::fabs(m - 1.01) < 1e-3) continue;
        PEQ(c, a[i], m < 1.01 ? 0.f : b[i], "removal of initial values, weight " << i << " " << b[i]);
      }
      for (int i = 0; i < n; ++i) e += a[i] == 0;
      PEQ(c, k, e, "number of removed initial values");
      zeroed = true;
    }
    Diff d;
    if (!past.empty() && c.chance(1, 2)) d = c.pick(past);
    int k = d.empty() || c.chance(1, 3) ? c.range(0, std::min(n, 6)) : 0;
    for (int i = 0; i < k; ++i) d[(u32)c.choose(n)] = c.range(1, 12) / 4. * (c.chance(1, 2) ? 1 : -1);
    float loss = c.oneOf({1.f, .5f, .25f, 1 / 3.f, .01f, 1e-4f, 1e-6f, 0.f});
    std::vector<tr::ScoredFeature> fs;
    if (c.chance(1, 2)) fs.push_back({0, 0});
    for (auto& x : d) fs.push_back({x.first, (float)x.second});
    o << "loss " << loss << " " << str(d) << "\n";
    c.describe(o.str());
    past.push_back(d);
    real += s.update(c, loss, fs, d);
    // the scorer sees the weights
    auto w = s.weights();
    std::vector<u32> f{(u32)c.choose(n), (u32)c.choose(n)};
    float res = 0;
    util::MutableArraySlice<float> out{&res, 1};
    s.s->scorers()->feature->compute(out, util::Sliceable<u32>{util::MutableArraySlice<u32>{f.data(), f.size()}, 2, 1});
    PCHECK(c, near(res, (double)w[f[0]] + w[f[1]], 1e-5), "the scorer doesn't use the trained weights: " << res);
  }
  if (real > 1) c.nontrivial();
  c.labelIf(zeroed, "initial values removed");
}

// ---------------------------------------------------------------- full annotation
struct Top {
  NodeId n, p1, p2;
};
NodeId idOf(const an::ConnectionPtr* p) { return {p->boundary, p->right}; }
std::vector<Top> topNodes(an::Lattice* L) {
  std::vector<Top> r;
  int eos = (int)L->createdBoundaryCount() - 1;
  const an::ConnectionPtr* p = &L->boundary(eos)->starts()->beamData().at(0).ptr;
  for (; p->boundary >= 2; p = p->previous) r.insert(r.begin(), {idOf(p), idOf(p->previous), idOf(p->previous->previous)});
  return r;  // with EOS
}
struct FullOracle {
  double loss = 0;
  Diff diff;
  bool vague = false, sameSeg = true, same = true, fellOff = false;
  int errors = 0, till = 0, steps = 0;
};
FullOracle fullOracle(Ctx& c, const core::CoreHolder& core, an::Lattice* L, const std::vector<NodeId>& gold, const std::vector<float>& wts, tr::TrainingMode mode) {
  FullOracle o;
  auto& spec = core.spec();
  u32 mask = (u32)wts.size() - 1;
  int eos = (int)L->createdBoundaryCount() - 1;
  auto score = [&](const std::vector<u32>& f) {
    double s = 0;
    for (u32 x : f) s += wts[x & mask];
    return s;
  };
  auto top = topNodes(L);
  struct Step {
    bool top = false, gold = false, err = false, off = false;
    double viol = 0, weight = 0;
    std::vector<u32> tf, gf;
  };
  std::vector<Step> steps;
  double full = 0, ts = 0, gs = 0;
  for (auto& f : spec.training.fields) full += f.weight;
  auto gat = [&](int i) { return i < 0 ? NodeId{2 + i, 0} : i < (int)gold.size() ? gold[i] : NodeId{eos, 0}; };
  size_t ti = 0, gi = 0;
  while (ti < top.size() || gi <= gold.size()) {
    Step s;
    int tb = top[ti].n.b, gb = gat((int)gi).b;
    s.top = tb <= gb;
    s.gold = gb <= tb;
    NodeId g = gat((int)gi);
    if (s.top) {
      s.tf = ngramFeats(L, core, top[ti].p2, top[ti].p1, top[ti].n);
      ts += score(s.tf);
    }
    if (s.gold) {
      s.gf = ngramFeats(L, core, gat((int)gi - 2), gat((int)gi - 1), g);
      gs += score(s.gf);
      if (gi > 0) {
        s.off = true;
        for (auto& e : L->boundary(g.b)->starts()->beamData().row(g.i)) {
          if (fake(e)) break;
          if (idOf(e.ptr.previous) == gat((int)gi - 1)) s.off = false;
        }
      }
    }
    s.viol = ts - gs;
    if (s.top && s.gold) {
      auto data = L->boundary(tb)->starts()->entryData();
      if (tb != eos)
        for (auto& f : spec.training.fields)
          if (f.weight != 0 && data.row(top[ti].n.i).at(f.dicIdx) != data.row(g.i).at(f.dicIdx)) s.weight += f.weight;
      double tol = 1e-5 * (1 + std::fabs(ts) + std::fabs(gs));
      if (s.weight == 0 && std::fabs(s.viol - .001) < tol) o.vague = true;
      s.err = s.weight > 0 || s.viol > .001;
      if (!(top[ti].n == g)) o.same = false;
    } else {
      s.weight = full;
      s.err = true;
      o.sameSeg = o.same = false;
    }
    o.loss += s.err ? s.weight : 0;
    if (s.top) ++ti;
    if (s.gold) ++gi;
    steps.push_back(s);
  }
  int sz = o.steps = (int)steps.size();
  o.loss /= sz * full;
  o.till = sz;
  if (mode == tr::TrainingMode::FalloffBeam) {
    for (int i = 0; i < sz; ++i)
      if (steps[i].off) {
        o.till = std::min(i + 2, sz - 1);
        o.fellOff = true;
        break;
      }
  } else if (mode == tr::TrainingMode::MaxViolation) {
    int at = 0;
    double best = 0, second = 0;
    for (int i = 0; i < sz; ++i)
      if (steps[i].top && steps[i].viol > best) at = i, best = steps[i].viol;
    for (int i = 0; i < sz; ++i)
      if (steps[i].top && i != at) second = std::max(second, steps[i].viol);
    o.till = std::min(at + 2, sz - 1);
    if (best - second < 1e-4 * (1 + std::fabs(ts) + std::fabs(gs))) o.vague = true;
  }
  std::map<u32, int> cnt;
  for (int i = 0; i < sz; ++i) {
    if (!steps[i].err) continue;
    ++o.errors;
    if (i >= o.till) continue;
    for (u32 x : steps[i].gf) ++cnt[x & mask];
    for (u32 x : steps[i].tf) --cnt[x & mask];
  }
  double P = 0, N = 0;
  for (auto& x : cnt) (x.second > 0 ? P : N) += std::abs(x.second);
  double wp = 1, wn = N != 0 ? P / N : 1;
  if (wn > 2 && P != 0) wp = N / P, wn = 1;
  for (auto& x : cnt) {
    double v = x.second * (x.second > 0 ? wp : wn);
    if (v != 0) o.diff[x.first] = v;
  }
  return o;
}
void full(Ctx& c) {
  World w = trainWorld(c, 14, false, !c.chance(1, 5));
  addAliases(c, w);
  bool csv = c.chance(1, 2);
  if (c.chance(1, 4) && w.train.size() > 1) {  // fields have different importance
    for (auto& x : w.train) x.second = c.oneOf({1.f, .5f, 2.f, 1.f});
  }
  auto ws = writeSet(c, w, genSet(c, w, csv, 3), csv, false);
  Beams b = Beams::make(c);
  auto cfg = b.cfg();
  cfg.storeAllPatterns = true;
  tr::TrainingConfig tc;
  tc.mode = c.oneOf({tr::TrainingMode::Full, tr::TrainingMode::FalloffBeam, tr::TrainingMode::MaxViolation});
  const char* mn = tc.mode == tr::TrainingMode::Full ? "full" : tc.mode == tr::TrainingMode::FalloffBeam ? "until it falls off the beam" : "until the largest violation";
  bool learn = c.chance(1, 2);
  int gchange = c.chance(1, 4);
  c.describe(show(w) + (csv ? "csv\n" : "morph\n") + quote(ws.data) + "\n" + b.str() + " mode " + mn + (learn ? " learning" : "") + "\n");
  Model m;
  m.build(c, w);
  in::TrainFieldsIndex tio;
  WOK(c, tio.initialize(*m.core), "index of values");
  tr::FullExampleReader rdr;
  rdr.setTrainingIo(&tio);
  rdr.setFilename("file");
  WOK(c, csv ? rdr.initCsv(ws.data) : rdr.initDoubleCsv(ws.data), "reader");
  Weights wt = Weights::make(c);
  an::HashedFeaturePerceptron perc{util::ArraySlice<float>(wt.v)};
  an::ScorerDef sdef;
  sdef.feature = &perc;
  sdef.scoreWeights.push_back(1.f);
  std::unique_ptr<Scw> scw;
  const an::ScorerDef* sc = &sdef;
  if (learn) {
    scw.reset(new Scw(c, c.range(6, 10)));
    sc = scw->s->scorers();
  }
  tc.featureNumberExponent = 0;
  size_t nw = learn ? scw->tc.numFeatures() : wt.v.size();
  while (((size_t)1 << tc.featureNumberExponent) < nw) ++tc.featureNumberExponent;
  tc.beamSize = b.beam;
  auto& spec = m.core->spec();
  tr::TrainerFullConfig conf{&cfg, m.core.get(), &spec.training, &tc};
  std::vector<std::unique_ptr<tr::OwningFullTrainer>> ts;
  bool oneTrainer = c.chance(1, 2);
  for (size_t i = 0; i < ws.ex.size(); ++i) {
    if (i == 0 || !oneTrainer) {
      ts.emplace_back(new tr::OwningFullTrainer(conf));
      WOK(c, ts.back()->initAnalyzer(sc), "initAnalyzer");
    }
    auto& t = *ts.back();
    t.reset();
    WOK(c, t.readExample(&rdr), "example " + std::to_string(i));
    auto& g = ws.ex[i];
    int rounds = learn ? c.range(1, 6) : c.chance(1, 4) ? 2 : 1;
    for (int r = 0; r < rounds; ++r) {
      if (gchange && c.chance(1, 2)) {
        tr::GlobalBeamTrainConfig gc;
        Beams x = Beams::make(c);
        gc.leftBeam = x.gleft;
        gc.rightBeam = x.rsize;
        gc.rightCheck = x.rcheck;
        t.setGlobalBeam(gc);
      }
      Status ps = t.prepare();
      if (g.words.empty() && !ps.isOk()) break;
      WOK(c, std::move(ps), "prepare of example " + std::to_string(i));
      WOK(c, t.compute(sc), "compute of example " + std::to_string(i));
      Diff d = toDiff(c, t.featureDiff(), (u32)nw);
      float loss = t.loss();
      if (g.words.empty()) {
        PEQ(c, loss, 0.f, "loss of an example without words");
        PCHECK(c, d.empty(), "an example without words changes weights");
        c.label("no words");
        continue;
      }
      std::vector<NodeId> gold;
      t.markGold([&](an::LatticeNodePtr p) { gold.push_back({p.boundary, p.position}); });
      PEQ(c, gold.size(), g.words.size(), "gold words");
      auto wts = learn ? scw->weights() : wt.v;
      auto o = fullOracle(c, *m.core, t.lattice(), gold, wts, tc.mode);
      std::string at = " of example " + std::to_string(i) + " round " + std::to_string(r);
      PCHECK(c, loss >= 0 && loss <= 1.0001, "loss" << at << " is " << loss);
      PCHECK(c, near(loss, o.loss, 1e-5), "loss" << at << " is " << loss << ", expected " << o.loss);
      if (o.same) {
        PEQ(c, loss, 0.f, "loss" << at << ", the analysis is correct");
        PCHECK(c, d.empty(), "the analysis is correct" << at << ", but there is a difference " << str(d));
        c.label("correct");
      }
      if (!o.vague) {
        bool ok = d.size() == o.diff.size();
        for (auto& x : o.diff) ok = ok && d.count(x.first) && near(d[x.first], x.second, 1e-4);
        PCHECK(c, ok, "difference" << at << "\n  real     " << str(d) << "\n  expected " << str(o.diff) << "\n  steps " << o.steps << " used " << o.till);
        c.labelIf(o.errors > 0 && !o.sameSeg, "other segmentation");
        c.labelIf(o.errors > 0 && o.sameSeg, "same segmentation, other words");
        c.labelIf(o.loss == 0 && o.errors > 0, "correct words, higher score of the best path");
        c.labelIf(o.errors > 0 && o.till < o.steps, std::string("only ") + mn);
        c.labelIf(o.fellOff, "gold fell off the beam");
        if (o.errors > 0 && o.diff.size() > 1) c.nontrivial();
      } else
        c.label("vague");
      if (learn && scw->update(c, loss, t.featureDiff(), d)) c.label("learning");
    }
  }
}

// ---------------------------------------------------------------- partial annotation
void partial(Ctx& c) {
  World w = trainWorld(c, 14);
  Beams b = Beams::make(c);
  auto cfg = b.cfg();
  cfg.storeAllPatterns = true;
  Model m;
  std::string d = show(w) + b.str() + "\n";
  Weights wt = Weights::make(c);
  bool learn = c.chance(1, 3);
  std::unique_ptr<Scw> scw;
  an::HashedFeaturePerceptron perc{util::ArraySlice<float>(wt.v)};
  an::ScorerDef sdef;
  sdef.feature = &perc;
  sdef.scoreWeights.push_back(1.f);
  const an::ScorerDef* sc = &sdef;
  if (learn) {
    scw.reset(new Scw(c, c.range(6, 10)));
    sc = scw->s->scorers();
  }
  size_t nw = learn ? scw->tc.numFeatures() : wt.v.size();
  m.build(c, w);
  Analyzer plain(m.core.get(), core::ScoringConfig{b.beam, 1}, cfg), a(m.core.get(), core::ScoringConfig{b.beam, 1}, cfg);
  WOK(c, plain.initScorers(*sc), "initScorers");
  WOK(c, a.initScorers(*sc), "initScorers");
  in::TrainFieldsIndex tio;
  WOK(c, tio.initialize(*m.core), "fields");
  in::PartialExampleReader rd;
  WOK(c, rd.initialize(&tio, U'&'), "reader");
  tr::PartialTrainer t(&a, (u32)nw - 1);
  int n = c.range(1, 3);
  std::string shown;
  for (int i = 0; i < n; ++i) {
    bool empty = c.chance(1, 25);
    std::string text = empty ? "" : genSentence(c, w, 8);
    if (!empty && (text.size() > 90 || text.empty())) text = c.pick(w.words);
    if (text.find('&') != std::string::npos) text = w.words[0];
    if (text.find('&') != std::string::npos || !lineSafe(text)) c.discard();
    std::vector<LNode> nodes;
    if (!empty) {
      Status ps = plain.resetForInput(text);
      if (ps) ps = plain.prepareNodeSeeds();
      if (ps) ps = plain.buildLattice();
      if (!ps.isOk()) continue;
      nodes = latticeNodes(c, w, plain);
    }
    auto ch = cps(text);
    Ann ann = render(c, w, ch, genSegs(c, w, ch, nodes), "&", "\n");
    shown += ann.rendered + "\n";
    c.describe(d + quote(shown) + "\n");
    std::string data = ann.rendered + "\n";
    WOK(c, rd.setData(data), "setData");
    bool eof = false;
    WOK(c, rd.readExample(&t.example(), &eof), "example");
    bool vagueNodes = false;
    std::map<NodeId, bool> ok;
    for (auto& x : nodes) {
      int k = nodeOk(w, ann, x, true);
      vagueNodes = vagueNodes || k == 2;
      ok[{x.boundary, x.pos}] = k == 1;
    }
    int rounds = learn ? c.range(1, 5) : 1;
    for (int r = 0; r < rounds; ++r) {
      WOK(c, t.prepare(), "prepare");
      WOK(c, t.compute(sc), "compute");
      auto L = a.lattice();
      float loss = t.loss();
      Diff diff = toDiff(c, t.featureDiff(), (u32)nw);
      std::string at = " of example " + std::to_string(i) + " round " + std::to_string(r) + " " + describeAnn(ann);
      if (empty) {
        PEQ(c, loss, 0.f, "loss of an empty example");
        PCHECK(c, diff.empty(), "an empty example changes weights");
        c.label("empty");
        continue;
      }
      if (vagueNodes) {
        c.label("homographs with and without the tag");
        break;
      }
      int eos = (int)L->createdBoundaryCount() - 1;
      ok[{0, 0}] = ok[{1, 0}] = ok[{eos, 0}] = true;
      // words which may follow each other
      std::map<NodeId, std::vector<NodeId>> before;
      std::map<int, std::vector<NodeId>> ends;
      for (auto& x : nodes) ends[x.end + 2].push_back({x.boundary, x.pos});
      ends[2].push_back({1, 0});
      ends[1].push_back({0, 0});
      std::vector<NodeId> all;
      for (auto& x : nodes) all.push_back({x.boundary, x.pos});
      all.push_back({eos, 0});
      u32 mask = (u32)nw - 1;
      std::set<u32> good, bad;
      std::set<NodeId> goldMarks;
      t.markGold([&](an::LatticeNodePtr p) { goldMarks.insert({p.boundary, p.position}); }, L);
      for (auto& x : all) PCHECK(c, goldMarks.count(x) == (size_t)ok[x], "word at " << x.b - 2 << " #" << x.i << " is marked correct: " << goldMarks.count(x) << at);
      for (auto& t0 : all) {
        if (!ok[t0]) continue;
        for (auto& t1 : ends[t0.b]) {
          if (!ok[t1]) continue;
          for (auto& t2 : ends[t1.b])
            if (ok[t2])
              for (u32 f : ngramFeats(L, *m.core, t2, t1, t0)) good.insert(f & mask);
        }
      }
      auto top = topNodes(L);
      int wrong = 0;
      for (size_t k = 0; k < top.size(); ++k) {
        for (u32 f : ngramFeats(L, *m.core, top[k].p2, top[k].p1, top[k].n)) bad.insert(f & mask);
        wrong += !ok[top[k].n];
      }
      double expect = wrong / double(top.size() - 1);
      if (wrong == 0) {
        PEQ(c, loss, 0.f, "the analysis respects the annotation, loss" << at);
        PCHECK(c, diff.empty(), "the analysis respects the annotation, there is a difference " << str(diff) << at);
        c.label("respected");
      } else {
        PCHECK(c, loss == 0 || near(loss, expect, 1e-5), "loss is " << loss << ", " << wrong << " of " << top.size() - 1 << " words are wrong" << at);
        if (diff.size() > 1) PCHECK(c, loss > 0, "there is a difference, but no loss" << at);
      }
      double sum = 0;
      for (auto& x : diff) {
        sum += x.second;
        if (x.second > 0)
          PCHECK(c, good.count(x.first), "feature " << x.first << " is promoted, it's not a feature of words which respect the annotation" << at);
        else
          PCHECK(c, bad.count(x.first), "feature " << x.first << " is punished, it's not a feature of the analysis" << at);
      }
      PCHECK(c, sum <= 1e-3, "more is promoted than punished: " << sum << at);
      // where an analysis which respects the annotation was considered, it's learned from
      auto okPtr = [&](const an::ConnectionPtr& p) { return ok[idOf(&p)] && ok[idOf(p.previous)] && ok[idOf(p.previous->previous)]; };
      auto beams = [&](NodeId x, std::vector<const an::ConnectionBeamElement*>* to) {
        for (auto& e : L->boundary(x.b)->starts()->beamData().row(x.i)) {
          if (fake(e)) break;
          if (okPtr(e.ptr)) to->push_back(&e);
        }
      };
      for (size_t k = 0; k + 1 < top.size(); ++k) {
        if (ok[top[k].n]) continue;
        int st = top[k].n.b - 2, en = top[k + 1].n.b - 2;
        std::vector<const an::ConnectionBeamElement*> cand;
        int inside = -1;
        for (int x : ann.bounds)
          if (x > st && x < en && inside < 0) inside = x;
        bool brokenStart = ann.noBreak.count(st), brokenEnd = ann.noBreak.count(en);
        std::string kind;
        if (brokenStart || brokenEnd) {
          kind = brokenStart ? "unbroken start" : "unbroken end";
          int p = brokenStart ? st : en;
          for (int e = p + 1, have = 0; e <= ann.n && have < b.beam; ++e) {  // the nearest ends are enough
            size_t had = cand.size();
            for (auto& x : ends[e + 2])
              if (x.b - 2 < p) beams(x, &cand);
            have += std::min<int>(5, (int)(cand.size() - had));
          }
        } else if (inside >= 0) {
          kind = "missing boundary";
          for (auto& x : ends[inside + 2])
            if (x.b >= 2) beams(x, &cand);
        } else {
          kind = "tag";
          for (auto& x : all)
            if (x.b - 2 == st) beams(x, &cand);
        }
        bool madeUp = false;
        if (cand.empty() && (brokenStart || brokenEnd)) {  // the beams have none, but the lattice may
          int p = brokenStart ? st : en;
          for (auto& x : nodes) {
            NodeId id{x.boundary, x.pos};
            if (x.start >= p || x.end <= p || !ok[id]) continue;
            for (auto& t1 : ends[x.boundary]) {
              if (!ok[t1]) continue;
              for (auto& e : L->boundary(t1.b)->starts()->beamData().row(t1.i)) {
                if (fake(e)) break;
                madeUp = madeUp || ok[idOf(e.ptr.previous)];
              }
            }
          }
          if (madeUp) kind += ", not in beams";
        }
        if (cand.empty() && !madeUp) {
          c.label("no candidate: " + kind);
          continue;
        }
        c.label(kind);
        c.nontrivial();
        bool punished = false;
        for (u32 f : ngramFeats(L, *m.core, top[k].p2, top[k].p1, top[k].n)) {
          f &= mask;
          if (good.count(f)) continue;
          PCHECK(c, diff.count(f) && diff[f] < -.99, "feature " << f << " of the wrong word at " << st << " (" << kind << ") is not punished: " << str(diff) << at);
          punished = true;
        }
        if (cand.empty()) continue;
        auto best = *std::max_element(cand.begin(), cand.end(), [](const an::ConnectionBeamElement* x, const an::ConnectionBeamElement* y) { return x->totalScore < y->totalScore; });
        int ties = 0;
        for (auto x : cand) ties += x->totalScore == best->totalScore;
        if (punished && ties == 1) {
          bool any = false;
          for (u32 f : ngramFeats(L, *m.core, idOf(best->ptr.previous->previous), idOf(best->ptr.previous), idOf(&best->ptr))) {
            f &= mask;
            if (bad.count(f)) continue;
            PCHECK(c, diff.count(f) && diff[f] > 0, "feature " << f << " of the best respecting word for the wrong word at " << st << " (" << kind << ") is not promoted: " << str(diff) << at);
            any = true;
          }
          c.labelIf(any, "promoted");
        }
        if (diff.size() > 1) PCHECK(c, loss > 0, "no loss" << at);
      }
      if (learn && scw->update(c, loss, t.featureDiff(), diff)) c.label("learning");
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "T03";
  d.assumptions = {"differences of scores within float tolerance of a decision threshold are not judged", "tags of annotated words have one answer for all homographs of a node", "the default configuration of the training build"};
  d.facets.push_back({"full", "an example with errors and a non-empty difference", 10000, 200000, full});
  d.facets.push_back({"partial", "the analysis violates the annotation and a respecting candidate exists", 10000, 200000, partial});
  d.facets.push_back({"scw", "more than one real update of the weights", 6000, 150000, scw});
  return pbt::runMain(argc, argv, d);
}
