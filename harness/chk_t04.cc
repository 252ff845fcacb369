// T04: training is reproducible, uses all examples, and saves what was trained
#include <cmath>
#include <thread>
#include "core/env.h"
#include "core/training/partial_trainer.h"
#include "core/training/training_env.h"
#include "partial.h"
#include "snapshot.h"
#include "tool.h"
using namespace w;
namespace in = jumanpp::core::input;
namespace md = jumanpp::core::model;

namespace {
std::vector<float> percWeights(Ctx& c, const md::ModelInfo& mi) {
  std::vector<float> r;
  int n = 0;
  for (auto& p : mi.parts)
    if (p.kind == md::ModelPartKind::Perceprton) {
      PEQ(c, p.data.size(), (size_t)2, "parts of the trained weights");
      r.resize(p.data[1].size() / sizeof(float));
      memcpy(r.data(), p.data[1].begin(), r.size() * sizeof(float));
      ++n;
    }
  PEQ(c, n, 1, "number of trained models in the file");
  return r;
}
std::vector<float> weightsOf(Ctx& c, tr::SoftConfidenceWeighted& s) {
  md::ModelInfo mi;
  s.exportModel(&mi);
  return percWeights(c, mi);
}
std::string floats(const std::vector<float>& a, const std::vector<float>& b) {
  std::ostringstream o;
  if (a.size() != b.size()) o << " sizes " << a.size() << " " << b.size();
  int k = 0;
  for (size_t i = 0; i < std::min(a.size(), b.size()); ++i)
    if (memcmp(&a[i], &b[i], 4) && k++ < 6) o << " [" << i << "] " << a[i] << " / " << b[i];
  return o.str();
}
struct Setup {
  World w;
  bool csv;
  Written wr;
  Model m;
  tr::TrainingArguments args;
  std::string dir, model;
  std::string text;
  Setup(Ctx& c, bool bad, bool fallback, int maxEx) {
    w = trainWorld(c, 14, false, fallback);
    addAliases(c, w);
    csv = c.chance(1, 2);
    wr = writeSet(c, w, genSet(c, w, csv, maxEx), csv, bad);
    if (c.chance(1, 40) && wr.bad.empty()) wr.data = "", wr.ex.clear();
    dir = pbt::scratchFile(c, "x");
    dir.resize(dir.rfind('/'));
    model = dir + "/dic.mdl";
    args.trainingConfig.inputFormat = csv ? tr::InputFormat::Csv : tr::InputFormat::Morph;
    args.trainingConfig.featureNumberExponent = c.range(4, 10);
    args.trainingConfig.randomSeed = (u32)c.choose(1000);
    args.trainingConfig.beamSize = c.oneOf({1, 2, 3, 5});
    args.trainingConfig.mode = c.oneOf({tr::TrainingMode::Full, tr::TrainingMode::FalloffBeam, tr::TrainingMode::MaxViolation});
    args.trainingConfig.scw.C = c.oneOf({1.f, .1f, 10.f});
    args.trainingConfig.scw.phi = c.oneOf({5.f, 1.f, .5f});
    args.comment = c.oneOf<std::string>({"", "corpus", u8"コーパス"});
    auto& g = args.globalBeam;
    if (c.chance(1, 2)) {
      g.minLeftBeam = c.range(1, 4);
      g.maxLeftBeam = g.minLeftBeam + c.range(0, 4);
      if (c.chance(1, 2)) {
        g.minRightBeam = c.range(1, 3);
        g.maxRightBeam = g.minRightBeam + c.range(0, 3);
        g.minRightCheck = c.range(1, 3);
        g.maxRightCheck = g.minRightCheck + c.range(0, 3);
      }
      g.fullFirstIter = c.chance(1, 2);
    }
  }
  void build(Ctx& c) {
    m.build(c, w);
    tool::writeModel(c, m, {}, model, false);
  }
  std::string show() const {
    std::ostringstream o;
    auto& t = args.trainingConfig;
    o << w::show(w) << (csv ? "csv\n" : "morph\n") << quote(wr.data) << "\n2^" << t.featureNumberExponent << " seed " << t.randomSeed << " beam " << t.beamSize << " mode " << (int)t.mode << " C " << t.scw.C << " phi " << t.scw.phi
      << " batch " << args.batchSize << " threads " << args.numThreads << " iterations " << args.batchMaxIterations << " eps " << args.batchLossEpsilon;
    auto& g = args.globalBeam;
    if (g.leftEnabled()) o << " gbeam " << g.minLeftBeam << "-" << g.maxLeftBeam << " " << g.minRightBeam << "-" << g.maxRightBeam << " " << g.minRightCheck << "-" << g.maxRightCheck << (g.fullFirstIter ? " full first" : "");
    o << "\n";
    return o.str();
  }
  an::AnalyzerConfig cfg() const {
    an::AnalyzerConfig a;
    a.pageSize = 1 << 17;
    a.storeAllPatterns = true;
    return a;
  }
};
// the real thing
struct Real {
  core::JumanppEnv env;
  std::unique_ptr<tr::TrainingEnv> t;
  std::string data, file;
  void open(Ctx& c, Setup& s) {
    WOK(c, env.loadModel(s.model), "loadModel");
    env.setBeamSize(s.args.trainingConfig.beamSize);
    t.reset(new tr::TrainingEnv(s.args, &env));
    WOK(c, t->initFeatures(nullptr), "initFeatures");
    WOK(c, t->initOther(), "initOther");
  }
  void load(Ctx& c, Setup& s) {
    file = s.dir + "/corpus.txt";
    pbt::writeFile(file, s.wr.data);
    WOK(c, t->loadInput(file), "loadInput");
  }
  std::vector<float> weights(Ctx& c) {
    md::ModelInfo mi;
    t->exportScwParams(&mi);
    return percWeights(c, mi);
  }
};
// loss of one example, computed apart from everything else
struct One {
  Setup& s;
  tr::TrainerFullConfig conf;
  an::AnalyzerConfig cfg;
  in::TrainFieldsIndex tio;
  One(Ctx& c, Setup& x) : s(x), cfg(x.cfg()) {
    conf = tr::TrainerFullConfig{&cfg, s.m.core.get(), &s.m.core->spec().training, &s.args.trainingConfig};
    WOK(c, tio.initialize(*s.m.core), "index of values");
  }
  void open(Ctx& c, tr::FullExampleReader* r) {
    r->setTrainingIo(&tio);
    r->setFilename("x");
    WOK(c, s.csv ? r->initCsv(s.wr.data) : r->initDoubleCsv(s.wr.data), "reader");
  }
  tr::FullExampleReader r;  // examples refer to its memory
  // example i, until the next call
  std::unique_ptr<tr::OwningFullTrainer> at(Ctx& c, int i, const an::ScorerDef* sc) {
    r.~FullExampleReader();
    new (&r) tr::FullExampleReader;
    open(c, &r);
    std::unique_ptr<tr::OwningFullTrainer> t(new tr::OwningFullTrainer(conf));
    WOK(c, t->initAnalyzer(sc), "initAnalyzer");
    for (int k = 0; k <= i; ++k) {
      t->reset();
      WOK(c, t->readExample(&r), "example");
    }
    return t;
  }
};
void checkBeam(Ctx& c, const Setup& s, const tr::GlobalBeamTrainConfig& g, float ratio, tr::GlobalBeamTrainConfig* last) {
  auto& a = s.args.globalBeam;
  PEQ(c, g.isEnabled(), a.leftEnabled(), "use of the global beam");
  if (!a.leftEnabled()) return;
  PCHECK(c, g.leftBeam >= a.minLeftBeam && g.leftBeam <= a.maxLeftBeam, "global beam " << g.leftBeam << " at " << ratio);
  if (ratio == 0) PCHECK(c, g.leftBeam >= a.maxLeftBeam - 1, "global beam at the beginning is " << g.leftBeam);  // the fitted curve starts a little below 1
  if (last->leftBeam > 0) PCHECK(c, g.leftBeam <= last->leftBeam, "the global beam grows");
  if (a.rightEnabled()) {
    PCHECK(c, g.rightBeam >= a.minRightBeam && g.rightBeam <= a.maxRightBeam, "right beam " << g.rightBeam << " at " << ratio);
    PCHECK(c, g.rightCheck >= a.minRightCheck && g.rightCheck <= a.maxRightCheck, "right check " << g.rightCheck << " at " << ratio);
  }
  *last = g;
}

// one thread, examples one by one
void sequence(Ctx& c) {
  Setup s(c, c.chance(1, 4), !c.chance(1, 4), 6);
  s.args.batchSize = 1;
  s.args.numThreads = 1;
  s.args.batchMaxIterations = c.oneOf({1, 1, 2, 3});
  s.args.batchLossEpsilon = 0;
  int epochs = c.range(1, 4);
  c.describe(s.show() + std::to_string(epochs) + " epochs\n");
  s.build(c);
  Real r;
  r.open(c, s);
  // what fails does not get in the way of what follows
  if (c.chance(1, 6)) {
    std::string no = s.dir + "/nosuch.txt";
    PCHECK(c, !r.t->loadInput(no).isOk(), "a missing corpus is not reported");
    if (c.chance(1, 2)) PCHECK(c, !r.t->loadInput(no).isOk(), "a missing corpus is not reported the second time");
    PCHECK(c, !r.t->loadPartialExamples(no).isOk(), "a missing partial corpus is not reported");
    PCHECK(c, !r.t->loadInput(s.dir).isOk(), "a directory as corpus is not reported");
    c.label("missing file first");
  }
  if (s.wr.data.empty()) {  // a file without anything can't be mapped; either answer will do
    pbt::writeFile(s.dir + "/empty.txt", "");
    if (!r.t->loadInput(s.dir + "/empty.txt").isOk()) {
      c.label("empty corpus");
      return;
    }
  }
  r.load(c, s);
  One one(c, s);
  tr::SoftConfidenceWeighted ref(s.args.trainingConfig);
  PCHECK(c, r.weights(c) == weightsOf(c, ref), "initial weights");
  tr::GlobalBeamTrainConfig last;
  bool ok = true, changed = false;
  int n = (int)s.wr.ex.size();
  for (int e = 0; e < epochs && ok; ++e) {
    r.t->resetInput();
    float ratio = (float)e / epochs;
    r.t->changeGlobalBeam(ratio);
    auto gb = r.t->globalBeam();
    checkBeam(c, s, gb, ratio, &last);
    double sum = 0;
    auto before = weightsOf(c, ref);
    for (int i = 0; i < n; ++i) {
      double loss = 0;
      for (u32 k = 0; k < s.args.batchMaxIterations; ++k) {
        auto t = one.at(c, i, ref.scorers());
        if (gb.isEnabled()) t->setGlobalBeam(s.args.globalBeam.fullFirstIter && k == 0 ? tr::GlobalBeamTrainConfig{0, 0, 0} : gb);
        WOK(c, t->prepare(), "prepare");
        WOK(c, t->compute(ref.scorers()), "compute");
        loss = t->loss();
        ref.update((float)loss, t->featureDiff());
      }
      sum += loss;
    }
    changed = changed || before != weightsOf(c, ref);
    if (e == 0 && s.wr.bad.empty()) ref.substractInitValues();
    Status st = r.t->trainOneEpoch();
    if (!s.wr.bad.empty()) {
      PCHECK(c, !st.isOk(), "a malformed example (" << s.wr.bad << ") is not reported");
      PCHECK(c, !msg(st).empty(), "error without message");
      c.label("malformed");
      ok = false;
      auto a = r.weights(c), b = weightsOf(c, ref);
      PCHECK(c, a == b, "weights at the malformed example" << floats(a, b));
      continue;
    }
    WOK(c, std::move(st), "epoch " + std::to_string(e));
    PEQ(c, r.t->epochLoss(), sum, "loss of epoch " << e);
    auto a = r.weights(c), b = weightsOf(c, ref);
    PCHECK(c, a == b, "weights after epoch " << e << floats(a, b));
  }
  c.labelIf(n == 0, "no examples");
  c.labelIf(s.args.globalBeam.leftEnabled(), "global beam");
  if (!ok) return;
  if (changed && n > 1) c.nontrivial();
  // the saved model
  md::ModelInfo mi = r.env.modelInfoCopy();
  r.t->exportScwParams(&mi, s.args.comment);
  std::string out = s.dir + "/trained.mdl";
  unlink(out.c_str());
  {
    md::ModelSaver sv;
    WOK(c, sv.open(out), "ModelSaver.open");
    WOK(c, sv.save(mi), "ModelSaver.save");
  }
  core::JumanppEnv env2;
  WOK(c, env2.loadModel(out), "the trained model is not loaded");
  WOK(c, env2.initFeatures(nullptr), "initFeatures");
  core::VersionInfo vi;
  env2.fillVersion(&vi);
  PEQ(c, vi.model, s.args.comment, "comment of the trained model");
  int beam = c.oneOf({1, 3, 5});
  Beams bm = Beams::make(c);
  auto cfg = bm.cfg();
  Analyzer mem(r.env.coreHolder(), core::ScoringConfig{beam, 1}, cfg), disk(env2.coreHolder(), core::ScoringConfig{beam, 1}, cfg);
  WOK(c, mem.initScorers(*r.t->scorerDef()), "initScorers");
  WOK(c, disk.initScorers(*env2.scorers()), "initScorers");
  PEQ(c, env2.scorers()->scoreWeights.size(), (size_t)1, "number of scorers");
  int texts = c.range(1, 3);
  for (int i = 0; i < texts; ++i) {
    std::string t = n > 0 && c.chance(1, 2) ? c.pick(s.wr.ex).text : genSentence(c, s.w, 8);
    if (t.size() > 90) continue;
    Status x = mem.resetForInput(t);
    if (x) x = mem.prepareNodeSeeds();
    if (x) x = mem.buildLattice();
    if (!x.isOk() || t.empty()) continue;
    mem.bootstrapAnalysis();
    WOK(c, mem.computeScores(r.t->scorerDef()), "analysis");
    WOK(c, disk.resetForInput(t), "analysis with the saved model");
    WOK(c, disk.prepareNodeSeeds(), "analysis with the saved model");
    WOK(c, disk.buildLattice(), "analysis with the saved model");
    WOK(c, disk.bootstrapAnalysis(), "analysis with the saved model");
    WOK(c, disk.computeScores(env2.scorers()), "analysis with the saved model");
    std::string p = snapshot(c, s.w, mem), q = snapshot(c, s.w, disk);
    PCHECK(c, p == q, "the saved model analyses " << quote(t) << " differently:" << firstDiff(p, q));
    c.label("saved model compared");
  }
  // training goes on from the saved model: the weights of the new training are used
  if (c.chance(1, 4)) {
    md::ModelInfo again = env2.modelInfoCopy();
    tr::TrainingConfig tc = s.args.trainingConfig;
    tc.randomSeed += 1;
    tr::SoftConfidenceWeighted other(tc);
    other.exportModel(&again, "again");
    std::string out2 = s.dir + "/again.mdl";
    unlink(out2.c_str());
    md::ModelSaver sv;
    WOK(c, sv.open(out2), "ModelSaver.open");
    WOK(c, sv.save(again), "ModelSaver.save");
    core::JumanppEnv env3;
    WOK(c, env3.loadModel(out2), "the model trained again is not loaded");
    std::vector<u32> f{0, 1};
    float x = 0, y = 0;
    util::MutableArraySlice<float> ox{&x, 1}, oy{&y, 1};
    util::Sliceable<u32> fs{util::MutableArraySlice<u32>{f.data(), f.size()}, 2, 1};
    env3.scorers()->feature->compute(ox, fs);
    other.scorers()->feature->compute(oy, fs);
    PEQ(c, x, y, "score of the model trained again from a trained model");
    env3.fillVersion(&vi);
    PEQ(c, vi.model, std::string("again"), "comment of the model trained again");
    c.label("trained again");
  }
}

// any number of threads, batches, partial examples; the weights stay
void batches(Ctx& c) {
  Setup s(c, c.chance(1, 4), !c.chance(1, 4), 8);
  bool still = !c.chance(1, 3);
  if (still) s.args.trainingConfig.scw.C = 0;
  s.args.batchSize = c.oneOf({1, 2, 3, 4, 8, 20});
  s.args.numThreads = c.oneOf({1, 2, 3, 4});
  s.args.batchMaxIterations = c.oneOf({1, 2, 3});
  s.args.batchLossEpsilon = c.oneOf({0.f, 1e-3f, .5f});
  int epochs = c.range(1, 3);
  // partial examples
  s.build(c);
  Real r;
  auto cfg = s.cfg();
  tr::SoftConfidenceWeighted ref(s.args.trainingConfig);
  auto sc = ref.scorers();
  Analyzer a(s.m.core.get(), core::ScoringConfig{s.args.trainingConfig.beamSize, 1}, cfg);
  WOK(c, a.initScorers(*sc), "initScorers");
  std::vector<std::string> parts;
  std::string all, partBad;
  int np = c.weighted({3, 2, 2, 2});
  bool anyFails = false;
  for (int i = 0; i < np; ++i) {
    std::string text = c.chance(1, 10) ? "" : genSentence(c, s.w, 6);
    if (text.size() > 90 || text.find('&') != std::string::npos) text = s.w.words[0];
    if (text.find('&') != std::string::npos || !lineSafe(text)) c.discard();
    std::vector<LNode> nodes;
    if (!text.empty()) {
      Status ps = a.resetForInput(text);
      if (ps) ps = a.prepareNodeSeeds();
      if (ps) ps = a.buildLattice();
      if (ps) nodes = latticeNodes(c, s.w, a);
      else anyFails = true;
    }
    auto ch = cps(text);
    Ann ann = render(c, s.w, ch, genSegs(c, s.w, ch, nodes), "&", "\n");
    all += ann.rendered;
    parts.push_back(ann.rendered + "\n");
    if (i + 1 < np || c.chance(2, 3) || text.empty()) all += "\n";
  }
  if (np > 0 && c.chance(1, 12)) {
    partBad = c.oneOf<std::string>({"\tx\tnosuch:1\n", "\tx\tf1\n", "x\ty\n", "\xff\xfe\n"});
    all = partBad + all;
  }
  c.describe(s.show() + std::to_string(epochs) + " epochs, partial " + quote(all) + "\n");
  r.open(c, s);
  if (np > 0) {
    std::string pf = s.dir + "/part.txt";
    pbt::writeFile(pf, all);
    Status st = r.t->loadPartialExamples(pf);
    if (!partBad.empty()) {
      PCHECK(c, !st.isOk(), "a malformed partial corpus is not reported");
      c.label("malformed partial corpus");
      return;
    }
    WOK(c, std::move(st), "loadPartialExamples");
  }
  if (s.wr.data.empty()) c.discard();
  r.load(c, s);
  One one(c, s);
  int n = (int)s.wr.ex.size();
  for (int e = 0; e < epochs; ++e) {
    r.t->resetInput();
    r.t->changeGlobalBeam((float)e / epochs);
    auto gb = r.t->globalBeam();
    double full = 0, part = 0, full0 = 0, part0 = 0;
    if (still && s.wr.bad.empty()) {
      // losses of the last iteration; the first one may use the full beam
      auto lossOf = [&](const tr::GlobalBeamTrainConfig& g) {
        double sum = 0;
        for (int i = 0; i < n; ++i) {
          auto t = one.at(c, i, sc);
          if (gb.isEnabled()) t->setGlobalBeam(g);
          WOK(c, t->prepare(), "prepare");
          WOK(c, t->compute(sc), "compute");
          sum += t->loss();
        }
        return sum;
      };
      auto partOf = [&](const tr::GlobalBeamTrainConfig& g) {
        double sum = 0;
        for (auto& x : parts) {
          Analyzer pa(s.m.core.get(), core::ScoringConfig{s.args.trainingConfig.beamSize, 1}, cfg);
          WOK(c, pa.initScorers(*sc), "initScorers");
          if (gb.isEnabled()) pa.setGlobalBeam(g.leftBeam, g.rightCheck, g.rightBeam);
          tr::PartialTrainer pt(&pa, s.args.trainingConfig.numFeatures() - 1);
          in::PartialExampleReader rd;
          WOK(c, rd.initialize(&one.tio, U'&'), "reader");
          WOK(c, rd.setData(x), "setData");
          bool eof;
          WOK(c, rd.readExample(&pt.example(), &eof), "partial example");
          WOK(c, pt.prepare(), "prepare");
          WOK(c, pt.compute(sc), "compute");
          sum += pt.loss();
        }
        return sum;
      };
      tr::GlobalBeamTrainConfig off{0, 0, 0};
      full = lossOf(gb);
      full0 = s.args.globalBeam.fullFirstIter ? lossOf(off) : full;
      if (e > 0 && !anyFails) {
        part = partOf(gb);
        part0 = s.args.globalBeam.fullFirstIter ? partOf(off) : part;
      }
    }
    Status st = r.t->trainOneEpoch();
    if (!s.wr.bad.empty()) {
      PCHECK(c, !st.isOk(), "a malformed example (" << s.wr.bad << ") is not reported");
      c.label("malformed");
      return;
    }
    if (e > 0 && anyFails) {
      PCHECK(c, !st.isOk(), "a partial example which can't be analysed is not reported");
      c.label("partial example can't be analysed");
      return;
    }
    WOK(c, std::move(st), "epoch " + std::to_string(e));
    double real = r.t->epochLoss();
    PCHECK(c, std::isfinite(real) && real >= 0, "loss of epoch " << e << " is " << real);
    if (still) {
      if (e == 0) ref.substractInitValues();
      auto x = r.weights(c), y = weightsOf(c, ref);
      PCHECK(c, x == y, "weights without learning after epoch " << e << floats(x, y));
      int B = (int)s.args.batchSize;
      double b1 = std::floor(n / B) + 1, b2 = std::ceil(n / (double)B);
      bool mixed = s.args.globalBeam.fullFirstIter && s.args.globalBeam.leftEnabled();
      if (mixed && s.args.batchMaxIterations > 1 && s.args.batchLossEpsilon > 0) continue;  // batches may stop at the first iteration
      if (mixed && s.args.batchMaxIterations == 1) full = full0, part = part0;
      double tol = 1e-6 * (1 + full + b1 * part);
      PCHECK(c, std::fabs(real - full - b1 * part) <= tol || std::fabs(real - full - b2 * part) <= tol,
             "loss of epoch " << e << " is " << real << ", examples have " << full << ", partial examples " << part << " in each of " << b2 << " batches");
      c.labelIf(part > 0, "partial examples");
      c.labelIf(full > 0 && n > B, "several batches");
      c.labelIf(full > 0 && s.args.numThreads > 1, "several threads");
      if (full > 0 && n > 1) c.nontrivial();
    } else {
      for (float x : r.weights(c)) PCHECK(c, std::isfinite(x), "a weight is " << x);
      c.label("learning");
    }
  }
}

// ---------------------------------------------------------------- the command
Strs goldFields(const jd::Row& r) { return {r.surface, r.reading, r.baseform, r.pos, r.subpos, r.conjtype, r.conjform}; }
void command(Ctx& c) {
  jd::JOpts jo;
  jo.maxRows = 12;
  jo.odd = false;
  auto jw = jd::genJWorld(c, jo);
  jd::JModel m;
  m.build(c, jw);
  std::string dir = pbt::scratchFile(c, "x");
  dir.resize(dir.rfind('/'));
  std::string dic = dir + "/dic.mdl", out = dir + "/out.mdl", corpus = dir + "/corpus.txt", part = dir + "/part.txt";
  tool::writeModel(c, m, {}, dic, false);
  unlink(out.c_str());
  // corpus
  std::string data;
  int n = c.range(1, 5);
  for (int i = 0; i < n; ++i) {
    Strs ws;
    size_t len = 0;
    for (int k = c.range(1, 4); k > 0; --k) {
      auto& row = c.pick(jw.rows);
      len += row.surface.size();
      if (len > 90 && !ws.empty()) break;
      ws.push_back(mrphWord(goldFields(row)));
    }
    data += join(ws, " ") + (c.chance(1, 4) ? " # S-ID:" + std::to_string(i) : "") + "\n";
  }
  std::string trouble = c.chance(1, 2) ? "" : c.oneOf<std::string>({"malformed corpus", "missing corpus", "missing model", "damaged model", "malformed partial corpus", "missing partial corpus", "no output directory", "too long comment", "bad number", "unknown option", "bad beam"});
  if (trouble == "malformed corpus") data.insert(c.chance(1, 2) ? 0 : data.size(), c.oneOf<std::string>({"\"ab\n", "x_y\n", "a\"b\" x\n", "\xff_a_a_a_a_a_a\n", "_a_a_a_a_a_a\n"}));
  std::string pdata;
  int np = trouble.find("partial") != std::string::npos ? 1 : c.weighted({2, 1, 1});
  for (int i = 0; i < np; ++i) {
    auto& x = c.pick(jw.rows);
    auto& y = c.pick(jw.rows);
    if (x.surface.find_first_of("\t&\n#") != std::string::npos || y.surface.find_first_of("\t&\n#") != std::string::npos) continue;
    pdata += "\t" + x.surface + (c.chance(1, 2) ? "\tpos:" + x.pos : "") + "\n" + y.surface + "\n\n";
  }
  if (trouble == "malformed partial corpus") pdata += c.oneOf<std::string>({"\tx\tnosuch:1\n", "x\ty\n", "\xff\xfe\n"});
  pbt::writeFile(corpus, data);
  pbt::writeFile(part, pdata);
  tr::TrainingArguments args;
  auto& tc = args.trainingConfig;
  tc.featureNumberExponent = c.range(4, 12);
  tc.randomSeed = c.chance(1, 2) ? 0xdeadbeefu : (u32)c.choose(1000);
  tc.beamSize = c.oneOf({1, 3, 5});
  tc.mode = c.oneOf({tr::TrainingMode::Full, tr::TrainingMode::FalloffBeam, tr::TrainingMode::MaxViolation});
  tc.scw.C = c.oneOf({1.f, .5f, 2.f});
  tc.scw.phi = c.oneOf({5.f, 1.f});
  args.maxEpochs = c.range(1, 3);
  args.comment = c.oneOf<std::string>({"", "abc", "x y"});
  args.batchLossEpsilon = 0;
  bool usePart = !pdata.empty() || trouble.find("partial") != std::string::npos;
  tool::Args a = {"--model-input=" + (trouble == "missing model" ? dir + "/nosuch" : dic), "--model-output=" + (trouble == "no output directory" ? dir + "/nosuch/out" : out),
                  "--corpus=" + (trouble == "missing corpus" ? dir + "/nosuch" : corpus), "--size=" + std::to_string(tc.featureNumberExponent), "--beam=" + std::to_string(tc.beamSize),
                  "--scw-c=" + std::to_string(tc.scw.C), "--scw-phi=" + std::to_string(tc.scw.phi), "--max-epochs=" + std::to_string(args.maxEpochs), "--epsilon=0"};
  if (tc.randomSeed != 0xdeadbeefu) a.push_back("--seed=" + std::to_string(tc.randomSeed));
  a.push_back(std::string("--training-mode=") + (tc.mode == tr::TrainingMode::Full ? "full" : tc.mode == tr::TrainingMode::FalloffBeam ? "falloff" : "violation"));
  if (usePart) a.push_back("--partial-corpus=" + (trouble == "missing partial corpus" ? dir + "/nosuch" : part));
  std::string comment = trouble == "too long comment" ? std::string(5000, 'c') : args.comment;
  if (!comment.empty()) a.push_back("--corpus-comment=" + comment);
  if (trouble == "bad number") a.push_back("--threads=x");
  if (trouble == "unknown option") a.push_back("--nosuch=1");
  if (trouble == "bad beam") a.push_back("--gb-right-min=2");
  if (trouble == "damaged model") {
    auto x = pbt::readFile(dic);
    x[c.choose(7)] ^= 1;
    pbt::writeFile(dic, x);
  }
  int rounds = 1;
  c.describe("dictionary\n" + m.text + "corpus " + quote(data) + "\npartial " + quote(pdata) + "\narguments " + join(a, " ").substr(0, 800) + "\n" + trouble + "\n");
  auto r = tool::run(c, "jumanpp_v2_train", a);
  tool::sane(c, r, "jumanpp_train");
  if (!trouble.empty()) {
    PCHECK(c, r.code != 0, "training with " << trouble << " ends with success, output " << quote(r.err.substr(0, 2000)));
    c.label(trouble);
    c.nontrivial();
    return;
  }
  // texts of partial examples can always be analysed: the fallback of the specification
  PEQ(c, r.code, 0, "exit status of the training, output " << quote(r.err.substr(0, 3000)));
  core::JumanppEnv env;
  WOK(c, env.loadModel(out), "the trained model is not loaded");
  core::VersionInfo vi;
  env.fillVersion(&vi);
  PEQ(c, vi.model, args.comment, "comment of the trained model");
  auto got = percWeights(c, env.modelInfoCopy());
  PEQ(c, got.size(), (size_t)tc.numFeatures(), "number of weights");
  if (usePart) {  // with partial examples a batch has several examples, their updates race
    c.label("partial examples");
    return;
  }
  core::JumanppEnv lib;
  WOK(c, lib.loadModel(dic), "loadModel");
  lib.setBeamSize(tc.beamSize);
  tr::TrainingEnv t(args, &lib);
  WOK(c, t.initFeatures(nullptr), "initFeatures");
  WOK(c, t.initOther(), "initOther");
  WOK(c, t.loadInput(corpus), "loadInput");
  for (u32 e = 0; e < args.maxEpochs; ++e) {
    t.resetInput();
    t.changeGlobalBeam((float)e / args.maxEpochs);
    WOK(c, t.trainOneEpoch(), "epoch");
  }
  md::ModelInfo mi;
  t.exportScwParams(&mi);
  auto want = percWeights(c, mi);
  PCHECK(c, got == want, "weights of the trained file" << floats(got, want));
  c.nontrivial();
  c.label("weights compared");
  (void)rounds;
}
}  // namespace

int main(int argc, char** argv) {
  jumanpp::util::logging::CurrentLogLevel = jumanpp::util::logging::Level::Error;
  pbt::CheckDef d;
  d.id = "T04";
  d.assumptions = {"with several examples in a batch, or partial examples, updates of the weights may overlap with the analysis of the next example (by design); there only losses with fixed weights are compared", "partial examples take part from the second epoch on"};
  d.facets.push_back({"sequence", "several examples, weights which change", 4000, 80000, sequence});
  d.facets.push_back({"batches", "several examples with a loss", 2500, 50000, batches, 40, true});
  d.facets.push_back({"command", "a trained model was compared, or a problem reported", 500, 8000, command});
  return pbt::runMain(argc, argv, d);
}
