// A08: generated feature code computes the same as the interpreter.
// Every case generates a specification, generates code for it, compiles and
// loads the code, then analyses with both implementations.
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <iostream>
#include "core/analysis/perceptron.h"
#include "core/codegen/feature_codegen.h"
#include "core/impl/feature_impl_combine.h"
#include "core/impl/feature_impl_pattern.h"
#include "core/spec/spec_hashing.h"
#include "jpp_jumandic_cg.h"
#include "jumandic.h"
#include "snapshot.h"

using namespace w;
namespace cgn = core::features::codegen;

static std::string gPch;
static std::string exeDir() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  std::string s(b, n > 0 ? n : 0);
  return s.substr(0, s.rfind('/'));
}
static Strs flags() {
  std::string repo = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo", b = exeDir();
  return {"-std=c++14", "-w", "-O0", "-g0", "-fno-omit-frame-pointer", "-fPIC", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DJUMANPP_DEBUG_MEMORY=1", "-fsanitize=address,bounds,signed-integer-overflow,shift", "-fno-sanitize-recover=all",
          "-I" + b + "/cfg", "-I" + repo + "/src", "-I" + repo + "/libs"};
}
static int run(const Strs& args, const std::string& log) {
  std::vector<const char*> v;
  for (auto& a : args) v.push_back(a.c_str());
  v.push_back(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2(fd, 1), dup2(fd, 2);
    execvp(v[0], const_cast<char**>(v.data()));
    _exit(127);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static bool makePch() {
  std::string b = exeDir(), h = b + "/a08_" + std::to_string(getpid()) + ".h", log = h + ".log";
  pbt::writeFile(h,
                 "#include \"core/impl/feature_impl_combine.h\"\n#include \"core/impl/feature_impl_ngram_partial.h\"\n#include \"core/impl/feature_impl_prim.h\"\n"
                 "#include \"core/impl/feature_impl_ngram_partial_kernels.h\"\n");
  Strs a{VERIF_CXX};
  for (auto& f : flags()) a.push_back(f);
  gPch = h + ".pch";
  a.insert(a.end(), {"-x", "c++-header", h, "-o", gPch});
  int rc = run(a, log);
  if (rc != 0) std::cerr << pbt::readFile(log);
  unlink(log.c_str());
  return rc == 0;
}

typedef core::features::StaticFeatureFactory Factory;
static std::unique_ptr<Factory> compile(Ctx& c, const sp::AnalysisSpec& spec) {
  static int counter = 0;
  std::string id = "cg" + std::to_string(getpid()) + "_" + std::to_string(++counter);
  cgn::FeatureCodegenConfig conf;
  conf.filename = "cg";
  conf.className = "Stat";
  conf.baseDirectory = c.tmpdir;
  cgn::StaticFeatureCodegen gen{conf, spec};
  WOK(c, gen.generateAndWrite(), "code generation");
  std::string cc = c.tmpdir + "/main.cc", so = c.tmpdir + "/" + id + ".so", log = c.tmpdir + "/cg.log";
  pbt::writeFile(cc, "#include \"cg.cc\"\nextern \"C\" jumanpp::core::features::StaticFeatureFactory* makeIt() { return new jumanpp_generated::Stat; }\n");
  Strs a{VERIF_CXX};
  for (auto& f : flags()) a.push_back(f);
  a.insert(a.end(), {"-include-pch", gPch, "-I" + c.tmpdir, "-shared", "-fuse-ld=lld", "-Wl,-Bsymbolic", cc, "-o", so});
  int rc = run(a, log);
  if (rc != 0) rc = run(a, log);
  std::string err = pbt::readFile(log);
  if (rc != 0) {
    auto p = err.find("error:");
    if (p == std::string::npos) c.discard();  // the compiler could not be run
    c.fail("generated code does not compile: " + err.substr(p, 300));
  }
  void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  unlink(so.c_str());
  PCHECK(c, h != nullptr, "generated code does not load: " << dlerror());
  auto f = (Factory * (*)()) dlsym(h, "makeIt");
  PCHECK(c, f != nullptr, "no factory");
  return std::unique_ptr<Factory>(f());
}

// everything the interpreter says about a finished analysis
static std::string patternsOf(Analyzer& a) {
  std::ostringstream o;
  auto L = a.lattice();
  for (int b = 0; b < (int)L->createdBoundaryCount(); ++b) {
    auto st = L->boundary(b)->starts();
    auto p = st->patternFeatureData();
    for (int i = 0; i < (int)L->boundary(b)->localNodeCount(); ++i) {
      if (b >= 2 && fake(st->beamData().row(i).at(0))) continue;  // no path leads there
      o << b << "/" << i;
      for (auto v : p.row(i)) o << " " << std::hex << v << std::dec;
      o << "\n";
    }
  }
  return o.str();
}
static std::string ids(NodeId n) { return std::to_string(n.b) + "/" + std::to_string(n.i); }

// stored scores of the connections that are in beams
static std::string stored(Analyzer& a) {
  std::ostringstream o;
  auto L = a.lattice();
  for (int b = 2; b < (int)L->createdBoundaryCount(); ++b) {
    auto bnd = L->boundary(b);
    for (int i = 0; i < (int)bnd->localNodeCount(); ++i)
      for (auto& e : bnd->starts()->beamData().row(i)) {
        if (fake(e)) break;
        o << b << "/" << i << " (" << e.ptr.left << "," << e.ptr.beam << ") " << hexFloat(bnd->scores()->forPtr(e.ptr).at(0)) << "\n";
      }
  }
  return o.str();
}

struct Seen {
  int nodes = 0, connections = 0, manyBeams = 0, emptyBoundaries = 0;
};
static void compareFeatures(Ctx& c, Analyzer& st, Analyzer& dy, const std::string& what, Seen* seen) {
  auto L = dy.lattice();
  std::string p1 = patternsOf(st), p2 = patternsOf(dy);
  if (p1 != p2) c.fail("pattern features differ (generated, interpreted) " + what + firstDiff(p1, p2));
  for (int b = 2; b < (int)L->createdBoundaryCount(); ++b) {
    auto bnd = L->boundary(b);
    for (int i = 0; i < (int)bnd->localNodeCount(); ++i)
      for (auto& e : bnd->starts()->beamData().row(i)) {
        if (fake(e)) break;
        auto l = bnd->ends()->nodePtrs().at(e.ptr.left);
        NodeId t0{b, i}, t1{l.boundary, l.position}, t2{e.ptr.previous->boundary, e.ptr.previous->right};
        auto f1 = ngramFeats(st.lattice(), st.core(), t2, t1, t0), f2 = ngramFeats(dy.lattice(), dy.core(), t2, t1, t0);
        for (size_t k = 0; k < f1.size(); ++k) PCHECK(c, f1[k] == f2[k], "n-gram feature " << k << " of " << ids(t2) << " " << ids(t1) << " " << ids(t0) << " is " << f1[k] << " in generated code and " << f2[k] << " interpreted " << what);
        seen->connections++;
      }
  }
}
static void count(Analyzer& a, Seen* seen) {
  auto L = a.lattice();
  for (int b = 2; b < (int)L->createdBoundaryCount(); ++b) {
    auto bnd = L->boundary(b);
    if (bnd->localNodeCount() == 0) seen->emptyBoundaries++;
    for (int i = 0; i < (int)bnd->localNodeCount(); ++i) {
      seen->nodes++;
      auto r = bnd->starts()->beamData().row(i);
      if (r.size() > 1 && !fake(r.at(1))) seen->manyBeams++;
    }
  }
}

static void usable(Ctx& c, const core::CoreHolder& core, const Factory& f) {
  PCHECK(c, f.runtimeHash() == sp::hashSpec(core.spec()), "generated code is made for another specification than the one in the model");
  auto& ft = core.features();
  PCHECK(c, ft.patternStatic && ft.ngramStatic && ft.ngramPartialStatic, "generated code is not used");
  PCHECK(c, ft.ngram == ft.ngramStatic.get() && ft.ngramPartial == ft.ngramPartialStatic.get(), "generated code is not used");
}

// another dictionary for the same specification
static World otherRows(Ctx& c, const World& w) {
  World r = w;
  int T = w.fields[w.trieField()].col - 1;
  for (size_t i = 0; i < r.rows.size(); ++i)
    for (int col = 0; col < w.ncols; ++col) {
      if (col == T || !c.chance(1, 3)) continue;
      r.rows[i][col] = w.rows[c.choose(w.rows.size())][col];
    }
  return r;
}

static void addNgrams(Ctx& c, World* w) {
  int style = c.weighted({3, 3, 2, 1, 1, 1});
  if (style == 0) return;
  std::vector<Strs> parts;
  for (auto& g : w->ngrams)
    for (auto& p : g.parts) parts.push_back(p);
  if (style >= 3) {  // only some orders
    std::vector<WNgram> keep;
    for (auto& g : w->ngrams)
      if ((int)g.parts.size() != style - 2) keep.push_back(g);
    // every feature has to be used
    int o = style - 2 == 1 ? 2 : 1;
    for (auto& p : parts) {
      WNgram g;
      for (int j = 0; j < o; ++j) g.parts.push_back(p);
      keep.push_back(g);
    }
    w->ngrams = keep;
    return;
  }
  Strs names;
  for (auto& p : parts) names.insert(names.end(), p.begin(), p.end());
  int n = style == 1 ? c.range(1, 8) : c.range(4, 20);
  int order = c.range(1, 3);
  for (int i = 0; i < n; ++i) {
    WNgram g;
    int o = style == 1 ? c.range(1, 3) : c.chance(3, 4) ? order : c.range(1, 3);
    for (int j = 0; j < o; ++j) {
      Strs p = c.pick(parts);
      if (c.chance(1, 2)) p.push_back(c.pick(names));
      g.parts.push_back(p);
    }
    w->ngrams.push_back(g);
  }
}

static void generated(Ctx& c) {
  GenOpts o;
  o.maxRows = 10;
  if (c.chance(1, 12)) o.wide = true;
  World w = genWorld(c, o);
  addNgrams(c, &w);
  c.describe(show(w));
  sp::AnalysisSpec spec;
  WOK(c, buildSpec(c, w, &spec), "specification");
  auto fact = compile(c, spec);
  int cnt[4] = {0, 0, 0, 0};
  for (auto& n : spec.features.ngram) cnt[n.references.size()]++;
  c.label("unigrams:" + std::string(cnt[1] == 0 ? "0" : cnt[1] < 4 ? "1-3" : cnt[1] < 8 ? "4-7" : "8+"));
  c.label("bigrams:" + std::string(cnt[2] == 0 ? "0" : cnt[2] < 4 ? "1-3" : cnt[2] < 8 ? "4-7" : "8+"));
  c.label("trigrams:" + std::string(cnt[3] == 0 ? "0" : cnt[3] < 4 ? "1-3" : cnt[3] < 8 ? "4-7" : "8+"));
  for (auto& f : w.features) c.label(std::string("feature:") + (f.kind == Match && !f.thenF.empty() ? "if" : f.kind == Match ? "match" : f.kind == Placeholder ? "placeholder" : f.kind == Codepoint ? "codepoint" : f.kind == CodepointType ? "codepoint type" : f.kind == NumCodepoints ? "num codepoints" : "num bytes"));
  c.labelIf(spec.features.numUniOnlyPats > 0, "patterns only of unigrams");
  Seen seen;
  int dics = c.range(1, 3);
  for (int d = 0; d < dics; ++d) {
    World wd = d == 0 ? w : otherRows(c, w);
    if (d > 0) c.describe("rows " + std::to_string(d) + ": " + dicCsv(wd));
    Model m;
    m.build(c, wd);
    core::CoreHolder sc(m.rspec(), m.dic);
    WOK(c, sc.initialize(fact.get()), "core init with generated code");
    usable(c, sc, *fact);
    int runs = c.range(1, 3);
    for (int r = 0; r < runs; ++r) {
      Weights wt = Weights::make(c);
      Beams bm = Beams::make(c);
      auto cfg = bm.cfg(), cfgAll = bm.cfg();
      cfgAll.storeAllPatterns = true;
      if (c.chance(1, 8)) cfg.autoBeamStep = cfgAll.autoBeamStep = 2, cfg.autoBeamBase = cfgAll.autoBeamBase = 1, cfg.autoBeamMax = cfgAll.autoBeamMax = 6;
      Engine dy(c, m.core.get(), wt, bm, cfg), st(c, &sc, wt, bm, cfg), sa(c, &sc, wt, bm, cfgAll);
      c.labelIf(bm.gleft > 0, "global beam"), c.labelIf(bm.gleft == 0, "full beam"), c.labelIf(bm.rcheck > 0, "right beam");
      int sents = c.range(1, 3);
      for (int k = 0; k < sents; ++k) {
        std::string s = genSentence(c, w);
        c.describe("sentence " + std::to_string(d) + "." + std::to_string(r) + ": " + s + " " + bm.str() + "\n");
        WOK(c, dy.analyze(s), "analysis of " + quote(s));
        WOK(c, st.analyze(s), "analysis with generated code of " + quote(s));
        WOK(c, sa.analyze(s), "analysis with generated code of " + quote(s));
        std::string what = "for " + quote(s) + " " + bm.str();
        std::string a = snapshot(c, wd, *dy.an), b = snapshot(c, wd, *st.an), x = snapshot(c, wd, *sa.an);
        if (s.empty()) {
          PCHECK(c, a == b && a == x, "empty sentence: " << firstDiff(b, a));
          continue;
        }
        if (a != b) c.fail("generated code gives another analysis than the interpreter " + what + firstDiff(b, a));
        if (a != x) c.fail("generated code gives another analysis than the interpreter when all patterns are kept " + what + firstDiff(x, a));
        std::string s1 = stored(*dy.an), s2 = stored(*st.an), s3 = stored(*sa.an);
        if (s1 != s2) c.fail("scores of connections differ (generated, interpreted) " + what + firstDiff(s2, s1));
        if (s1 != s3) c.fail("scores of connections differ (generated, interpreted) when all patterns are kept " + what + firstDiff(s3, s1));
        compareFeatures(c, *sa.an, *dy.an, what, &seen);
        count(*dy.an, &seen);
      }
    }
  }
  c.labelIf(seen.emptyBoundaries > 0, "positions without words");
  c.labelIf(seen.manyBeams > 0, "several paths into a word");
  c.nontrivial(seen.connections >= 10 && seen.manyBeams > 0);
}

// the bundled Jumandic specification
static std::string jsnap(an::Analyzer& a, bool patterns) {
  if (a.impl()->lattice()->createdBoundaryCount() <= 3) return "";
  std::ostringstream o;
  auto L = a.impl()->lattice();
  for (int b = 2; b < (int)L->createdBoundaryCount(); ++b) {
    auto bnd = L->boundary(b);
    for (int i = 0; i < (int)bnd->localNodeCount(); ++i) {
      auto ni = bnd->starts()->nodeInfo().at(i);
      o << b << "/" << i << " " << ni.entryPtr().rawValue() << " " << ni.numCodepoints() << ":";
      for (auto& e : bnd->starts()->beamData().row(i)) {
        if (fake(e)) break;
        o << " (" << e.ptr.left << "," << e.ptr.beam << "," << hexFloat(e.totalScore) << "," << hexFloat(bnd->scores()->forPtr(e.ptr).at(0)) << ")";
      }
      if (patterns && !fake(bnd->starts()->beamData().row(i).at(0)))
        for (auto v : bnd->starts()->patternFeatureData().row(i)) o << " " << std::hex << v << std::dec;
      o << "\n";
    }
  }
  return o.str();
}
static void bundled(Ctx& c) {
  jd::JWorld w = jd::genJWorld(c);
  jumanpp_generated::JumandicStatic fact;
  jd::JModel m, ms;
  m.build(c, w);
  core::CoreHolder sc(m.builder.result().spec, m.dic);
  WOK(c, sc.initialize(&fact), "core init with generated code");
  usable(c, sc, fact);
  std::string desc = jd::csv(w.rows);
  Seen seen;
  int many = 0, words = 0;
  for (int r = c.range(1, 3); r > 0; --r) {
    Weights wt = Weights::make(c);
    Beams bm = Beams::make(c);
    bool all = c.chance(1, 3);
    auto cfg = bm.cfg();
    cfg.storeAllPatterns = all;
    an::HashedFeaturePerceptron hfp{util::ArraySlice<float>(wt.v)};
    an::ScorerDef sd;
    sd.feature = &hfp;
    sd.scoreWeights.push_back(1.f);
    an::Analyzer dy, st;
    WOK(c, dy.initialize(m.core.get(), cfg, core::ScoringConfig{bm.beam, 1}, &sd), "analyzer init");
    WOK(c, st.initialize(&sc, cfg, core::ScoringConfig{bm.beam, 1}, &sd), "analyzer init");
    c.labelIf(bm.gleft > 0, "global beam"), c.labelIf(bm.gleft == 0, "full beam"), c.labelIf(all, "all patterns");
    for (int k = c.range(1, 4); k > 0; --k) {
      std::string s = jd::genText(c, w);
      desc += "sentence: " + s + " " + bm.str() + "\n";
      WOK(c, dy.analyze(s), "analysis");
      WOK(c, st.analyze(s), "analysis with generated code");
      std::string a = jsnap(dy, all), b = jsnap(st, all);
      if (a != b) {
        c.describe(desc);
        c.fail("generated code of Jumandic gives another analysis than the interpreter for " + quote(s) + " " + bm.str() + firstDiff(b, a));
      }
      if (a.empty()) continue;
      auto L = dy.impl()->lattice();
      for (int b2 = 2; b2 < (int)L->createdBoundaryCount(); ++b2) {
        auto bnd = L->boundary(b2);
        for (int i = 0; i < (int)bnd->localNodeCount(); ++i) {
          ++words;
          auto row = bnd->starts()->beamData().row(i);
          if (row.size() > 1 && !fake(row.at(1))) ++many;
          if (all)
            for (auto& e : row) {
              if (fake(e)) break;
              auto l = bnd->ends()->nodePtrs().at(e.ptr.left);
              NodeId t0{b2, i}, t1{l.boundary, l.position}, t2{e.ptr.previous->boundary, e.ptr.previous->right};
              auto f1 = ngramFeats(st.impl()->lattice(), sc, t2, t1, t0), f2 = ngramFeats(L, *m.core, t2, t1, t0);
              if (f1 != f2) {
                c.describe(desc);
                for (size_t z = 0; z < f1.size(); ++z) PCHECK(c, f1[z] == f2[z], "n-gram feature " << z << " of " << ids(t2) << " " << ids(t1) << " " << ids(t0) << " for " << quote(s));
              }
            }
        }
      }
    }
  }
  c.describe(desc);
  c.nontrivial(words >= 5 && many > 0);
}

int main(int argc, char** argv) {
  jumanpp::util::logging::CurrentLogLevel = jumanpp::util::logging::Level::Error;
  if (!makePch()) {
    // headers of generated code do not compile; the compiler itself is the one that built this check
    std::cerr << "cannot prepare the headers of generated code\n";
    return 3;
  }
  pbt::CheckDef d;
  d.id = "A08";
  d.assumptions = {"generated code is compiled with the compiler of the checks (clang, -O0, with AddressSanitizer)",
                   "weights are chosen so that sums are exact in floating point; the order of additions may differ between the implementations"};
  d.facets.push_back({"generated", "at least 10 connections in beams compared and a word reached by several paths", 500, 6000, generated});
  d.facets.push_back({"jumandic", "at least 5 words and a word reached by several paths", 800, 10000, bundled});
  int rc = pbt::runMain(argc, argv, d);
  unlink(gPch.c_str());
  unlink(gPch.substr(0, gPch.size() - 4).c_str());
  return rc;
}
