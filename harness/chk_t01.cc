// T01: partial annotations constrain the analysis exactly as annotated
#include <fcntl.h>
#include <unistd.h>
#include <sstream>
#include "core/analysis/analyzer.h"
#include "core/input/partial_example_io.h"
#include "core/input/pex_stream_reader.h"
#include "snapshot.h"
#include "partial.h"
using namespace w;
namespace in = jumanpp::core::input;

namespace {
std::string pathText(const std::vector<LNode>& p) {
  Strs v;
  for (auto& n : p) v.push_back(std::to_string(n.start) + "-" + std::to_string(n.end) + "<" + join(n.first, ",") + ">");
  return join(v, " ");
}
std::vector<LNode> bestPath(Ctx& c, Analyzer& a, const std::vector<LNode>& nodes) {
  std::vector<LNode> r;
  auto L = a.lattice();
  an::AnalysisPath p;
  WOK(c, p.fillIn(L), "path");
  p.reset();
  while (p.nextBoundary()) {
    an::ConnectionPtr cp;
    bool any = false;
    while (p.nextNode(&cp)) {
      any = true;
      bool found = false;
      for (auto& n : nodes)
        if (n.boundary == cp.boundary && n.pos == cp.right) r.push_back(n), found = true;
      PCHECK(c, found, "the path has an unknown node");
    }
    if (!any) break;
  }
  return r;
}
void checkBest(Ctx& c, const World& w, const Ann& a, Analyzer& an1) {
  if (a.n == 0) return;
  auto nodes = latticeNodes(c, w, an1);
  auto path = bestPath(c, an1, nodes);
  int at = 0;
  for (auto& n : path) {
    PEQ(c, n.start, at, "the path has a gap");
    at = n.end;
  }
  PEQ(c, at, a.n, "the path does not cover the text");
  bool strict = feasible(w, a, nodes, true);
  if (strict) {
    for (auto& n : path)
      PCHECK(c, nodeOk(w, a, n, true) != 0, "annotations can be respected, the analysis does not: " << describeAnn(a) << "\npath " << pathText(path));
    bool tagged = false;
    for (auto& x : a.words) tagged = tagged || !x.tags.empty();
    c.labelIf(tagged, "tags respected");
    c.labelIf(!a.none() && !tagged, "boundaries respected");
    c.labelIf(!a.noBreak.empty(), "unbroken stretches respected");
    if (!a.none()) c.nontrivial();
  } else if (a.words.size() < 8 && feasible(w, a, nodes, false)) {
    for (auto& n : path)
      PCHECK(c, nodeOk(w, a, n, false) != 0, "annotated boundaries can be respected, the analysis does not: " << describeAnn(a) << "\npath " << pathText(path));
    c.label("no candidate with the tags, boundaries respected");
  } else
    c.label("annotations can't be respected");
}
struct Setup {
  World w;
  Model m;
  Weights weights;
  Beams b;
  an::AnalyzerConfig cfg;
  an::HashedFeaturePerceptron hfp{util::ArraySlice<float>()};
  an::ScorerDef sdef;
  std::unique_ptr<an::HashedFeaturePerceptron> perc;
  Setup(Ctx& c) {
    w = trainWorld(c, 14);
    weights = Weights::make(c);
    for (auto& x : weights.v) x /= 16;
    b = Beams::make(c);
    cfg = b.cfg();
    m.build(c, w);
    perc.reset(new an::HashedFeaturePerceptron(util::ArraySlice<float>(weights.v)));
    sdef.feature = perc.get();
    sdef.scoreWeights.push_back(1.f);
  }
  // the high level analyser over our subclass
  struct A {
    std::unique_ptr<Analyzer> impl;
    std::unique_ptr<an::Analyzer> a;
  };
  A make(Ctx& c) {
    A r;
    r.impl.reset(new Analyzer(m.core.get(), core::ScoringConfig{b.beam, 1}, cfg));
    WOK(c, r.impl->initScorers(sdef), "initScorers");
    r.a.reset(new an::Analyzer);
    WOK(c, r.a->initialize(r.impl.get(), &sdef), "analyzer");
    return r;
  }
};

void stream(Ctx& c) {
  Setup s(c);
  auto& w = s.w;
  char32_t nb = c.chance(3, 4) ? U'&' : c.oneOf<char32_t>({U'|', U'＆', U'😁'});
  std::string d = show(w) + s.b.str() + "\n";
  auto main = s.make(c);
  std::vector<Ann> ex;
  std::string all;
  int n = c.range(1, 5);
  for (int i = 0; i < n; ++i) {
    std::string text = genSentence(c, w, 8);
    if (text.size() > 90) text = c.pick(w.words);
    if (text.find(nbName(nb)) != std::string::npos || text.empty()) text = w.words[0];
    if (text.find(nbName(nb)) != std::string::npos || !lineSafe(text)) c.discard();
    Status st = main.a->analyze(text);
    std::vector<LNode> nodes;
    if (st) nodes = latticeNodes(c, w, *main.impl);
    auto ch = cps(text);
    Ann a = render(c, w, ch, genSegs(c, w, ch, nodes), nbName(nb), "\n");
    if (c.chance(1, 12)) {
      a.bad = c.oneOf<std::string>({"unknown field", "no field name", "first field", "invalid text", "invalid tag", "zero byte"});
      std::string line = a.bad == "unknown field" ? "\tx\tnosuch:1\n" : a.bad == "no field name" ? "\tx\tf1\n" : a.bad == "first field" ? "x\ty\n"
          : a.bad == "invalid text" ? "\xff\xfe\n" : a.bad == "invalid tag" ? "\tx\t" + w.fields[w.train[0].first].name + ":\xe3\x81\n" : std::string("x\0y\n", 4);
      size_t p = c.chance(1, 2) ? 0 : a.rendered.size();
      a.rendered.insert(p, line);
    }
    all += a.rendered;
    if (i + 1 < n || c.chance(2, 3)) all += "\n";
    ex.push_back(a);
  }
  c.describe(d + quote(all) + "\n");
  in::PexStreamReader rd;
  WOK(c, rd.initialize(*s.m.core, nb), "reader");
  std::istringstream is(all);
  auto check = s.make(c);
  for (int i = 0; i < n; ++i) {
    auto& a = ex[i];
    Status st = rd.readExample(&is);
    if (!a.bad.empty()) {
      PCHECK(c, !st.isOk(), "malformed annotation (" << a.bad << ") is not reported");
      c.label("malformed: " + a.bad);
      continue;
    }
    WOK(c, std::move(st), "example " + std::to_string(i));
    PEQ(c, rd.comment().str(), a.comment, "comment of example " << i);
    PEQ(c, rd.surface().str(), a.text, "text of example " << i);
    Status st2 = rd.analyzeWith(main.a.get());
    if (!st2.isOk()) {  // the text can't be analysed at all
      Status plain = check.a->analyze(a.text);
      PCHECK(c, !plain.isOk(), "an annotated text is not analysed: " << msg(st2));
      c.label("text which can't be analysed");
      continue;
    }
    checkBest(c, w, a, *main.impl);
    std::string snap = snapshot(c, w, *main.impl);
    // alone, with a fresh reader and analyser
    {
      auto fresh = s.make(c);
      in::PexStreamReader r2;
      WOK(c, c.chance(1, 2) ? r2.initialize(rd) : r2.initialize(*s.m.core, nb), "reader");
      std::istringstream one(a.rendered);
      WOK(c, r2.readExample(&one), "example alone");
      PEQ(c, r2.comment().str(), a.comment, "comment of the example alone");
      WOK(c, r2.analyzeWith(fresh.a.get()), "analysis alone");
      std::string s2 = snapshot(c, w, *fresh.impl);
      PCHECK(c, s2 == snap, "the analysis depends on the neighbouring examples:" << firstDiff(snap, s2));
    }
    // text without annotations afterwards, with the same analyser
    if (c.chance(1, 2) || a.none()) {
      std::string t = a.none() || c.chance(1, 2) ? a.text : c.pick(w.words);
      auto fresh = s.make(c);
      Status p1 = main.a->analyze(t), p2 = fresh.a->analyze(t);
      PCHECK(c, p1.isOk() == p2.isOk(), "plain text after an annotated one: " << msg(p1) << " / " << msg(p2));
      if (p1.isOk()) {
        std::string x = snapshot(c, w, *main.impl), y = snapshot(c, w, *fresh.impl);
        PCHECK(c, x == y, "an annotated example changes the analysis of plain text after it:" << firstDiff(x, y));
        if (a.none()) {
          PCHECK(c, x == snap, "an example without annotations is not analysed as plain text:" << firstDiff(x, snap));
          c.label("example without annotations");
        }
      }
    }
  }
  c.labelIf(n > 1, "several examples");
}

// files of examples: what is read is what was written
void reader(Ctx& c) {
  World w = trainWorld(c, 6);
  Model m;
  std::string d = show(w);
  char32_t nb = c.chance(2, 3) ? U'&' : c.oneOf<char32_t>({U'|', U'＆', U'😁', U'-'});
  const char* eol = c.chance(1, 5) ? "\r\n" : "\n";
  std::vector<Ann> ex;
  std::string all;
  int n = c.range(1, 6), badAt = c.chance(1, 5) ? c.range(0, n - 1) : -1;
  bool lastEmpty = c.chance(3, 4);
  for (int i = 0; i < n; ++i) {
    std::string text = c.chance(1, 15) ? "" : genSentence(c, w, 10);
    Strs ch;
    for (auto& x : cps(text))
      if (x != nbName(nb)) ch.push_back(x);
    std::vector<LNode> none;
    Ann a = render(c, w, ch, genSegs(c, w, ch, none), nbName(nb), eol);
    if (i == badAt) {
      a.bad = c.oneOf<std::string>({"unknown field", "no field name", "first field", "invalid text", "invalid tag", "zero byte"});
      std::string line = a.bad == "unknown field" ? "\tx\tnosuch:1" : a.bad == "no field name" ? "\tx\tf1" : a.bad == "first field" ? "x\ty"
          : a.bad == "invalid text" ? "\xff\xfe" : a.bad == "invalid tag" ? "\tx\t" + w.fields[w.train[0].first].name + ":\xe3\x81" : std::string("x\0y", 3);
      size_t p = c.chance(1, 2) ? 0 : a.rendered.size();
      a.rendered.insert(p, line + eol);
    }
    all += a.rendered;
    if (i + 1 < n || lastEmpty) all += eol;
    ex.push_back(a);
  }
  bool file = c.chance(1, 3) && !all.empty();
  c.describe(d + quote(all) + "\n");
  m.build(c, w);
  in::TrainFieldsIndex tio;
  WOK(c, tio.initialize(*m.core), "fields");
  in::PartialExampleReader rd;
  WOK(c, rd.initialize(&tio, nb), "reader");
  std::string fn = "<memory>";
  if (c.chance(1, 4)) {  // the reader is used again
    WOK(c, rd.setData("# old\n\tx\nab" "\n"), "setData");
    in::PartialExample old;
    bool e;
    WOK(c, rd.readExample(&old, &e), "old data");
  }
  if (file) {
    fn = pbt::scratchFile(c, "ex.txt");
    pbt::writeFile(fn, all);
    WOK(c, rd.openFile(fn), "open");
    if (c.chance(1, 3)) WOK(c, rd.openFile(fn), "open again");
  } else
    WOK(c, rd.setData(all), "setData");
  in::PartialExample pe;  // one for all
  int words = 0, lineNo = 1;
  for (int i = 0; i < n; ++i) {
    auto& a = ex[i];
    bool eof = false;
    Status st = rd.readExample(&pe, &eof);
    if (!a.bad.empty()) {
      PCHECK(c, !st.isOk(), "malformed annotation (" << a.bad << ") is not reported");
      PCHECK(c, !msg(st).empty(), "error without message");
      c.label("malformed: " + a.bad);
      c.nontrivial();
      return;
    }
    WOK(c, std::move(st), "example " + std::to_string(i));
    bool last = i + 1 == n && !lastEmpty;
    PEQ(c, eof, last, "end of data after example " << i);
    PEQ(c, pe.surface().str(), a.text, "text of example " << i);
    PEQ(c, pe.exampleInfo().comment.str(), a.comment, "comment of example " << i);
    PEQ(c, pe.exampleInfo().file.str(), fn, "file of example " << i);
    if (!a.rendered.empty()) PEQ(c, pe.line(), (i64)lineNo, "line of example " << i);
    lineNo += 1 + (int)std::count(a.rendered.begin(), a.rendered.end(), '\n');
    std::set<int> b, nbs;
    for (int x : pe.boundaries())
      if (x - 2 != a.n) b.insert(x - 2);
    for (int x : pe.forbidBreak()) nbs.insert(x - 2);
    PCHECK(c, b == a.bounds, "boundaries of example " << i);
    PCHECK(c, nbs == a.noBreak, "unbroken positions of example " << i);
    PEQ(c, (int)pe.nodes().size(), (int)a.words.size(), "number of tagged words");
    Strs ch = cps(a.text);
    for (size_t k = 0; k < a.words.size(); ++k) {
      auto& x = a.words[k];
      auto& y = pe.nodes().at(k);
      PEQ(c, y.boundary, x.start + 2, "start of a tagged word");
      PEQ(c, y.length, x.len, "length of a tagged word");
      PEQ(c, y.surface, join(Strs(ch.begin() + x.start, ch.begin() + x.start + x.len), ""), "surface of a tagged word");
      PEQ(c, y.tags.size(), x.tags.size(), "number of tags");
      for (size_t q = 0; q < x.tags.size(); ++q) {
        int f = -1;
        for (auto& tf : m.rspec().training.fields)
          if (m.rspec().dictionary.fields[tf.fieldIdx].name == w.fields[x.tags[q].first].name) f = tf.dicIdx;
        PEQ(c, y.tags[q].field, f, "field of a tag");
      }
      ++words;
    }
  }
  c.labelIf(words > 1, "several tagged words");
  c.labelIf(file, "file");
  c.labelIf(*eol == '\r', "CRLF");
  c.labelIf(!lastEmpty, "no empty line at the end");
  bool any = false;
  for (auto& a : ex) any = any || !a.none();
  if (n > 1 && any) c.nontrivial();
  if (lastEmpty) {
    bool eof = false;
    WOK(c, rd.readExample(&pe, &eof), "after the last example");
    PCHECK(c, eof, "there is an example after the last one");
    PCHECK(c, pe.surface().empty() && pe.nodes().empty() && pe.boundaries().empty() && pe.forbidBreak().empty() && pe.exampleInfo().comment.empty(), "data after the last example");
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "T01";
  d.assumptions = {"model scores are small compared to the penalty for a violated annotation (1000)", "a no-break mark stands between two characters of one line", "tagged words are not empty", "fewer than 8 tagged words where no candidate has the tags", "a tag on a field that is not part of the identity of a word may be satisfied by any homograph", "lines of a stream end with a line feed"};
  d.facets.push_back({"stream", "an example with annotations that can be respected", 12000, 250000, stream});
  d.facets.push_back({"reader", "several examples with annotations, or a malformed one", 12000, 250000, reader});
  return pbt::runMain(argc, argv, d);
}
