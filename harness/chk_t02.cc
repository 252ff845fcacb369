// T02: training examples are read as written and located in the lattice as written
#include "core/analysis/unk_nodes_creator.h"
#include "train.h"
using namespace w;
namespace in = jumanpp::core::input;

namespace {
// is the string stored in the storage of a field
struct Stored {
  std::map<int, std::set<std::string>> s;
  const World& w;
  int root(int f) const { return w.fields[f].storage >= 0 ? root(w.fields[f].storage) : f; }
  explicit Stored(const World& world) : w(world) {
    for (int f = 0; f < (int)w.fields.size(); ++f)
      for (int r = 0; r < (int)w.rows.size(); ++r) {
        auto& cell = w.cell(r, f);
        auto& fl = w.fields[f];
        auto add = [&](const std::string& x) { s[root(f)].insert(x); };
        if (fl.kind == FString) add(cell);
        if (fl.kind == FList)
          for (auto& x : split(cell, " ")) add(x);
        if (fl.kind == FKv)
          for (auto& x : split(cell, fl.listSep)) {
            size_t p = x.find(fl.kvSep);
            add(x.substr(0, p));
            if (p != std::string::npos) add(x.substr(p + fl.kvSep.size()));
          }
      }
  }
  bool empty(int f, const std::string& v) const { return v.empty() || v == w.fields[f].empty; }
  bool maybe(int f, const std::string& v) const { return empty(f, v) || s.at(root(f)).count(v); }
  // values of entries which are certainly in the dictionary
  bool certain(int f, const std::string& v) const {
    if (empty(f, v)) return true;
    for (int g = 0; g < (int)w.fields.size(); ++g)
      if (w.fields[g].kind == FString && root(g) == root(f))
        for (int r = 0; r < (int)w.rows.size(); ++r)
          if (w.cell(r, g) == v && v != w.fields[g].empty && !w.cell(r, w.trieField()).empty()) return true;
    return false;
  }
};
std::string goldText(const World& w, const Gold& g) {
  Strs x;
  for (auto& y : g.words) x.push_back(quote(join(y.v, "/")));
  return join(x, " ");
}

struct Src {
  World w;
  bool csv;
  Model m;
  in::TrainFieldsIndex tio;
  tr::FullExampleReader rdr;
  Written wr;
  Src(Ctx& c, int maxEx, bool bad) {
    w = trainWorld(c, 14, false, !c.chance(1, 4));
    addAliases(c, w);
    if (c.chance(1, 8)) w.train[surfaceSlot(w)].second = 0;
    csv = c.chance(1, 2);
    wr = writeSet(c, w, genSet(c, w, csv, maxEx), csv, bad);
    m.build(c, w);
    WOK(c, tio.initialize(*m.core), "index of values");
    rdr.setTrainingIo(&tio);
    rdr.setFilename("file");
    start(c);
  }
  void start(Ctx& c) { WOK(c, csv ? rdr.initCsv(wr.data) : rdr.initDoubleCsv(wr.data), "reader"); }
};
void reader(Ctx& c) {
  Src s(c, 4, true);
  auto& w = s.w;
  Stored st(w);
  c.describe(show(w) + (s.csv ? "csv\n" : "morph\n") + quote(s.wr.data) + "\n");
  tr::FullyAnnotatedExample ex;
  bool unknown = false, known = false;
  int passes = c.chance(1, 4) ? 2 : 1;
  for (int p = 0; p < passes; ++p) {
    if (p) {
      if (c.chance(1, 2)) s.rdr.resetInput(s.wr.data);
      else s.start(c);
    }
    for (size_t i = 0; i < s.wr.ex.size(); ++i) {
      auto& g = s.wr.ex[i];
      if (c.chance(1, 2)) ex.reset();
      WOK(c, s.rdr.readFullExample(&ex), "example " + std::to_string(i));
      PCHECK(c, !s.rdr.finished(), "example " << i << " is not read");
      PEQ(c, ex.surface().str(), g.text, "text of example " << i);
      PEQ(c, ex.comment().str(), g.comment, "comment of example " << i);
      PEQ(c, ex.numNodes(), (int)g.words.size(), "words of example " << i);
      for (int k = 0; k < ex.numNodes(); ++k) {
        auto n = ex.nodeAt(k);
        auto& x = g.words[k];
        std::string at = " of word " + std::to_string(k) + " of example " + std::to_string(i);
        PEQ(c, n.position, x.start, "position" << at);
        PEQ(c, n.length, x.end - x.start, "length" << at);
        PEQ(c, n.surface.str(), x.v[surfaceSlot(w)], "surface" << at);
        PEQ(c, n.data.size(), x.v.size(), "number of values" << at);
        for (size_t j = 0; j < x.v.size(); ++j) {
          int f = w.train[j].first;
          i32 d = n.data.at(j);
          if (d >= 0) {
            if (!st.empty(f, x.v[j])) {
              StringPiece sp;
              auto fld = s.m.core->dic().fields().byName(w.fields[f].name);
              PCHECK(c, fld->strings.readAt(d, &sp), "value " << j << at << " can't be read");
              PEQ(c, sp.str(), x.v[j], "value " << j << at);
            } else
              PEQ(c, d, 0, "empty value " << j << at);
            known = true;
          } else {
            PCHECK(c, !st.certain(f, x.v[j]), "value " << quote(x.v[j]) << at << " is not found in the dictionary");
            unknown = true;
          }
        }
      }
    }
    Status e = s.rdr.readFullExample(&ex);
    if (s.wr.bad.empty()) {
      WOK(c, std::move(e), "end of data");
      PCHECK(c, s.rdr.finished(), "data doesn't end");
      PEQ(c, ex.numNodes(), 0, "words after the end of data");
    } else {
      PCHECK(c, !e.isOk(), "malformed example (" << s.wr.bad << ") is not reported");
      c.label("malformed: " + s.wr.bad);
    }
  }
  c.label(s.csv ? "csv" : "morph");
  c.labelIf(passes == 2, "read again");
  c.labelIf(unknown, "unknown values");
  c.labelIf(known && s.wr.ex.size() > 1, "several examples");
  for (auto& g : s.wr.ex) c.labelIf(g.words.empty(), "no words");
  if (known || !s.wr.bad.empty()) c.nontrivial();
}

std::string expectPrint(const World& w, int f, const std::string& v) { return expectCell(w.fields[f], v); }

void gold(Ctx& c) {
  Src s(c, 3, false);
  auto& w = s.w;
  Stored st(w);
  Beams b = Beams::make(c);
  auto cfg = b.cfg();
  c.describe(show(w) + (s.csv ? "csv\n" : "morph\n") + quote(s.wr.data) + "\n" + b.str() + "\n");
  Weights wt = Weights::make(c);
  an::HashedFeaturePerceptron perc{util::ArraySlice<float>(wt.v)};
  an::ScorerDef sdef;
  sdef.feature = &perc;
  sdef.scoreWeights.push_back(1.f);
  tr::TrainingConfig tc;
  tc.featureNumberExponent = 10;
  tc.beamSize = b.beam;
  auto& spec = s.m.core->spec();
  tr::TrainerFullConfig conf{&cfg, s.m.core.get(), &spec.training, &tc};
  tr::OwningFullTrainer trainer(conf);
  WOK(c, trainer.initAnalyzer(&sdef), "initAnalyzer");
  Analyzer plain(s.m.core.get(), core::ScoringConfig{b.beam, 1}, cfg);
  WOK(c, plain.initScorers(sdef), "initScorers");
  for (size_t i = 0; i < s.wr.ex.size(); ++i) {
    auto& g = s.wr.ex[i];
    if (c.chance(3, 4)) trainer.reset();
    WOK(c, trainer.readExample(&s.rdr), "example " + std::to_string(i));
    if (g.words.empty()) continue;
    Status ps = plain.resetForInput(g.text);
    if (ps) ps = plain.prepareNodeSeeds();
    if (ps) ps = plain.buildLattice();
    std::vector<LNode> nodes;
    if (ps) nodes = latticeNodes(c, w, plain);
    int rounds = c.chance(1, 3) ? 2 : 1;
    for (int r = 0; r < rounds; ++r) {
      WOK(c, trainer.prepare(), "prepare of example " + std::to_string(i) + " " + goldText(w, g));
      if (c.chance(1, 4)) WOK(c, trainer.compute(&sdef), "compute");
      auto path = trainer.trainer().goldenPath().nodes();
      PEQ(c, path.size(), g.words.size(), "length of the gold path");
      auto L = trainer.lattice();
      PEQ(c, (int)L->createdBoundaryCount(), g.n + 3, "size of the lattice");
      auto& om = trainer.outputMgr();
      FieldReader fr(c, w, om);
      auto walker = om.nodeWalker();
      std::map<int, int> extra;
      for (size_t k = 0; k < path.size(); ++k) {
        auto& x = g.words[k];
        std::string at = " of word " + std::to_string(k) + " " + quote(join(x.v, "/")) + " of example " + std::to_string(i);
        auto ptr = path.at(k);
        PEQ(c, (int)ptr.boundary, x.start + 2, "start" << at);
        auto starts = L->boundary(ptr.boundary)->starts();
        PCHECK(c, ptr.position < starts->nodeInfo().size(), "the gold node" << at << " doesn't exist");
        auto& ni = starts->nodeInfo().at(ptr.position);
        PEQ(c, (int)ni.start(), x.start, "start" << at);
        PEQ(c, (int)ni.end(), x.end, "end" << at);
        bool linked = false;
        for (auto& e : L->boundary(x.end + 2)->ends()->nodePtrs()) linked = linked || (e.boundary == ptr.boundary && e.position == ptr.position);
        PCHECK(c, linked, "the gold node" << at << " is not in the list of words which end at its end");
        PCHECK(c, om.locate(ptr, &walker) && walker.next(), "the gold node" << at << " can't be located");
        // does the lattice without training have the word?
        bool exists = false;
        int before = 0;
        if (ps)
          for (auto& n : nodes) {
            if (n.start != x.start) continue;
            ++before;
            if (n.end != x.end) continue;
            bool ok = true;
            for (size_t j = 0; j < x.v.size(); ++j)
              if (w.train[j].second != 0) ok = ok && n.first[w.train[j].first] == expectPrint(w, w.train[j].first, x.v[j]);
            exists = exists || ok;
          }
        int added = ps ? (int)starts->nodeInfo().size() - before : -1;
        auto raw = starts->entryData().row(ptr.position);
        auto valuesOk = [&](bool all) {
          for (size_t j = 0; j < x.v.size(); ++j) {
            int f = w.train[j].first;
            if (w.train[j].second == 0 && !all) continue;
            i32 v = raw.at(spec.training.fields[j].dicIdx);
            if (v < 0) {
              if (v != an::hashUnkString(x.v[j])) return false;
              if (all && st.certain(f, x.v[j])) return false;
            } else if (fr.get(f, walker) != expectPrint(w, f, x.v[j]))
              return false;
          }
          return true;
        };
        if (exists) {
          PEQ(c, added, 0, "a word was added although the lattice has the word" << at);
          PCHECK(c, valuesOk(false), "the gold node" << at << " has other values");
          c.label(ni.entryPtr().isSpecial() ? "unknown word" : "dictionary word");
        } else if (added == 1) {
          PCHECK(c, ni.entryPtr().isSpecial(), "the gold node" << at << " is a word of the dictionary");
          PCHECK(c, valuesOk(true), "the added gold node" << at << " has other values");
          c.label("added");
        } else if (added == -1) {
          bool nw = valuesOk(true), old = valuesOk(false);
          bool rule = !w.aliases.empty() && ni.entryPtr().isSpecial();
          PCHECK(c, nw || old || rule, "the gold node" << at << " has other values");
          c.label("sentence without candidates");
        } else {
          PEQ(c, added, 0, "number of added words at" << at);
          PCHECK(c, ni.entryPtr().isSpecial() && !w.aliases.empty(), "the gold node" << at << " has other values");
          for (auto& a : w.aliases) {
            std::string kv = fr.get(a.source, walker), val;
            for (size_t j = 0; j < x.v.size(); ++j)
              if (w.train[j].first == a.target) val = x.v[j];
            std::string item = a.key + "=" + val;
            bool has = false;
            for (auto& y : split(kv.substr(1, kv.size() - 2), "|")) has = has || y == item;
            PCHECK(c, has, "the gold node" << at << " is not allowed by unk_gold_if, its data is " << kv);
          }
          c.label("allowed unknown word");
        }
        c.nontrivial();
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "T02";
  d.assumptions = {
      "training fields are text fields of the dictionary which are stored per word (as the documentation requires)",
      "a word of an unknown-word rule which unk_gold_if allows, or a new word with the annotated values, is gold when no candidate has all values",
      "a blank line in the one-sentence-per-line format is malformed; additional columns are ignored",
  };
  d.facets.push_back({"reader", "at least one value of the dictionary is read, or the data is malformed", 10000, 300000, reader});
  d.facets.push_back({"gold", "at least one gold word is located", 10000, 300000, gold});
  return pbt::runMain(argc, argv, d);
}
