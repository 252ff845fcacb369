// A04: the lattice holds exactly the dictionary words occurring in the text
#include "unkmodel.h"
using namespace w;

namespace {
void lookup(Ctx& c) {
  GenOpts o;
  o.train = c.chance(1, 3);
  o.maxRows = 20;
  World w = genWorld(c, o);
  std::string s = genSentence(c, w);
  c.describe(show(w) + "sentence: " + s);
  Model m;
  m.build(c, w);
  Engine e(c, m.core.get(), Weights(), Beams());
  WOK(c, e.lattice(s), "lattice for " + quote(s));
  auto cs = cps(s);
  auto G = groups(w);
  std::vector<std::string> want, have;
  int merged = 0, homographs = 0;
  std::map<std::string, int> perSurface;
  for (auto& g : G) ++perSurface[g.surface];
  for (size_t i = 0; i < cs.size(); ++i) {
    std::string acc;
    for (size_t j = i; j < cs.size(); ++j) {
      acc += cs[j];
      for (auto& g : G)
        if (g.surface == acc) {
          want.push_back(std::to_string(i) + "-" + std::to_string(j + 1) + " " + str(expectEntries(w, g)));
          merged += g.rows.size() > 1;
          homographs += perSurface[acc] > 1;
        }
    }
  }
  auto nodes = latticeNodes(c, w, *e.an);
  for (auto& n : nodes) {
    if (n.unk()) continue;
    std::sort(n.entries.begin(), n.entries.end());
    have.push_back(std::to_string(n.start) + "-" + std::to_string(n.end) + " " + str(n.entries));
  }
  std::sort(want.begin(), want.end());
  std::sort(have.begin(), have.end());
  if (want != have) {
    std::string d;
    for (auto& x : want)
      if (std::count(want.begin(), want.end(), x) > std::count(have.begin(), have.end(), x)) d += "\n missing or too few: " + x;
    for (auto& x : have)
      if (std::count(have.begin(), have.end(), x) > std::count(want.begin(), want.end(), x)) d += "\n not expected: " + x;
    c.fail("dictionary nodes of the lattice differ from the words occurring in " + quote(s) + d);
  }
  c.labelIf(merged > 0, "node with several entries");
  c.labelIf(homographs > 0, "homographs");
  c.labelIf(want.size() > cs.size(), "overlapping words");
  c.labelIf(s.empty(), "empty input");
  c.labelIf(!w.train.empty(), "train clause");
  c.nontrivial(want.size() >= 3);
}

// many similar words: deep and wide tries
void bigTrie(Ctx& c) {
  World w;
  Strs alpha;
  int k = c.range(1, 4);
  for (int i = 0; i < k; ++i) alpha.push_back(c.pick(c.pick(alphabetPools())));
  w.alphabet = alpha;
  WField f;
  f.name = "s";
  f.trie = true;
  w.fields.push_back(f);
  WField g;
  g.name = "id";
  g.col = 2;
  w.fields.push_back(g);
  w.ngrams.push_back({{{"s"}}});
  if (c.chance(1, 2)) w.ngrams.push_back({{{"id"}}});
  int n = c.range(1, c.thorough ? 1500 : 400);
  pbt::Rng r{c.bits(32)};
  int maxLen = c.range(1, 12);
  for (int i = 0; i < n; ++i) {
    std::string x;
    int len = 1 + (int)(r.next() % maxLen);
    for (int j = 0; j < len; ++j) x += alpha[r.next() % alpha.size()];
    w.rows.push_back({x, "v" + std::to_string(r.next() % 50)});
    w.words.push_back(x);
  }
  WUnk u;
  u.name = "u";
  u.kind = Chunking;
  u.classes = {"FAMILY_ANYTHING"};
  u.cls = classValue("FAMILY_ANYTHING");
  w.rows.insert(w.rows.begin(), {"U", "U"});
  w.unks.push_back(u);
  std::string s;
  int sl = c.range(1, 60);
  for (int i = 0; i < sl; ++i) s += alpha[r.next() % alpha.size()];
  c.describe("words over {" + join(alpha, ",") + "} n=" + std::to_string(n) + " maxlen=" + std::to_string(maxLen) + " e.g. " + w.rows[1][0] + " sentence " + s);
  Model m;
  m.build(c, w);
  Engine e(c, m.core.get(), Weights(), Beams());
  WOK(c, e.lattice(s), "lattice for " + quote(s));
  std::map<std::string, std::multiset<std::string>> ids;
  for (size_t i = 1; i < w.rows.size(); ++i) ids[w.rows[i][0]].insert(w.rows[i][1]);
  auto cs = cps(s);
  std::map<std::pair<int, int>, std::multiset<std::string>> want, have;
  int total = 0;
  for (size_t i = 0; i < cs.size(); ++i) {
    std::string acc;
    for (size_t j = i; j < cs.size(); ++j) {
      acc += cs[j];
      auto it = ids.find(acc);
      if (it == ids.end()) continue;
      want[{(int)i, (int)j + 1}] = it->second;
      ++total;
    }
  }
  for (auto& nd : latticeNodes(c, w, *e.an))
    if (!nd.unk())
      for (auto& en : nd.entries) have[{nd.start, nd.end}].insert(en[1]);
  for (auto& x : want)
    PCHECK(c, have[x.first] == x.second, "span " << x.first.first << "-" << x.first.second << " of " << quote(s) << ": expected " << x.second.size() << " entries, the lattice has " << have[x.first].size());
  for (auto& x : have)
    PCHECK(c, want[x.first] == x.second, "span " << x.first.first << "-" << x.first.second << " of " << quote(s) << " has unexpected dictionary entries");
  c.nontrivial(total >= 5);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "A04";
  d.assumptions = {"unknown-word template rows are not dictionary words", "list values are compared as multisets (the dictionary stores them sorted)",
                   "the reference lookup compares strings naively; merging follows the declared alias fields"};
  d.facets.push_back({"lookup", "at least three dictionary words occur in the sentence", 25000, 400000, lookup});
  d.facets.push_back({"big-trie", "at least five occurrences of dictionary words", 1500, 20000, bigTrie});
  return pbt::runMain(argc, argv, d);
}
