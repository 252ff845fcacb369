// A07: values of declared feature combinations partition the words exactly as
// the reference evaluation does
#include "featref.h"
using namespace w;

namespace {
struct Partition {
  std::map<std::string, std::map<std::string, std::pair<u64, std::string>>> byVal;  // group -> reference value -> (value, where)
  std::map<std::string, std::map<u64, std::pair<std::string, std::string>>> byHash;
  int splits = 0;
  // returns a complaint: (kind 1: equal reference, different value; 2: different reference, equal value)
  int add(const FeatVal& r, u64 v, const std::string& where, std::string* what) {
    if (r.ambiguous) return 0;
    auto a = byVal[r.group].insert({r.v, {v, where}});
    if (!a.second && a.first->second.first != v) {
      *what = "values of " + a.first->second.second + " and " + where + " differ although all named features agree (" + r.v + ")";
      return 1;
    }
    auto b = byHash[r.group].insert({v, {r.v, where}});
    if (!b.second && b.first->second.first != r.v) {
      *what = "values of " + b.first->second.second + " and " + where + " are equal although the named features differ (" + b.first->second.first + " and " + r.v + ")";
      return 2;
    }
    return 0;
  }
  int classes() const {
    int n = 0;
    for (auto& g : byVal) n = std::max(n, (int)g.second.size());
    return n;
  }
};

std::string show(const std::vector<Strs>& v) {
  std::string r;
  for (auto& x : v) r += "[" + join(x, ", ") + "]";
  return r;
}

void body(Ctx& c, World& w, const std::string& s, bool text) {
  Model m;
  m.build(c, w, text);
  Weights wt;
  wt.v.assign(64, 0.f);
  Beams bm;
  bm.beam = 2;
  Engine e(c, m.core.get(), wt, bm);
  WOK(c, e.analyze(s), "analysis of " + quote(s));
  if (s.empty()) return;
  FeatureRef ref(c, w, m.rspec(), e.an.get(), s);
  RefScorer rs(*e.an, wt.v);
  auto L = e.an->lattice();
  int B = (int)L->createdBoundaryCount();
  // words that are on some route from the start
  std::vector<NodeId> ns;
  std::set<int> reach{2};
  std::map<int, std::vector<NodeId>> endAt;
  endAt[2].push_back({1, 0});
  for (int b = 2; b < B - 1; ++b) {
    if (!reach.count(b)) continue;
    for (int i = 0; i < (int)L->boundary(b)->localNodeCount(); ++i) {
      ns.push_back({b, i});
      int e2 = ref.nodes[ref.idx[{b, i}]].end + 2;
      reach.insert(e2);
      endAt[e2].push_back({b, i});
    }
  }
  auto where = [&](NodeId n) {
    if (n.b < 2) return std::string("BOS");
    if (n.b == B - 1) return std::string("EOS");
    auto& x = ref.nodes[ref.idx[n]];
    std::string t;
    for (int i = x.start; i < x.end; ++i) t += ref.text[i].s;
    return quote(t) + "@" + std::to_string(x.start) + "#" + std::to_string(n.i);
  };
  // stored pattern values (64 bit): the pattern of every n-gram position
  auto& spec = m.rspec();
  std::map<int, Strs> pats;
  std::vector<std::vector<Strs>> decl, have;  // in the order of the compiled n-grams
  for (auto& g : w.ngrams) decl.push_back(g.parts);
  for (auto& g : spec.features.ngram) {
    have.emplace_back();
    for (int r : g.references) {
      PCHECK(c, r >= 0 && r < (int)spec.features.pattern.size(), "pattern number out of range");
      Strs names;
      for (int x : spec.features.pattern[r].references) {
        PCHECK(c, x >= 0 && x < (int)spec.features.computation.size(), "feature number out of range");
        names.push_back(spec.features.computation[x].name);
      }
      have.back().insert(have.back().begin(), names);  // references start at the current word
      pats[r] = names;
    }
  }
  auto d2 = decl, h2 = have;
  std::sort(d2.begin(), d2.end());
  std::sort(h2.begin(), h2.end());
  PCHECK(c, d2 == h2, "the compiled n-gram features are not those that were declared:" << [&] { std::string r; for (auto& x : h2) r += " " + show(x); return r; }());
  std::string what;
  int classes = 0;
  std::map<NodeId, std::map<Strs, FeatVal>> memo;
  auto patternOf = [&](NodeId id, const Strs& names) -> const FeatVal& {
    auto& mm = memo[id];
    auto it = mm.find(names);
    if (it == mm.end()) it = mm.insert({names, ref.pattern(id, names)}).first;
    return it->second;
  };
  for (auto& p : pats) {
    Partition part;
    for (auto n : ns) {
      u64 v = L->boundary(n.b)->starts()->patternFeatureData().row(n.i).at(p.first);
      if (part.add(patternOf(n, p.second), v, where(n), &what)) c.fail("pattern [" + join(p.second, ", ") + "] in " + quote(s) + ": " + what, "pattern values");
    }
    classes = std::max(classes, part.classes());
  }
  // n-grams over neighbours and over arbitrary triples
  std::vector<std::array<NodeId, 3>> triples;
  NodeId bos0{0, 0}, bos1{1, 0}, eos{B - 1, 0};
  auto all = ns;
  all.push_back(eos);
  for (auto t0 : all)
    for (auto t1 : endAt[t0.b]) {
      if (t1 == bos1) {
        triples.push_back({{bos0, bos1, t0}});
        continue;
      }
      for (auto t2 : endAt[t1.b])
        if (triples.size() < 250) triples.push_back({{t2, t1, t0}});
    }
  auto left = ns;
  left.push_back(bos1);
  for (int i = 0; i < 120; ++i) {
    std::array<NodeId, 3> t{{c.pick(left), c.pick(left), c.pick(all)}};
    if (i > 0 && c.chance(1, 2)) {
      auto& o = triples[c.choose(triples.size())];
      int keep = c.range(1, 6);
      for (int k = 0; k < 3; ++k)
        if (keep >> k & 1) t[k] = o[k];
    }
    triples.push_back(t);
  }
  std::vector<std::vector<u32>> vals;
  for (auto& t : triples) vals.push_back(rs.feats(t[0], t[1], t[2]));
  int merges = 0;
  for (size_t i = 0; i < have.size(); ++i) {
    Partition part;
    auto& parts = have[i];
    int k = (int)parts.size();
    for (size_t x = 0; x < triples.size(); ++x) {
      auto& t = triples[x];
      FeatVal v;
      std::string wh;
      for (int j = 0; j < k; ++j) {
        NodeId id = t[3 - k + j];
        auto& pv = patternOf(id, parts[j]);
        v.v += "//" + pv.v;
        v.group += "//" + pv.group;
        v.ambiguous |= pv.ambiguous;
        wh += (j ? " " : "") + where(id);
      }
      int r = part.add(v, vals[x][i], "<" + wh + ">", &what);
      if (r == 1 || (r == 2 && ++merges > 1)) c.fail("n-gram " + show(parts) + " in " + quote(s) + ": " + what, "ngram values");
    }
    classes = std::max(classes, part.classes());
  }
  // every declared n-gram is read exactly once: the value of each is in the
  // scored set (A06 ties the score to these values)
  for (auto& f : w.features) {
    static const char* n[] = {"placeholder", "codepoint", "codepoint type", "codepoint count", "byte count", "match"};
    c.label(n[f.kind]);
    if (f.kind == Match) {
      c.label(f.thenF.empty() ? "match without branches" : "match with branches");
      c.label(w.fields[f.fields[0]].kind >= FList ? "match over list" : "match over tuple");
      int t = 0, n2 = 0;
      for (auto id : ns) {
        auto& nd = ref.nodes[ref.idx[id]];
        int row = ref.sourceRow(nd);
        c.labelIf(row < 0, "source row unknown");
        if (row >= 0) (ref.match(f, row) ? t : n2)++;
      }
      c.labelIf(t && n2, "match: both outcomes");
    }
  }
  c.nontrivial(classes >= 4);
}

void values(Ctx& c) {
  GenOpts o;
  o.maxRows = 16;
  World w = genWorld(c, o);
  std::string s = genSentence(c, w, 16);
  bool text = textable(w) && c.chance(1, 4);
  c.describe(w::show(w) + "sentence: " + s + (text ? " (text spec)" : ""));
  body(c, w, s, text);
}
// more condition features than fit one flag field
void flags(Ctx& c) {
  GenOpts o;
  o.maxRows = 20;
  o.minRows = 6;
  o.rich = c.chance(1, 2);
  o.wide = c.chance(1, 3);
  o.train = c.chance(1, 4);
  World w = genWorld(c, o);
  c.labelIf(o.wide, "12 to 14 fields");
  std::vector<int> strF;
  for (int i = 0; i < (int)w.fields.size(); ++i)
    if (w.fields[i].kind == FString) strF.push_back(i);
  int n = o.wide ? c.range(28, 50) : c.range(28, 70);
  Strs fresh;
  for (int i = 0; i < n; ++i) {
    WFeature f;
    f.name = "flag" + std::to_string(i);
    f.kind = Match;
    f.fields = {c.pick(strF)};
    int k = c.range(1, 2);
    for (int j = 0; j < k; ++j) {
      std::string v = w.cell((int)c.choose(w.rows.size()), f.fields[0]);
      if (v.empty() || v == w.fields[f.fields[0]].empty || v.find_first_of("\n,\"") != std::string::npos || v.size() > 50) v = "x";
      f.rows.push_back({v});
    }
    w.features.push_back(f);
    fresh.push_back(f.name);
  }
  // in declaration order, in single patterns and together
  for (auto& x : fresh) {
    WNgram g;
    g.parts = {{x}};
    if (c.chance(1, 4)) g.parts[0].push_back(c.pick(fresh));
    if (c.chance(1, 5)) g.parts.push_back({c.pick(fresh)});
    w.ngrams.push_back(g);
  }
  std::string s = genSentence(c, w, 8);
  c.describe(w::show(w) + "sentence: " + s);
  body(c, w, s, textable(w) && c.chance(1, 4));
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "A07";
  d.assumptions = {"64-bit pattern values do not collide; one collision of 32-bit n-gram values per case is tolerated",
                   "sentence boundaries, words carrying their own text and dictionary strings, and the two branches of a condition are compared only among themselves",
                   "whether a missing value satisfies a match is unspecified"};
  d.facets.push_back({"values", "some pattern or n-gram has at least four different values in one group", 12000, 200000, values});
  d.facets.push_back({"many-conditions", "some pattern or n-gram has at least four different values in one group", 800, 15000, flags});
  return pbt::runMain(argc, argv, d);
}
