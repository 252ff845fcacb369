// A05: unknown-word candidates are exactly those the declared rules call for
#include "unkmodel.h"
using namespace w;

namespace {
// alphabets that make the rules fire: reduplication, numbers, normalisation
Strs ruleAlphabet(Ctx& c, int* theme) {
  *theme = c.weighted({3, 4, 4, 3});
  Strs r;
  auto add = [&](const Strs& p, int n) {
    for (int i = 0; i < n; ++i) {
      auto& x = c.pick(p);
      if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x);
    }
  };
  switch (*theme) {
    case 0:
      add(cps(c.oneOf<std::string>({u8"ほげにゃ", u8"ホゲニャー", u8"ﾎｹﾞﾆ", "abc", u8"一二三", u8"漢字"})), c.range(1, 3));
      if (c.chance(1, 3)) add(cps(u8"ホほaAー。漢"), c.range(1, 2));
      break;
    case 1:
      add(cps(u8"0１23一二十百千万億"), c.range(1, 3));
      add(cps(u8"，,．.・/：数何幾"), c.range(1, 3));
      if (c.chance(1, 3)) add(cps(u8"人a。キロ分の"), c.range(1, 2));
      break;
    case 2:
      add(cps(u8"ーっッ〜ぁぃぅぇぉゎヶケ"), c.range(1, 3));
      add(cps(u8"かあいねえめれだたわけおう痛ケ"), c.range(1, 4));
      if (c.chance(1, 2)) add(cps(u8"カアメ。a1・々 「"), 1);
      break;
    case 3:
      r = genAlphabet(c);
      break;
  }
  return r;
}

void rules(Ctx& c) {
  GenOpts o;
  o.fallback = !c.chance(1, 4);
  o.train = c.chance(1, 5);
  o.maxRows = 10;
  int theme;
  o.alphabet = ruleAlphabet(c, &theme);
  o.unkKind = theme == 0 && c.chance(2, 3) ? (int)Onoma : theme == 1 && c.chance(2, 3) ? (int)Numeric : theme == 2 && c.chance(4, 5) ? (int)Normalize : -1;
  World w = genWorld(c, o);
  std::string s = genSentence(c, w);
  if (theme == 1) {  // glue in number notations
    int k = c.range(0, 3);
    auto cs = cps(s);
    for (int i = 0; i < k; ++i)
      cs.insert(cs.begin() + c.choose(cs.size() + 1), c.oneOf<std::string>({u8"分の", u8"ぶんの", u8"キロ", u8"メガ", u8"ミリ", u8"，０００", ",000", u8"数", u8"何百", u8"．５", "1.5", "12", u8"テラ", u8"ギガ", u8"，1000", u8"幾千", u8"１／２"}));
    s = join(cs, "");
    if (c.chance(1, 12)) {
      std::string run;
      int n = c.range(55, 75);
      for (int i = 0; i < n; ++i) run += c.oneOf<std::string>({"1", "2", u8"３"});
      s = run + s;
    }
  }
  if (theme == 2 && !w.words.empty() && c.chance(3, 4)) {  // decorated dictionary words
    int k = c.range(1, 3);
    for (int i = 0; i < k; ++i) {
      auto cs = cps(c.pick(w.words));
      int d = c.range(1, 3);
      for (int j = 0; j < d; ++j) {
        auto x = c.oneOf<std::string>({u8"ー", u8"〜", u8"っ", u8"ッ", u8"ぁ", u8"ぇ", u8"ーー", u8"っー", u8"ぃ", u8"ぅ"});
        size_t p = c.choose(cs.size() + 1);
        if (c.chance(1, 3) && p > 0 && p < cs.size())
          cs[p] = x;
        else
          cs.insert(cs.begin() + p, x);
      }
      s += join(cs, "");
    }
  }
  c.describe(show(w) + "sentence: " + s);
  Model m;
  m.build(c, w);
  Engine e(c, m.core.get(), Weights(), Beams());
  auto P = predictUnk(w, s);
  Status st = e.lattice(s);
  if (!P.analysable) {
    PCHECK(c, !st, "a sentence no rule or word covers is accepted: " << quote(s));
    c.label("not coverable");
    c.nontrivial();
    return;
  }
  if (!st) c.fail("lattice for " + quote(s) + ": " + msg(st));
  if (s.empty()) return;

  typedef std::pair<std::pair<int, int>, std::string> Key;
  std::map<Key, std::vector<const Cand*>> want;
  std::map<Key, std::vector<std::vector<int>>> have;
  for (auto& x : P.cands) want[{{x.start, x.end}, str(x.entries)}].push_back(&x);
  auto om = e.an->output();
  int nph = m.rspec().features.numPlaceholders;
  auto nodes = latticeNodes(c, w, *e.an);
  auto cs = cps(s);
  for (auto& n : nodes) {
    if (!n.unk()) continue;
    std::sort(n.entries.begin(), n.entries.end());
    std::vector<int> ph;
    for (int i = 0; i < nph; ++i) ph.push_back(om.valueOfUnkPlaceholder(n.eptr, i));
    have[{{n.start, n.end}, str(n.entries)}].push_back(ph);
    std::string surf;
    for (int i = n.start; i < n.end; ++i) surf += cs[i];
    PCHECK(c, e.an->extraNodesContext()->node(n.eptr)->header.unk.surface.str() == surf, "surface of an unknown word differs from the text it covers");
  }
  auto desc = [&](const Key& k) { return std::to_string(k.first.first) + "-" + std::to_string(k.first.second) + " " + k.second; };
  for (auto& x : want) {
    size_t must = 0;
    for (auto y : x.second) must += !y->optional;
    PCHECK(c, have[x.first].size() >= must, "missing unknown-word candidate " << desc(x.first) << " by rule " << w.unks[x.second[0]->rule].name << " in " << quote(s) << ": expected " << x.second.size() << ", found " << have[x.first].size());
  }
  for (auto& x : have)
    PCHECK(c, want[x.first].size() >= x.second.size(), "unexpected unknown-word candidate " << desc(x.first) << " in " << quote(s) << ": expected " << want[x.first].size() << ", found " << x.second.size());
  // placeholders: match every node with one candidate
  int norm = 0, num = 0, ono = 0, comp = 0;
  for (auto& x : want) {
    auto& W = x.second;
    auto& H = have[x.first];
    std::vector<std::vector<char>> ok(W.size(), std::vector<char>(H.size()));
    for (size_t i = 0; i < W.size(); ++i) {
      auto& u = w.unks[W[i]->rule];
      norm += u.kind == Normalize;
      num += u.kind == Numeric && W[i]->end - W[i]->start > 1;
      ono += u.kind == Onoma;
      comp += u.kind == Normalize && W[i]->ph.size() > 1;
      int t = u.featureTo.empty() ? -1 : placeholderIdx(m.rspec(), u.featureTo);
      PCHECK(c, u.featureTo.empty() || t >= 0, "placeholder " << u.featureTo << " is not in the compiled specification");
      for (size_t j = 0; j < H.size(); ++j) {
        bool good = true;
        for (int k = 0; k < nph; ++k) good = good && (k == t ? W[i]->ph.count(H[j][k]) > 0 : H[j][k] == 0);
        ok[i][j] = good;
      }
    }
    std::vector<int> to(H.size(), -1);
    std::function<bool(int, std::vector<char>&)> aug = [&](int i, std::vector<char>& seen) {
      for (size_t j = 0; j < H.size(); ++j)
        if (ok[i][j] && !seen[j]) {
          seen[j] = 1;
          if (to[j] < 0 || aug(to[j], seen)) {
            to[j] = i;
            return true;
          }
        }
      return false;
    };
    for (size_t i = 0; i < W.size(); ++i) {
      std::vector<char> seen(H.size());
      if (W[i]->optional) continue;
      if (!aug((int)i, seen)) {
        std::ostringstream d;
        for (auto& h : H) {
          d << " (";
          for (int v : h) d << " " << v;
          d << " )";
        }
        c.fail("placeholder values of the unknown word " + desc(x.first) + " in " + quote(s) + " by rule " + w.unks[W[i]->rule].name + ": expected " + std::to_string(*W[i]->ph.begin()) + ", have" + d.str());
      }
    }
  }
  c.labelIf(norm > 0, "normalised words");
  c.labelIf(comp > 0, "several derivations");
  c.labelIf(num > 0, "numbers of several characters");
  c.labelIf(ono > 0, "onomatopoeia");
  c.labelIf(P.stage2, "low-priority rules used");
  bool anyLow = false;
  for (auto& u : w.unks) anyLow |= u.low;
  c.labelIf(anyLow && !P.stage2, "low-priority rules not needed");
  c.labelIf(P.cands.empty(), "no candidates");
  c.nontrivial(P.cands.size() >= 3);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "A05";
  d.assumptions = {"character classes of single code points are those of the library (checked by U03)",
                   "where several normalisations lead to one word, any of their flag sets is accepted",
                   "template rows are not dictionary words"};
  d.facets.push_back({"rules", "the rules call for at least three candidates, or the sentence cannot be covered", 30000, 500000, rules});
  return pbt::runMain(argc, argv, d);
}
