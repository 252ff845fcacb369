// Reference model of the unknown-word rules, written from docs/spec.md and the
// rule descriptions; works on code points and a plain set of words.
#pragma once
#include "util/characters.h"
#include "world.h"

namespace w {
// entries merged in one node: rows of one surface that agree in all alias fields
struct Group {
  std::string surface;
  std::vector<int> rows;
};
inline std::vector<Group> groups(const World& w) {
  std::vector<Group> r;
  std::map<std::pair<std::string, Strs>, int> idx;
  auto as = w.aliasSet();
  int T = w.trieField();
  for (int i = 0; i < (int)w.rows.size(); ++i) {
    if (w.isTemplate(i)) continue;
    Strs key;
    for (int f : as) key.push_back(expectCell(w.fields[f], w.cell(i, f)));
    auto k = std::make_pair(w.cell(i, T), key);
    auto it = idx.find(k);
    if (it == idx.end()) {
      idx[k] = (int)r.size();
      r.push_back({w.cell(i, T), {i}});
    } else
      r[it->second].rows.push_back(i);
  }
  return r;
}
// what must be enumerated for a node: shared fields come from any of the rows
// (they agree), the other feature fields from the first row, data fields per row
inline std::vector<Strs> expectEntries(const World& w, const Group& g) {
  std::vector<Strs> r;
  auto ff = w.featureFields();
  for (int row : g.rows) {
    Strs e;
    for (int f = 0; f < (int)w.fields.size(); ++f) {
      bool shared = ff.count(f) > 0;
      e.push_back(expectCell(w.fields[f], w.cell(shared ? g.rows[0] : row, f)));
    }
    r.push_back(e);
  }
  std::sort(r.begin(), r.end());
  return r;
}
inline std::string str(const std::vector<Strs>& v) {
  std::string r;
  for (auto& e : v) r += "<" + join(e, ",") + ">";
  return r;
}

struct Chr {
  char32_t cp;
  int cls;
  std::string s;
  bool is(int c) const { return (cls & c) != 0; }
};
inline std::vector<Chr> chrs(const std::string& s) {
  std::vector<Chr> r;
  auto u = toU32(s);
  auto c = cps(s);
  for (size_t i = 0; i < u.size(); ++i) r.push_back({u[i], (int)chars::getCodeType(u[i]), c[i]});
  return r;
}

struct Words {  // plain dictionary of surfaces
  std::set<std::string> all, prefixes;
  explicit Words(const std::set<std::string>& v) : all(v) {
    for (auto& s : all)
      for (size_t i = 1; i <= s.size(); ++i) prefixes.insert(s.substr(0, i));
  }
  bool word(const std::string& s) const { return all.count(s) > 0; }
  bool prefix(const std::string& s) const { return prefixes.count(s) > 0; }
};

struct Cand {
  int start, end;
  int rule;
  std::string surface;
  std::vector<Strs> entries;   // expected field values (sorted)
  std::set<int> ph;            // accepted values of the target placeholder
  int group = -1;              // normalized word
  bool optional = false;       // unspecified whether it is generated
};

typedef std::map<int, std::set<int>> Norm;  // unused alias kept small

// ---- numbers
struct NumModel {
  const std::vector<Chr>& t;
  int cls;
  int n() const { return (int)t.size(); }
  bool at(int p, const std::u32string& x) const {
    if (p + (int)x.size() > n()) return false;
    for (size_t i = 0; i < x.size(); ++i)
      if (t[p + i].cp != x[i]) return false;
    return true;
  }
  int suffix(int s, int p) const {  // number units
    if (p <= s || p > n() || !t[p - 1].is(classValue("FAMILY_EXCEPTION"))) return 0;
    for (auto x : {U"キロ", U"メガ", U"ギガ", U"テラ", U"ミリ"})
      if (at(p, x)) return 2;
    return 0;
  }
  int prefix(int s, int p) const {  // 数十 何百 幾つもの...
    if (!(t[p].cp == U'数' || t[p].cp == U'何' || t[p].cp == U'幾')) return 0;
    int k = suffix(s, p + 1);
    if (p + 1 < n() && (t[p + 1].is(classValue("FIGURE_DIGIT")) || k > 0)) return 1 + k;
    return 0;
  }
  int interfix(int s, int p) const {  // fractions
    if (p <= s || !t[p - 1].is(cls)) return 0;
    for (std::u32string x : {U"ぶんの", U"分の"})
      if (at(p, x) && p + (int)x.size() < n() && t[p + x.size()].is(cls)) return (int)x.size();
    return 0;
  }
  int comma(int s, int p) const {
    if (p <= s || !t[p].is(classValue("COMMA"))) return 0;
    int k = 0;
    while (p + 1 + k < n() && t[p + 1 + k].is(classValue("FIGURE"))) ++k;
    return k == 3 ? 1 : 0;
  }
  int period(int s, int p) const {
    if (p <= s || !t[p].is(classValue("FAMILY_NUM_PERIOD"))) return 0;
    return t[p - 1].is(cls) && p + 1 < n() && t[p + 1].is(cls) ? 1 : 0;
  }
  int longest(int s) const {
    int p = s;
    while (p < n() && p - s <= 64) {
      if (t[p].is(cls)) {
        ++p;
        continue;
      }
      int k = prefix(s, p);
      if (!k) k = interfix(s, p);
      if (!k) k = suffix(s, p);
      if (!k) k = comma(s, p);
      if (!k) k = period(s, p);
      if (!k) break;
      p += k;
    }
    return p - s;
  }
};

// ---- normalisation
enum NFlag { NSmall = 2, NReplace = 4, NDelete = 8, NRProlong = 16, NDLast = 32, NDProlong = 64, NDHatsu = 128, NDSmall = 256, NRErow = 512 };
struct NormModel {
  const std::vector<Chr>& t;
  struct Alt {
    std::string s;  // empty: deletion
    int flags;
  };
  std::vector<std::vector<Alt>> alts;
  static std::map<char32_t, std::string> mk(const char* from, const char* to) {
    std::map<char32_t, std::string> r;
    auto a = toU32(from);
    auto b = cps(to);
    for (size_t i = 0; i < a.size(); ++i) r[a[i]] = b[i];
    return r;
  }
  explicit NormModel(const std::vector<Chr>& text) : t(text) {
    static const auto small = mk(u8"ぁぃぅぇぉゎヶケ", u8"あいうえおわケヶ");
    static const auto prol = mk(u8"かがばまゃいきしちにひじけせへめれげぜでべぺくすつふゆぐずぷゅおこそとのほもよろごぞどぼぽょえね",
                                u8"あああああいいいいいいいいいいいいいいいいいうううううううううううううううううううううううういい");
    static const auto erow = mk(u8"えけげせぜてでねへべめれ", u8"ええええええええええええ");
    // vowel following a kana may be dropped as a small one; a later pair of the
    // same kana does not replace an earlier one
    static const auto drop = [] {
      std::map<char32_t, char32_t> r;
      auto a = toU32(u8"かさたなはまやらわがざだばぱいしにりぎじねれぜうくすふむるよけせてめれぜでこそのもよろぞど");
      auto b = toU32(u8"ぁぁぁぁぁぁぁぁぁぁぁぁぁぁぃぃぃぃぃぃぃぃぃぅぅぅぅぅぅぅぇぇぇぇぇぇぇぉぉぉぉぉぉぉぉ");
      for (size_t i = 0; i < a.size(); ++i) r.insert({a[i], b[i]});
      return r;
    }();
    int n = (int)t.size();
    alts.resize(n);
    bool prevDel = false;
    for (int p = 0; p < n; ++p) {
      bool del = false;
      auto& c = t[p];
      if (c.is(classValue("FAMILY_DOUBLE"))) {
        bool choon = c.is(classValue("CHOON"));
        if (choon && p > 0 && prol.count(t[p - 1].cp)) {
          alts[p].push_back({prol.at(t[p - 1].cp), NReplace | NRProlong});
          if (erow.count(t[p - 1].cp)) alts[p].push_back({erow.at(t[p - 1].cp), NReplace | NRProlong | NRErow});
        } else if (small.count(c.cp))
          alts[p].push_back({small.at(c.cp), NReplace | NSmall});
        if (p > 0) {
          auto& q = t[p - 1];
          int f = 0;
          bool tsu = c.cp == U'っ' || c.cp == U'ッ';
          if (choon && (prevDel || q.is(classValue("FAMILY_PROLONGABLE"))))
            f = NDProlong;
          else if (tsu && hatsuon(p, prevDel))
            f = NDHatsu;
          else {
            auto it = drop.find(q.cp);
            if (it != drop.end() && it->second == c.cp) f = NDSmall;
            bool smallVowel = std::u32string(U"ぁぃぅぇぉ").find(c.cp) != std::u32string::npos;
            if (prevDel && smallVowel && c.cp == q.cp) f = NDSmall;
          }
          if (f) {
            alts[p].push_back({"", NDelete | f});
            del = true;
          }
        }
      }
      prevDel = del;
    }
  }
  bool hatsuon(int p, bool prevDel) const {
    if (prevDel || p + 1 >= (int)t.size()) return true;
    auto& x = t[p + 1];
    static const int stops = classValue("SPACE") | classValue("IDEOGRAPHIC_PUNC") | classValue("FIGURE") | classValue("PERIOD") | classValue("MIDDLE_DOT") |
                             classValue("ALPH") | classValue("SYMBOL") | classValue("BRACKET") | classValue("SLASH") | classValue("COLON") | classValue("COMMA");
    if (x.is(stops) || x.cp == t[p].cp) return true;
    return ((x.cls & t[p - 1].cls & t[p].cls) & classValue("FAMILY_FULL_KANA")) != 0;
  }
  // (end, dictionary word) -> flag sets of all derivations
  std::map<std::pair<int, std::string>, std::set<int>> from(int s, const Words& d) const {
    std::map<std::pair<int, std::string>, std::set<int>> r;
    std::set<std::pair<std::string, int>> st;
    if (!d.prefix(t[s].s)) return r;
    st.insert({t[s].s, 0});
    for (int p = s + 1; p < (int)t.size() && !st.empty(); ++p) {
      std::set<std::pair<std::string, int>> nx;
      auto go = [&](const std::string& x, int fl, bool delLast) {
        if (!d.prefix(x)) return;
        nx.insert({x, fl});
        if (fl && d.word(x)) r[{p + 1, x}].insert(fl | (delLast ? NDLast : 0) | 1);
      };
      for (auto& e : st) {
        go(e.first + t[p].s, e.second, false);
        for (auto& a : alts[p]) go(e.first + a.s, e.second | a.flags, a.s.empty());
      }
      st.swap(nx);
    }
    return r;
  }
};

// all candidates of the rules of one stage (low: the rules consulted only for gaps)
inline std::vector<Cand> unkCands(const World& w, const std::string& s, bool low) {
  std::vector<Cand> r;
  auto t = chrs(s);
  int n = (int)t.size();
  auto G = groups(w);
  std::set<std::string> ws;
  for (auto& g : G) ws.insert(g.surface);
  Words d(ws);
  auto ff = w.featureFields();
  auto sub = [&](int a, int b) {
    std::string x;
    for (int i = a; i < b; ++i) x += t[i].s;
    return x;
  };
  for (int ui = 0; ui < (int)w.unks.size(); ++ui) {
    auto& u = w.unks[ui];
    if (u.low != low) continue;
    auto tmpl = [&](const std::string& surf) {
      Strs e;
      for (int f = 0; f < (int)w.fields.size(); ++f) {
        bool repl = std::find(u.surfaceTo.begin(), u.surfaceTo.end(), f) != u.surfaceTo.end();
        e.push_back(repl ? surf : expectCell(w.fields[f], w.cell(u.row - 1, f)));
      }
      return e;
    };
    auto add = [&](int a, int b) {
      std::string x = sub(a, b);
      r.push_back({a, b, ui, x, {tmpl(x)}, {d.prefix(x) ? 0 : 1}});
    };
    switch (u.kind) {
      case Single:
        for (int i = 0; i < n; ++i)
          if (t[i].is(u.cls) && !d.word(t[i].s)) add(i, i + 1);
        break;
      case Chunking:
        for (int i = 0; i < n; ++i)
          for (int j = i; j < n && t[j].is(u.cls); ++j)
            if (!d.word(sub(i, j + 1))) add(i, j + 1);
        break;
      case Onoma:
        for (int i = 0; i < n; ++i) {
          if (!t[i].is(u.cls)) continue;
          for (int h = 2; h <= 4 && i + 2 * h <= n; ++h) {
            // the characters that start the halves and the second one share a class with the first
            bool ok = t[i + 1].is(t[i].cls);
            for (int k = 2; k <= h; ++k) ok = ok && t[i + k].is(t[i].cls);
            for (int k = 0; k < h; ++k) ok = ok && t[i + k].cp == t[i + h + k].cp;
            if (ok && !d.word(sub(i, i + 2 * h))) add(i, i + 2 * h);
          }
        }
        break;
      case Numeric: {
        NumModel m{t, u.cls};
        for (int i = 0; i < n; ++i) {
          int len = m.longest(i);
          if (len == 0) continue;
          std::string x = sub(i, i + len);
          bool same = false;  // a dictionary word of that surface with the template's values
          for (auto& g : G) {
            if (g.surface != x) continue;
            bool eq = true;
            for (int f : ff)
              if (std::find(u.surfaceTo.begin(), u.surfaceTo.end(), f) == u.surfaceTo.end())
                eq = eq && expectCell(w.fields[f], w.cell(g.rows[0], f)) == expectCell(w.fields[f], w.cell(u.row - 1, f));
            same = same || eq;
          }
          if (same) {
            // computed match features are node values, too: whether they take
            // part in the comparison is not specified
            bool match = false;
            for (auto& f : w.features) match |= f.kind == Match;
            if (match) {
              add(i, i + len);
              r.back().optional = true;
            }
          } else
            add(i, i + len);
        }
        break;
      }
      case Normalize: {
        NormModel m(t);
        for (int i = 0; i < n; ++i)
          for (auto& x : m.from(i, d))
            for (size_t g = 0; g < G.size(); ++g)
              if (G[g].surface == x.first.second) {
                Cand c{i, x.first.first, ui, sub(i, x.first.first), {}, x.second, (int)g};
                c.entries = expectEntries(w, G[g]);
                for (auto& e : c.entries)
                  for (int f : u.surfaceTo) e[f] = c.surface;
                std::sort(c.entries.begin(), c.entries.end());
                r.push_back(c);
              }
        break;
      }
    }
  }
  return r;
}
// dictionary spans
inline std::vector<std::pair<int, int>> dicSpans(const World& w, const std::string& s) {
  std::vector<std::pair<int, int>> r;
  auto c = cps(s);
  std::set<std::string> ws;
  for (auto& g : groups(w)) ws.insert(g.surface);
  for (size_t i = 0; i < c.size(); ++i) {
    std::string x;
    for (size_t j = i; j < c.size(); ++j) {
      x += c[j];
      if (ws.count(x)) r.push_back({(int)i, (int)j + 1});
    }
  }
  return r;
}
inline bool connected(const std::vector<std::pair<int, int>>& spans, int n) {
  std::vector<char> ok(n + 1);
  ok[0] = 1;
  for (int i = 0; i < n; ++i)
    if (ok[i])
      for (auto& s : spans)
        if (s.first == i) ok[s.second] = 1;
  return ok[n] != 0;
}
struct UnkPrediction {
  std::vector<Cand> cands;
  bool stage2 = false, analysable = false;
};
inline UnkPrediction predictUnk(const World& w, const std::string& s) {
  UnkPrediction p;
  p.cands = unkCands(w, s, false);
  auto spans = dicSpans(w, s);
  int n = (int)cps(s).size();
  for (auto& c : p.cands)
    spans.push_back({c.start, c.end});
  p.analysable = connected(spans, n);
  if (!p.analysable) {
    p.stage2 = true;
    for (auto& c : unkCands(w, s, true)) {
      p.cands.push_back(c);
      spans.push_back({c.start, c.end});
    }
    p.analysable = connected(spans, n);
  }
  return p;
}
// index of a declared placeholder feature in the node data
inline int placeholderIdx(const sp::AnalysisSpec& s, const std::string& name) {
  for (auto& f : s.features.primitive)
    if (f.name == name) return f.references[0];
  return -1;
}
}  // namespace w
