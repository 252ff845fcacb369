// Partially annotated sentences for the checks of training.
#pragma once
#include "train.h"

namespace w {
struct Word {
  int start, len;
  std::vector<std::pair<int, std::string>> tags;  // field of the world, value
};
struct Ann {
  std::string text, comment, rendered;
  int n = 0;  // characters
  std::set<int> bounds, noBreak;  // character positions inside the text
  std::vector<Word> words;
  std::string bad;  // what is wrong with it
  bool none() const { return bounds.empty() && noBreak.empty() && words.empty(); }
};
inline bool lineSafe(const std::string& s) { return s.find_first_of(std::string("\t\n\r\0&", 5)) == std::string::npos; }
inline std::string nbName(char32_t t) { return w::u8(t); }

// lines: segmentation of the text into stretches; words have values
struct Seg {
  int start, end;
  bool word = false;
  std::vector<std::pair<int, std::string>> tags;
  std::set<int> nb;
};
inline Ann render(Ctx& c, const World& w, const Strs& ch, const std::vector<Seg>& segs, const std::string& nbTok, const char* eol) {
  Ann a;
  a.text = join(ch, "");
  a.n = (int)ch.size();
  auto comment = [&]() {
    a.comment = c.oneOf<std::string>({"x", "S-ID:1", u8"名 前", "a\tb", "# #", "&"});
    a.rendered += "# " + a.comment + eol;
  };
  if (c.chance(1, 4)) comment();
  if (c.chance(1, 20)) comment();  // the last comment counts
  for (auto& s : segs) {
    std::string sub;
    for (int i = s.start; i < s.end; ++i) sub += (s.nb.count(i) && !s.word ? nbTok : "") + ch[i];
    if (s.word) {
      a.rendered += "\t" + sub;
      Word x{s.start, s.end - s.start, s.tags};
      for (auto& t : s.tags) a.rendered += "\t" + w.fields[t.first].name + ":" + t.second;
      a.words.push_back(x);
      for (int i = s.start + 1; i < s.end; ++i) a.noBreak.insert(i);
    } else {
      a.rendered += sub;
      for (int i : s.nb) a.noBreak.insert(i);
    }
    a.rendered += eol;
    if (s.end < a.n) a.bounds.insert(s.end);
  }
  return a;
}
inline std::string tagValue(Ctx& c, const World& w, int f) {
  if (c.chance(1, 2)) return w.cell((int)c.choose(w.rows.size()), f);
  return c.oneOf<std::string>({"nosuchvalue", "x", "*", "", "y", "a:b"});
}
// a segmentation that follows nodes of the lattice (nodes by start) where it can
inline std::vector<Seg> genSegs(Ctx& c, const World& w, const Strs& ch, const std::vector<LNode>& nodes) {
  std::vector<Seg> r;
  int n = (int)ch.size(), at = 0;
  int density = c.weighted({2, 4, 3});
  while (at < n) {
    Seg s;
    s.start = at;
    std::vector<const LNode*> here;
    for (auto& x : nodes)
      if (x.start == at) here.push_back(&x);
    const LNode* node = nullptr;
    if (!here.empty() && c.chance(9, 10)) {
      node = c.pick(here);
      s.end = node->end;
    } else
      s.end = at + c.range(1, std::min(4, n - at));
    if (density && c.chance(density, 4)) {
      s.word = true;
      std::set<int> used;
      for (int k = c.weighted({2, 3, 2, 1}); k > 0; --k) {
        int f = c.pick(w.train).first;
        if (!used.insert(f).second) continue;
        std::string v;
        if (node && c.chance(7, 8)) {
          v = c.pick(node->entries)[f];
          if (v.empty() && !w.fields[f].empty.empty()) v = w.fields[f].empty;
        } else
          v = tagValue(c, w, f);
        if (lineSafe(v)) s.tags.push_back({f, v});
      }
    } else {
      // plain text: continue over further words
      while (s.end < n && c.chance(2, 3)) s.end += std::min(c.range(1, 4), n - s.end);
      for (int i = s.start + 1; i < s.end; ++i)
        if (c.chance(density, 6)) s.nb.insert(i);
    }
    r.push_back(s);
    at = s.end;
  }
  return r;
}
// does the annotation allow the span / the node
inline bool spanOk(const Ann& a, int s, int e) {
  if (a.noBreak.count(s) || a.noBreak.count(e)) return false;
  for (int b : a.bounds)
    if (b > s && b < e) return false;
  return true;
}
inline const Word* wordAt(const Ann& a, int s) {
  for (auto& x : a.words)
    if (x.start == s) return &x;
  return nullptr;
}
inline bool entryOk(const World& w, const Word& x, const Strs& e) {
  for (auto& t : x.tags) {
    std::string v = t.second == w.fields[t.first].empty ? "" : t.second;
    if (e[t.first] != v) return false;
  }
  return true;
}
// 0 not ok, 1 ok, 2 depends on which of the homographs is meant
inline int nodeOk(const World& w, const Ann& a, const LNode& n, bool tags) {
  if (!spanOk(a, n.start, n.end)) return 0;
  auto x = wordAt(a, n.start);
  if (!x) return 1;
  if (n.end - n.start != x->len) return 0;
  if (!tags) return 1;
  if (entryOk(w, *x, n.first)) return 1;
  for (auto& e : n.entries)
    if (entryOk(w, *x, e)) return 2;
  return 0;
}
inline bool feasible(const World& w, const Ann& a, const std::vector<LNode>& nodes, bool tags) {
  std::vector<char> r(a.n + 1, 0);
  r[0] = 1;
  for (int p = 0; p < a.n; ++p) {
    if (!r[p]) continue;
    for (auto& x : nodes)
      if (x.start == p && nodeOk(w, a, x, tags) == 1) r[x.end] = 1;
  }
  return r[a.n] != 0;
}
inline std::string describeAnn(const Ann& a) {
  std::string s = "text " + quote(a.text) + " boundaries";
  for (int b : a.bounds) s += " " + std::to_string(b);
  s += " unbroken";
  for (int b : a.noBreak) s += " " + std::to_string(b);
  for (auto& x : a.words) s += " word " + std::to_string(x.start) + "+" + std::to_string(x.len);
  return s;
}
}  // namespace w
