// Reference evaluation of the declared features of a lattice word, from the
// specification, the dictionary rows and the text only.
#pragma once
#include "scoring.h"
#include "unkmodel.h"

namespace w {
struct FeatVal {
  std::string v;      // textual value; equal text <=> equal value
  std::string group;  // occurrences are only compared within one group
  bool ambiguous = false;
};
struct FeatureRef {
  const World& w;
  const sp::AnalysisSpec& spec;
  Analyzer* a;
  std::vector<Chr> text;
  std::vector<LNode> nodes;
  std::map<NodeId, int> idx;
  std::vector<Group> G;
  std::vector<char> ambMatch;
  std::map<std::pair<int, int>, std::string> rowMatch;

  FeatureRef(Ctx& c, const World& world, const sp::AnalysisSpec& sp_, Analyzer* an_, const std::string& s) : w(world), spec(sp_), a(an_), text(chrs(s)) {
    nodes = latticeNodes(c, w, *a);
    for (int i = 0; i < (int)nodes.size(); ++i) idx[{nodes[i].boundary, nodes[i].pos}] = i;
    G = groups(w);
    for (auto& g : G) gEntries.push_back(expectEntries(w, g));
    for (auto& f : w.features) {
      bool amb = false;
      // whether an absent value "matches" is not specified
      if (f.kind == Match)
        for (auto& r : f.rows)
          for (size_t i = 0; i < r.size(); ++i) amb = amb || r[i].empty() || r[i] == w.fields[f.fields[i < f.fields.size() ? i : 0]].empty;
      ambMatch.push_back(amb);
    }
  }
  int dicIndex(int f) const {
    for (auto& x : spec.dictionary.fields)
      if (x.name == w.fields[f].name) return x.dicIndex;
    return -1;
  }
  // the source row whose values a word carries
  mutable std::map<NodeId, int> rowMemo;
  std::vector<std::vector<Strs>> gEntries;
  int sourceRow(const LNode& n) const {
    auto it = rowMemo.find({n.boundary, n.pos});
    if (it == rowMemo.end()) it = rowMemo.insert({{n.boundary, n.pos}, findRow(n)}).first;
    return it->second;
  }
  int findRow(const LNode& n) const {
    auto& an = *a;
    std::string surf;
    for (int i = n.start; i < n.end; ++i) surf += text[i].s;
    auto ents = n.entries;
    std::sort(ents.begin(), ents.end());
    if (!n.unk()) {
      for (size_t gi = 0; gi < G.size(); ++gi)
        if (G[gi].surface == surf && gEntries[gi] == ents) return G[gi].rows[0];
      return -1;
    }
    auto node = an.extraNodesContext()->node(n.eptr);
    // rules that copy a template have its entry; normalised words the dictionary's
    auto tp = node->header.unk.templatePtr;
    for (size_t u = 0; u < w.unks.size(); ++u)
      if (w.unks[u].kind != Normalize && spec.unkCreators[u].patternPtr == tp.rawValue()) return w.unks[u].row - 1;
    // the word it was normalised to; when several fit they must have one row
    int found = -1;
    for (auto& u : w.unks) {
      if (u.kind != Normalize) continue;
      for (size_t gi = 0; gi < G.size(); ++gi) {
        auto want = gEntries[gi];
        for (auto& e : want)
          for (int f : u.surfaceTo) e[f] = surf;
        std::sort(want.begin(), want.end());
        if (want != ents || found == G[gi].rows[0]) continue;
        if (found >= 0) return -1;
        found = G[gi].rows[0];
      }
    }
    return found;
  }
  bool match(const WFeature& f, int row) const {
    if (w.fields[f.fields[0]].kind >= FList) {
      auto& F = w.fields[f.fields[0]];
      std::set<std::string> want;
      for (auto& r : f.rows) want.insert(r[0]);
      for (auto x : split(w.cell(row, f.fields[0]), F.kind == FKv ? F.listSep : " ")) {
        if (F.kind == FKv && x.find(F.kvSep) != std::string::npos) x = x.substr(0, x.find(F.kvSep));
        if (want.count(x)) return true;
      }
      return false;
    }
    for (auto& r : f.rows) {
      bool ok = true;
      for (size_t i = 0; i < f.fields.size(); ++i) ok = ok && r[i] == w.cell(row, f.fields[i]);
      if (ok) return true;
    }
    return false;
  }
  void field(const LNode& n, int f, FeatVal* o) const {
    o->v += "|" + n.first[f];
    if (w.fields[f].kind == FString && n.unk()) {
      auto row = a->lattice()->boundary(n.boundary)->starts()->entryData().row(n.pos);
      o->group += row.at(dicIndex(f)) < 0 ? "u" : "d";  // the text itself or a dictionary string
    } else
      o->group += "d";
  }
  FeatVal value(const LNode& n, const std::string& name) const {
    FeatVal o;
    int fi = w.fieldIdx(name);
    if (fi >= 0) {
      field(n, fi, &o);
      return o;
    }
    int x = w.featIdx(name);
    auto& f = w.features[x];
    switch (f.kind) {
      case Placeholder: {
        int v = n.unk() ? a->output().valueOfUnkPlaceholder(n.eptr, placeholderIdx(spec, name)) : 0;
        o.v = std::to_string(v);
        break;
      }
      case Codepoint: {
        int p = f.arg > 0 ? n.end + f.arg - 1 : n.start + f.arg;
        o.v = p < 0 || p >= (int)text.size() ? "none" : text[p].s;
        break;
      }
      case CodepointType: {
        int v = 0;
        if (f.arg == 0)
          for (int i = n.start; i < n.end; ++i) v |= text[i].cls;
        else {
          int p = f.arg > 0 ? n.end + f.arg - 1 : n.start + f.arg;
          if (p >= 0 && p < (int)text.size()) v = text[p].cls;
        }
        o.v = std::to_string(v);
        break;
      }
      case NumCodepoints:
        if (f.fields[0] == w.trieField())
          o.v = std::to_string(n.end - n.start);
        else
          o.v = std::to_string(cps(n.first[f.fields[0]]).size());
        break;
      case NumBytes: o.v = std::to_string(n.first[f.fields[0]].size()); break;
      case Match: {
        if (ambMatch[x]) o.ambiguous = true;
        int row = sourceRow(n);
        if (row < 0) {
          o.ambiguous = true;
          break;
        }
        bool m = match(f, row);
        if (f.thenF.empty())
          o.v = m ? "1" : "0";
        else {
          o.group += m ? "T" : "F";
          for (int y : m ? f.thenF : f.elseF) field(n, y, &o);
        }
        break;
      }
    }
    return o;
  }
  FeatVal pattern(NodeId id, const Strs& names) const {
    FeatVal r;
    auto it = idx.find(id);
    if (it == idx.end()) {  // sentence boundary
      r.group = id.b < 2 ? "B" : "E";
      return r;
    }
    for (auto& n : names) {
      auto v = value(nodes[it->second], n);
      r.v += "&" + v.v;
      r.group += "&" + v.group;
      r.ambiguous |= v.ambiguous;
    }
    return r;
  }
};
}  // namespace w
