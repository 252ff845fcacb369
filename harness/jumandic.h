// Jumandic dictionaries, models and sentences; an independent description of what the output formats print
#pragma once
#include "core/analysis/analyzer.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/charlattice.h"
#include "jumandic/shared/jumandic_env.h"
#include "jumandic/shared/jumandic_ids.h"
#include "jumandic/shared/jumandic_spec.h"
#include "world.h"

namespace jd {
using namespace w;
namespace jm = jumanpp::jumandic;

// surface pos subpos conjform conjtype baseform reading canonic features
struct Row {
  std::string surface, pos = "*", subpos = "*", conjform = "*", conjtype = "*", baseform, reading, canonic = "*";
  std::vector<std::pair<std::string, std::string>> feats;  // value "\x01" = no value
  std::string key() const { return join({surface, reading, baseform, pos, subpos, conjtype, conjform}, "\x02"); }
};
static const char* const kNoValue = "\x01";
inline std::string featText(const std::pair<std::string, std::string>& f) {
  return f.second == kNoValue ? f.first : f.first + ":" + f.second;
}
inline std::string featCell(const Row& r) {
  if (r.feats.empty()) return "NIL";
  Strs v;
  for (auto& f : r.feats) v.push_back(featText(f));
  return join(v, " ");
}
inline Strs cells(const Row& r) {
  return {r.surface, "0", "0", "0", r.pos, r.subpos, r.conjform, r.conjtype, r.baseform, r.reading, r.canonic, featCell(r)};
}
inline std::string csv(const std::vector<Row>& rows) {
  std::string s;
  for (auto& r : rows) s += csvRow(cells(r)) + "\n";
  return s;
}

struct JOpts {
  int maxRows = 25;
  bool odd = true;        // commas, quotes, blanks and similar in the words
  bool newlines = false;  // line ends inside cells
  bool feats = true;
};

inline std::string str(StringPiece s) { return s.str(); }

struct Ids { int pos, subpos, ct, cf; };
inline Ids ids(const Row& r) {  // what the tables say
  Ids i{0, 0, 0, 0};
  for (u32 k = 0; k < jm::posInfoCount; ++k) {
    auto& t = jm::posInfo[k];
    if (str(t.part1) == r.pos && str(t.part2) == r.subpos) i.pos = t.id1, i.subpos = t.id2;
  }
  for (u32 k = 0; k < jm::conjInfoCount; ++k) {
    auto& t = jm::conjInfo[k];
    if (str(t.part1) == r.conjtype && str(t.part2) == r.conjform) i.ct = t.id1, i.cf = t.id2;
  }
  return i;
}

static const size_t kTemplates = 8;
struct JWorld {
  std::vector<Row> rows;  // the first eight are the templates of the unknown words
  Strs alpha;
};
inline const std::vector<Strs>& jpools() {
  static const std::vector<Strs> p = {
      {u8"あ", u8"い", u8"か", u8"は", u8"ー", u8"ぁ", u8"っ", u8"〜"},
      {u8"ア", u8"イ", u8"ン", u8"ー"},
      {u8"大", u8"人", u8"田", u8"中", u8"日"},
      {"a", "b", "Z", u8"ａ"},
      {"1", "2", u8"３", u8"百", u8"数", "."},
      {u8"。", u8"、", u8"「", u8"」", u8"😀", u8"é", "-"}};
  return p;
}
inline std::string jstr(Ctx& c, const Strs& a, int lo, int hi) {
  std::string s;
  for (int n = c.range(lo, hi); n > 0; --n) s += c.pick(a);
  return s;
}
inline void posOf(Ctx& c, Row& r) {
  switch (c.weighted({6, 2, 1, 1})) {
    case 0: {
      auto& t = jm::posInfo[c.range(0, (int)jm::posInfoCount - 1)];
      r.pos = str(t.part1), r.subpos = str(t.part2);
      break;
    }
    case 1: {  // a name without its usual partner
      r.pos = str(jm::posInfo[c.range(0, (int)jm::posInfoCount - 1)].part1);
      r.subpos = c.oneOf<std::string>({"*", u8"普通名詞", u8"格助詞", u8"謎"});
      break;
    }
    case 2: r.pos = c.oneOf<std::string>({u8"謎", "X", u8"名"}), r.subpos = c.oneOf<std::string>({"*", "Y", u8"普通名詞"}); break;
    case 3: r.pos = "*", r.subpos = c.oneOf<std::string>({"*", u8"普通名詞", "Y"}); break;
  }
  switch (c.weighted({5, 3, 1, 1})) {
    case 0: break;
    case 1: {
      auto& t = jm::conjInfo[c.range(0, (int)jm::conjInfoCount - 1)];
      r.conjtype = str(t.part1), r.conjform = str(t.part2);
      break;
    }
    case 2: {
      r.conjtype = str(jm::conjInfo[c.range(0, (int)jm::conjInfoCount - 1)].part1);
      r.conjform = c.oneOf<std::string>({"*", u8"基本形", u8"謎形", u8"語幹"});
      break;
    }
    case 3: r.conjtype = c.oneOf<std::string>({"*", u8"謎型"}), r.conjform = c.oneOf<std::string>({"*", u8"基本形", u8"謎形"}); break;
  }
}
inline Row genRow(Ctx& c, const Strs& alpha, const JOpts& o) {
  Row r;
  bool odd = o.odd && c.chance(1, 8);
  r.surface = odd ? c.oneOf<std::string>({" ", "\t", ",", "\"", "a,b", "\"a\"", "#", u8"あ い", "@", "*", "EOS", ":", "|", ";"}) : jstr(c, alpha, 1, 4);
  if (o.newlines && c.chance(1, 8)) r.surface += c.oneOf<std::string>({"\n", "a\nb", "\r"});
  r.baseform = c.chance(1, 2) ? r.surface : jstr(c, alpha, 1, 4);
  r.reading = c.chance(1, 2) ? r.surface : jstr(c, alpha, 1, 4);
  if (odd && c.chance(1, 3)) r.reading = c.oneOf<std::string>({" ", "\t", ",", "x\"y", u8"あ い"});
  if (o.newlines && c.chance(1, 8)) r.reading = "a\nb";
  posOf(c, r);
  if (c.chance(1, 2)) r.canonic = r.baseform + "/" + r.reading;
  if (o.odd && c.chance(1, 12)) r.canonic = c.oneOf<std::string>({"a,b/c", "\"/\"", "/", "x"});
  if (o.feats) {
    std::set<std::string> seen;
    for (int n = c.weighted({3, 3, 2, 1}); n > 0; --n) {
      std::pair<std::string, std::string> f;
      f.first = c.oneOf<std::string>({u8"カテゴリ", u8"ドメイン", "k", u8"濁音化D", u8"連用形名詞化", u8"品詞推定", "a,b", "\"q\"", "k2"});
      if (!seen.insert(f.first).second) continue;
      f.second = c.chance(1, 3) ? kNoValue : c.oneOf<std::string>({u8"人", u8"場所;人", "1:2", "v,w", "\"", u8"自/じ"});
      if (!o.odd && f.second.find_first_of(",\"") != std::string::npos) f.second = "v";
      if (!o.odd && f.first.find_first_of(",\"") != std::string::npos) continue;
      r.feats.push_back(f);
    }
  }
  return r;
}
inline JWorld genJWorld(Ctx& c, const JOpts& o = JOpts()) {
  JWorld w;
  auto& pools = jpools();
  for (int k = c.range(1, 3); k > 0; --k) {
    auto& p = pools[c.range(0, (int)pools.size() - 1)];
    for (int i = c.range(1, 4); i > 0; --i) w.alpha.push_back(c.pick(p));
  }
  JOpts t = o;
  t.newlines = false;
  for (int i = 0; i < 8; ++i) {
    Row r = genRow(c, w.alpha, t);
    if (c.chance(1, 2)) r.pos = u8"未定義語", r.subpos = c.oneOf<std::string>({u8"その他", u8"カタカナ", u8"アルファベット"});
    w.rows.push_back(r);
  }
  int n = c.range(0, o.maxRows);
  for (int i = 0; i < n; ++i) {
    if (w.rows.size() > kTemplates && c.chance(1, 4)) {  // a homograph or an entry which is not distinguished
      Row r = c.pick(w.rows);
      switch (c.weighted({4, 1, 1})) {
        case 0: {
          Row x = genRow(c, w.alpha, o);
          r.canonic = x.canonic, r.feats = x.feats;
          break;
        }
        case 1: r.reading = jstr(c, w.alpha, 1, 3); break;
        case 2: posOf(c, r); break;
      }
      w.rows.push_back(r);
    } else
      w.rows.push_back(genRow(c, w.alpha, o));
  }
  return w;
}
inline std::string genText(Ctx& c, const JWorld& w, int maxUnits = 10, bool newlines = false) {
  std::string s;
  for (int n = c.range(0, maxUnits); n > 0; --n) {
    switch (c.weighted({6, 3, 1, 1})) {
      case 0: {
        std::string x = c.pick(w.rows).surface;
        if (!newlines && x.find_first_of("\n\r") != std::string::npos) x = u8"あ";
        s += x;
        break;
      }
      case 1: s += c.pick(w.alpha); break;
      case 2: s += c.pick(jpools()[c.range(0, (int)jpools().size() - 1)]); break;
      case 3: s += c.oneOf<std::string>({" ", "\t", u8"ーー", u8"ぁっ", "\"", ",", u8"々", u8"　"}); break;
    }
    if (s.size() > 90) break;
  }
  return s;
}

struct JModel {
  JWorld w;
  sp::AnalysisSpec spec;
  core::dic::DictionaryBuilder builder;
  core::dic::DictionaryHolder dic;
  std::unique_ptr<core::CoreHolder> core;
  std::string text;
  void build(Ctx& c, const JWorld& world, const core::features::StaticFeatureFactory* sff = nullptr) {
    w = world;
    text = csv(w.rows);
    WOK(c, jm::SpecFactory::makeSpec(&spec), "specification");
    WOK(c, builder.importSpec(&spec), "importSpec");
    WOK(c, builder.importCsv("dic", text), "importCsv");
    WOK(c, dic.load(builder.result()), "dictionary load");
    core.reset(new core::CoreHolder(builder.result().spec, dic));
    WOK(c, core->initialize(sff), "core init");
  }
};
struct JEngine {
  Weights weights;
  an::HashedFeaturePerceptron hfp;
  an::ScorerDef sdef;
  an::Analyzer an;
  JEngine(Ctx& c, const JModel& m, const Weights& w, int beam, const an::AnalyzerConfig& cfg) : weights(w), hfp(util::ArraySlice<float>(weights.v)) {
    sdef.feature = &hfp;
    sdef.scoreWeights.push_back(1.f);
    WOK(c, an.initialize(m.core.get(), cfg, core::ScoringConfig{beam, 1}, &sdef), "analyzer init");
  }
};

// one printed entry: values of a row with the fields of the text put in for unknown words
struct Ref {
  Row row;
  bool special = false;
  int flags = 0;
};
struct Node {
  an::LatticeNodePtr ptr{0, 0};
  std::vector<Ref> entries;  // aliases in the order of the dictionary
};

// the entries of a node: dictionary nodes from the rows of the CSV, unknown words from their template row
struct NodeReader {
  Ctx& c;
  const JModel& m;
  const an::OutputManager& om;
  an::Lattice* lat;
  Strs chars;
  an::StringField f[8];
  an::KVListField feats;
  NodeReader(Ctx& c, const JModel& m, an::Analyzer& a, const std::string& text) : c(c), m(m), om(a.output()), lat(a.impl()->lattice()) {
    const char* n[] = {"surface", "pos", "subpos", "conjform", "conjtype", "baseform", "reading", "canonic"};
    for (int i = 0; i < 8; ++i) WOK(c, om.stringField(StringPiece::fromCString(n[i]), &f[i]), "field");
    WOK(c, om.kvListField("features", &feats), "features");
    chars = cps(text);
  }
  static std::string star(const std::string& s) { return s.empty() ? "*" : s; }
  Row stored(const an::NodeWalker& nw) {
    Row r;
    r.surface = f[0][nw].str();
    r.pos = star(f[1][nw].str()), r.subpos = star(f[2][nw].str()), r.conjform = star(f[3][nw].str()), r.conjtype = star(f[4][nw].str());
    r.baseform = f[5][nw].str(), r.reading = f[6][nw].str(), r.canonic = star(f[7][nw].str());
    auto it = feats[nw];
    while (it.next()) r.feats.push_back({it.key().str(), it.hasValue() ? it.value().str() : kNoValue});
    return r;
  }
  Node read(an::LatticeNodePtr p) {
    Node n;
    n.ptr = p;
    auto info = lat->boundary(p.boundary)->starts()->nodeInfo().at(p.position);
    std::string surf;
    int start = p.boundary - 2;
    for (int i = 0; i < info.numCodepoints(); ++i) {
      PCHECK(c, start + i < (int)chars.size(), "node reaches over the end of the text");
      surf += chars[start + i];
    }
    an::NodeWalker nw;
    PCHECK(c, om.locate(p, &nw), "node " << p.boundary << ":" << p.position << " is not found");
    if (info.entryPtr().isDic()) {
      PCHECK(c, nw.next(), "node without entries");
      Row first = stored(nw);
      PCHECK(c, first.surface == surf, "dictionary word " << quote(first.surface) << " at the place of " << quote(surf));
      for (size_t i = kTemplates; i < m.w.rows.size(); ++i) {
        auto& r = m.w.rows[i];
        if (r.key() == first.key()) n.entries.push_back({r, false, 0});
      }
      PCHECK(c, !n.entries.empty(), "word " << quote(first.key()) << " is not in the dictionary");
    } else {
      while (nw.next()) {
        Ref r;
        r.row = stored(nw);
        PCHECK(c, r.row.surface == surf, "unknown word " << quote(r.row.surface) << " at the place of " << quote(surf));
        r.special = true;
        r.flags = om.valueOfUnkPlaceholder(info.entryPtr(), jm::NormalizedPlaceholderIdx);
        n.entries.push_back(r);
      }
      PCHECK(c, !n.entries.empty(), "node without entries");
    }
    return n;
  }
};
// words of the path behind an element of the EOS beam, first word first
inline std::vector<const an::ConnectionPtr*> pathOf(const an::ConnectionBeamElement& e) {
  std::vector<const an::ConnectionPtr*> v;
  for (auto p = e.ptr.previous; p && p->boundary >= 2; p = p->previous) v.push_back(p);
  std::reverse(v.begin(), v.end());
  return v;
}
inline std::string flagText(int v) {
  if (v == 0) return "";
  static const std::pair<an::charlattice::Modifiers, const char*> t[] = {
      {an::charlattice::Modifiers::REPLACE, "R"},          {an::charlattice::Modifiers::REPLACE_SMALLKANA, "s"}, {an::charlattice::Modifiers::REPLACE_PROLONG, "p"},
      {an::charlattice::Modifiers::REPLACE_EROW_WITH_E, "e"}, {an::charlattice::Modifiers::DELETE, "D"},          {an::charlattice::Modifiers::DELETE_PROLONG, "P"},
      {an::charlattice::Modifiers::DELETE_SMALLKANA, "S"}, {an::charlattice::Modifiers::DELETE_HASTSUON, "H"},   {an::charlattice::Modifiers::DELETE_LAST, "L"}};
  std::string s = u8"非標準表記:";
  for (auto& p : t)
    if (v & (int)p.first) s += p.second;
  return s;
}
}  // namespace jd
