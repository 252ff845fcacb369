// Generated "worlds": a model specification, a dictionary and sentences over a
// small alphabet, plus the engine built from them through the public building
// blocks (spec DSL / spec text -> DictionaryBuilder -> CoreHolder ->
// AnalyzerImpl).
#pragma once
#include <algorithm>
#include <cstring>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "core/analysis/analysis_result.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/output.h"
#include "core/analysis/perceptron.h"
#include "core/analysis/score_api.h"
#include "core/core.h"
#include "core/dic/dic_builder.h"
#include "core/dic/dictionary.h"
#include "core/spec/spec_dsl.h"
#include "core/spec/spec_parser.h"
#include "pbt.h"

namespace w {
using namespace jumanpp;
namespace sp = jumanpp::core::spec;
namespace an = jumanpp::core::analysis;
using pbt::Ctx;
using pbt::quote;
typedef std::vector<std::string> Strs;

// ---------------------------------------------------------------- UTF-8
inline std::string u8(char32_t c) {
  std::string r;
  if (c < 0x80)
    r += (char)c;
  else if (c < 0x800) {
    r += (char)(0xC0 | c >> 6);
    r += (char)(0x80 | (c & 63));
  } else if (c < 0x10000) {
    r += (char)(0xE0 | c >> 12);
    r += (char)(0x80 | (c >> 6 & 63));
    r += (char)(0x80 | (c & 63));
  } else {
    r += (char)(0xF0 | c >> 18);
    r += (char)(0x80 | (c >> 12 & 63));
    r += (char)(0x80 | (c >> 6 & 63));
    r += (char)(0x80 | (c & 63));
  }
  return r;
}
// splits valid UTF-8 into codepoint strings
inline Strs cps(const std::string& s) {
  Strs r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    r.push_back(s.substr(i, n));
    i += n;
  }
  return r;
}
inline std::u32string toU32(const std::string& s) {
  std::u32string r;
  for (auto& c : cps(s)) {
    unsigned char b = c[0];
    char32_t v = b < 0x80 ? b : b < 0xE0 ? b & 31 : b < 0xF0 ? b & 15 : b & 7;
    for (size_t i = 1; i < c.size(); ++i) v = v << 6 | ((unsigned char)c[i] & 63);
    r += v;
  }
  return r;
}
inline std::string toU8(const std::u32string& s) {
  std::string r;
  for (auto c : s) r += u8(c);
  return r;
}
inline std::string join(const Strs& v, const std::string& sep) {
  std::string r;
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) r += sep;
    r += v[i];
  }
  return r;
}
inline Strs split(const std::string& s, const std::string& sep) {
  Strs r;
  size_t p = 0;
  for (;;) {
    size_t q = s.find(sep, p);
    if (q == std::string::npos) {
      r.push_back(s.substr(p));
      return r;
    }
    r.push_back(s.substr(p, q - p));
    p = q + sep.size();
  }
}

// ---------------------------------------------------------------- model
enum FieldKind { FString, FInt, FList, FKv };
enum FeatKind { Placeholder, Codepoint, CodepointType, NumCodepoints, NumBytes, Match };
enum UnkKind { Single, Chunking, Onoma, Numeric, Normalize };

struct WField {
  std::string name;
  FieldKind kind = FString;
  int col = 1;  // 1-based csv column
  bool trie = false;
  std::string empty;
  int storage = -1;  // shares string storage of this (earlier) field
  int align = 0;
  std::string listSep = " ", kvSep = ":";
};
struct WFeature {
  std::string name;
  FeatKind kind;
  int arg = 0;
  std::vector<int> fields;
  std::vector<Strs> rows;  // match data
  std::vector<int> thenF, elseF;
};
struct WNgram {
  std::vector<Strs> parts;  // leftmost (earliest token) first
};
struct WUnk {
  std::string name;
  UnkKind kind;
  Strs classes;  // names or-ed together
  int cls = 0;
  int row = 1;  // 1-based row number of the template
  bool low = false;
  std::vector<int> surfaceTo;
  std::string featureTo;
};
struct WAlias {
  int target, source;
  std::string key;
};
struct World {
  std::vector<WField> fields;
  std::vector<WFeature> features;
  std::vector<WNgram> ngrams;
  std::vector<WUnk> unks;
  std::vector<std::pair<int, float>> train;
  std::vector<WAlias> aliases;
  std::vector<Strs> rows;  // all csv columns of every row
  int ncols = 0;
  std::vector<std::string> alphabet;
  Strs words;  // surfaces of the dictionary rows

  int fieldIdx(const std::string& n) const {
    for (size_t i = 0; i < fields.size(); ++i)
      if (fields[i].name == n) return (int)i;
    return -1;
  }
  int featIdx(const std::string& n) const {
    for (size_t i = 0; i < features.size(); ++i)
      if (features[i].name == n) return (int)i;
    return -1;
  }
  int trieField() const {
    for (size_t i = 0; i < fields.size(); ++i)
      if (fields[i].trie) return (int)i;
    return -1;
  }
  const std::string& cell(int row, int field) const {
    return rows[row][fields[field].col - 1];
  }
  bool isTemplate(int row) const {
    for (auto& u : unks)
      if (u.row == row + 1) return true;
    return false;
  }
  // fields stored per node: named in n-grams, in branches of match features,
  // as arguments of features (string/int), or as replaced by unknown words
  std::set<int> featureFields() const {
    std::set<int> r;
    for (auto& n : ngrams)
      for (auto& p : n.parts)
        for (auto& x : p)
          if (fieldIdx(x) >= 0) r.insert(fieldIdx(x));
    for (auto& f : features) {
      r.insert(f.thenF.begin(), f.thenF.end());
      r.insert(f.elseF.begin(), f.elseF.end());
      for (int x : f.fields)
        if (fields[x].kind <= FInt) r.insert(x);
    }
    for (auto& u : unks) r.insert(u.surfaceTo.begin(), u.surfaceTo.end());
    return r;
  }
  std::set<int> aliasSet() const {
    std::set<int> r;
    if (train.empty()) {
      r = featureFields();
      r.insert(trieField());
    } else {
      for (auto& t : train)
        if (t.second != 0) r.insert(t.first);
    }
    return r;
  }
};

struct CharClass {
  const char* name;
  int value;
};
inline const std::vector<CharClass>& charClasses() {
  static const std::vector<CharClass> v = {
      {"FAMILY_ANYTHING", 0x7fffffff}, {"KATAKANA", 0x200}, {"HIRAGANA", 0x400},
      {"KANJI", 4},        {"FIGURE", 8},        {"ALPH", 0x80},
      {"SYMBOL", 0x100},   {"SPACE", 1},         {"PERIOD", 0x10},
      {"MIDDLE_DOT", 0x20}, {"COMMA", 0x40},     {"KANJI_FIGURE", 0x800},
      {"SLASH", 0x1000},   {"COLON", 0x2000},    {"CHOON", 0x8000},
      {"HANKAKU_KANA", 0x10000}, {"BRACKET", 0x20000},
      {"FIGURE_EXCEPTION", 0x40000}, {"FIGURE_DIGIT", 0x80000},
      {"SMALL_KANA", 0x100000}, {"IDEOGRAPHIC_PUNC", 2},
      {"FAMILY_FIGURE", 8 | 0x10 | 0x20 | 0x800 | 0x1000 | 0x2000},
      {"FAMILY_PUNC", 0x10 | 0x40 | 2},
      {"FAMILY_ALPH_PUNC", 0x80 | 0x10 | 0x1000 | 0x2000 | 0x20},
      {"FAMILY_NUM_PERIOD", 0x30},
      {"FAMILY_PUNC_SYMBOL", 0x10 | 0x40 | 2 | 0x20 | 0x100 | 0x1000 | 0x2000},
      {"FAMILY_SPACE", 1}, {"FAMILY_SYMBOL", 0x100}, {"FAMILY_ALPH", 0x80},
      {"FAMILY_KANJI", 4 | 0x800},
      {"FAMILY_KANA", 0x200 | 0x400 | 0x10000 | 0x100000},
      {"FAMILY_DOUBLE", 0x200 | 0x400 | 0x10000 | 0x100000 | 4 | 0x8000},
      {"FAMILY_BRACKET", 0x20000},
      {"FAMILY_DIGITS", 8 | 0x800 | 0x80000},
      {"FAMILY_EXCEPTION", 8 | 0x800 | 0x40000},
      {"FAMILY_PROLONGABLE", 4 | 0x400 | 0x200},
      {"FAMILY_FULL_KANA", 0x400 | 0x200},
      {"ERA", 0x4000}};
  return v;
}
inline int classValue(const std::string& n) {
  for (auto& c : charClasses())
    if (n == c.name) return c.value;
  return 0;
}

// ---------------------------------------------------------------- rendering
inline std::string csvCell(const std::string& s, bool forceQuote = false) {
  bool q = forceQuote || s.find_first_of(",\"\n\r") != std::string::npos;
  if (!q) return s;
  std::string r = "\"";
  for (char c : s) {
    r += c;
    if (c == '"') r += c;
  }
  return r + "\"";
}
inline std::string csvRow(const Strs& cells) {
  Strs v;
  for (auto& c : cells) v.push_back(csvCell(c));
  return join(v, ",");
}
inline std::string dicCsv(const World& w) {
  std::string r;
  for (auto& row : w.rows) r += csvRow(row) + "\n";
  return r;
}
inline std::string matchText(const WFeature& f) {
  Strs rows;
  for (auto& r : f.rows) rows.push_back(csvRow(r));
  return join(rows, "\n");
}
inline std::string q(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    r += c;
    if (c == '"') r += c;
  }
  return r + "\"";
}
inline std::string fieldNames(const World& w, const std::vector<int>& v) {
  Strs n;
  for (int i : v) n.push_back(w.fields[i].name);
  return "[" + join(n, ", ") + "]";
}
inline std::string fmtFloat(float f) {
  char b[64];
  snprintf(b, sizeof b, "%.6f", f);
  return b;
}
// text form. lowPriority has no text syntax.
inline std::string specText(const World& w) {
  std::ostringstream o;
  static const char* kinds[] = {"string", "int", "string_list", "kv_list"};
  for (auto& f : w.fields) {
    o << "field " << f.col << " " << f.name << " " << kinds[f.kind];
    if (f.trie) o << " trie_index";
    if (!f.empty.empty()) o << " empty " << q(f.empty);
    if (f.storage >= 0) o << " storage " << w.fields[f.storage].name;
    if (f.align) o << " align " << f.align;
    if (f.listSep != " ") o << " list_sep " << q(f.listSep);
    if (f.kvSep != ":") o << " kv_sep " << q(f.kvSep);
    o << "\n";
  }
  for (auto& f : w.features) {
    o << "feature " << f.name << " = ";
    switch (f.kind) {
      case Placeholder: o << "placeholder"; break;
      case Codepoint: o << "codepoint " << f.arg; break;
      case CodepointType: o << "codepoint_type " << f.arg; break;
      case NumCodepoints: o << "num_codepoints " << w.fields[f.fields[0]].name; break;
      case NumBytes: o << "num_bytes " << w.fields[f.fields[0]].name; break;
      case Match:
        o << "match ";
        if (f.fields.size() == 1)
          o << w.fields[f.fields[0]].name;
        else
          o << fieldNames(w, f.fields);
        o << " with " << q(matchText(f));
        if (!f.thenF.empty())
          o << " then " << fieldNames(w, f.thenF) << " else " << fieldNames(w, f.elseF);
        break;
    }
    o << "\n";
  }
  for (auto& n : w.ngrams) {
    o << "ngram";
    for (auto& p : n.parts) o << " [" << join(p, ", ") << "]";
    o << "\n";
  }
  static const char* unks[] = {"single", "chunking", "onomatopeia", "numeric", "normalize"};
  for (auto& u : w.unks) {
    o << "unk " << u.name << " template row " << u.row << ": " << unks[u.kind];
    if (u.kind != Normalize) o << " " << join(u.classes, " | ");
    if (!u.featureTo.empty()) o << " feature to " << u.featureTo;
    if (!u.surfaceTo.empty()) o << " surface to " << fieldNames(w, u.surfaceTo);
    if (u.low) o << " #lowPriority";
    o << "\n";
  }
  if (!w.train.empty()) {
    o << "train loss ";
    for (size_t i = 0; i < w.train.size(); ++i)
      o << (i ? ", " : "") << w.fields[w.train[i].first].name << " " << fmtFloat(w.train[i].second);
    for (auto& a : w.aliases)
      o << " unk_gold_if " << w.fields[a.source].name << "[" << q(a.key)
        << "] == " << w.fields[a.target].name;
    o << "\n";
  }
  return o.str();
}
inline std::string show(const World& w) {
  return specText(w) + "--- csv\n" + dicCsv(w) + "---\n";
}

// ---------------------------------------------------------------- DSL
struct DslSpec {  // keeps the strings alive that the builder refers to
  World w;
  std::vector<std::string> texts;
  Status build(sp::AnalysisSpec* out) {
    sp::dsl::ModelSpecBuilder b;
    std::vector<sp::dsl::FieldBuilder*> fl;
    std::vector<sp::dsl::FeatureBuilder*> ft;
    texts.reserve(w.features.size() + 1);
    for (auto& f : w.fields) {
      auto& x = b.field(f.col, f.name);
      switch (f.kind) {
        case FString: x.strings(); break;
        case FInt: x.integers(); break;
        case FList: x.stringLists(); break;
        case FKv: x.kvLists(); break;
      }
      if (f.trie) x.trieIndex();
      if (!f.empty.empty()) x.emptyValue(f.empty);
      if (f.storage >= 0) x.stringStorage(*fl[f.storage]);
      if (f.align) x.align(f.align);
      x.listSeparator(f.listSep).kvSeparator(f.kvSep);
      fl.push_back(&x);
    }
    for (auto& f : w.features) {
      auto& x = b.feature(f.name);
      switch (f.kind) {
        case Placeholder: x.placeholder(); break;
        case Codepoint: x.codepoint(f.arg); break;
        case CodepointType: x.codepointType(f.arg); break;
        case NumCodepoints: x.numCodepoints(*fl[f.fields[0]]); break;
        case NumBytes: x.length(*fl[f.fields[0]]); break;
        case Match: {
          texts.push_back(matchText(f));
          const std::string& t = texts.back();
          if (f.fields.size() == 1 && (w.fields[f.fields[0]].kind >= FList || t.find_first_of(",\n") == std::string::npos))
            x.matchData(*fl[f.fields[0]], t);
          else {
            std::vector<sp::dsl::FieldReference> refs;
            for (int i : f.fields) refs.push_back(*fl[i]);
            x.matchAnyRowOfCsv(t, refs);
          }
          std::vector<sp::dsl::FieldExpressionBldr> a, e;
          for (int i : f.thenF) a.push_back(fl[i]->value());
          for (int i : f.elseF) e.push_back(fl[i]->value());
          if (!a.empty()) x.ifTrue(a);
          if (!e.empty()) x.ifFalse(e);
          break;
        }
      }
      ft.push_back(&x);
    }
    auto refs = [&](const Strs& names) {
      std::vector<sp::dsl::FeatureRef> r;
      for (auto& n : names) {
        int i = w.fieldIdx(n);
        if (i >= 0)
          r.push_back(*fl[i]);
        else
          r.push_back(*ft[w.featIdx(n)]);
      }
      return r;
    };
    for (auto& n : w.ngrams) {
      if (n.parts.size() == 1) b.unigram(refs(n.parts[0]));
      if (n.parts.size() == 2) b.bigram(refs(n.parts[0]), refs(n.parts[1]));
      if (n.parts.size() == 3) b.trigram(refs(n.parts[0]), refs(n.parts[1]), refs(n.parts[2]));
    }
    for (auto& u : w.unks) {
      auto& x = b.unk(u.name, u.row);
      auto c = static_cast<chars::CharacterClass>(u.cls);
      switch (u.kind) {
        case Single: x.single(c); break;
        case Chunking: x.chunking(c); break;
        case Onoma: x.onomatopoeia(c); break;
        case Numeric: x.numeric(c); break;
        case Normalize: x.normalize(); break;
      }
      if (!u.featureTo.empty()) x.writeFeatureTo(*ft[w.featIdx(u.featureTo)]);
      std::vector<sp::dsl::FieldReference> o;
      for (int i : u.surfaceTo) o.push_back(*fl[i]);
      if (!o.empty()) x.outputTo(o);
      if (u.low) x.lowPriority();
    }
    for (auto& t : w.train) b.train().field(*fl[t.first], t.second);
    for (auto& a : w.aliases) b.train().allowGoldUnkWith(*fl[a.target], *fl[a.source], a.key);
    return b.build(out);
  }
};
inline std::string msg(const Status& s) {
  std::ostringstream o;
  o << s;
  return o.str();
}
#define WOK(c, expr, what)                                              \
  do {                                                                  \
    Status s_ = (expr);                                                 \
    if (!s_) (c).fail(std::string(what) + ": " + ::w::msg(s_));         \
  } while (0)


// can be written in the text form (no syntax for lowPriority; list matches take one value)
// quotes inside quoted strings are left to S01 (known finding there)
inline bool textable(const World& w) {
  for (auto& f : w.fields)
    if ((f.empty + f.listSep + f.kvSep).find('"') != std::string::npos) return false;
  for (auto& f : w.features)
    if (f.kind == Match && matchText(f).find('"') != std::string::npos) return false;
  for (auto& a : w.aliases)
    if (a.key.find('"') != std::string::npos) return false;
  for (auto& u : w.unks)
    if (u.low) return false;
  for (auto& f : w.features)
    if (f.kind == Match && w.fields[f.fields[0]].kind >= FList && f.rows.size() > 1) return false;
  return true;
}
inline Status buildSpec(Ctx& c, const World& w, sp::AnalysisSpec* out, bool text = false) {
  if (text) {
    std::string fn = pbt::scratchFile(c, "spec.txt");
    pbt::writeFile(fn, specText(w));
    return sp::parseFromFile(fn, out);
  }
  DslSpec d;
  d.w = w;
  return d.build(out);
}

// ---------------------------------------------------------------- generation
struct GenOpts {
  bool unks = true;
  bool fallback = true;   // some rule covers every character
  bool features = true;   // computed features
  int maxRows = 14;
  int minRows = 1;
  bool rich = true;       // lists, ints, shared storages, alignment
  bool train = false;     // generate train clause
  bool lowPriority = true;
  bool fixedWords = false;
  int maxWordLen = 5;
  Strs alphabet;          // given alphabet
  bool wide = false;      // close to the maximum number of fields, most of them node data
  int unkKind = -1;       // kind of the first unknown-word rule
};

inline const std::vector<Strs>& alphabetPools() {
  static const std::vector<Strs> v = {
      cps(u8"あいうかきさすねばたほげ"), cps(u8"ぁぃぅっゃー〜"),
      cps(u8"アイケキロメガミリァッー"),       cps(u8"ﾎｹﾞｱ"),
      cps(u8"分数何漢字幾"),           cps(u8"一二三十百千万"),
      cps(u8"０１２012"),              cps(u8",，/・．.:：％"),
      cps("abcXY"),                    cps(u8" 　"),
      cps(u8"😀𠮷"),                   cps(u8"「」。、!（"),
      cps(u8"éßñ¥")};
  return v;
}
inline Strs genAlphabet(Ctx& c) {
  auto& P = alphabetPools();
  Strs r;
  auto add = [&](int pool, int n) {
    for (int i = 0; i < n; ++i) {
      auto& x = c.pick(P[pool]);
      if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x);
    }
  };
  switch (c.weighted({5, 4, 3, 4, 2})) {
    case 0: add(0, c.range(2, 5)); if (c.chance(1, 2)) add(1, c.range(1, 3)); break;
    case 1: add(5, c.range(1, 3)); add(6, c.range(1, 3)); add(7, c.range(1, 2)); add(4, c.range(0, 3)); if (c.chance(1, 2)) add(0, 1); break;
    case 2: add(2, c.range(1, 4)); add(0, c.range(0, 2)); if (c.chance(1, 2)) add(3, 2); break;
    case 3: { int n = c.range(3, 8); for (int i = 0; i < n; ++i) add(c.range(0, (int)P.size() - 1), 1); break; }
    case 4: add(8, c.range(1, 4)); add(9, c.range(0, 1)); add(7, c.range(0, 1)); break;
  }
  return r;
}
inline std::string genStr(Ctx& c, const Strs& alpha, int lo, int hi) {
  std::string s;
  int n = c.range(lo, hi);
  for (int i = 0; i < n; ++i) s += c.pick(alpha);
  return s;
}
inline std::string genWord(Ctx& c, const World& w, int maxLen = 5) {
  if (!w.words.empty() && c.chance(1, 4)) {  // extension / prefix of another word
    auto v = cps(c.pick(w.words));
    if (c.chance(1, 2) && v.size() > 1) {
      v.pop_back();
      return join(v, "");
    }
    if ((int)v.size() < maxLen) return join(v, "") + c.pick(w.alphabet);
  }
  int n = 1 + c.weighted({5, 5, 3, 1, 1});
  return genStr(c, w.alphabet, 1, std::min(n, maxLen));
}
inline std::string genItem(Ctx& c) {
  static const Strs pool = {"x", "y", "z", "xy", u8"値", "k1", "k2", "*", "x-y", "0"};
  return c.pick(pool);
}
inline std::string genCell(Ctx& c, const World& w, const WField& f) {
  switch (f.kind) {
    case FString: {
      if (c.chance(1, 6)) return "";
      if (!f.empty.empty() && c.chance(1, 5)) return f.empty;
      if (c.chance(1, 8) && !w.words.empty()) return c.pick(w.words);
      if (c.chance(1, 12)) return c.oneOf<std::string>({"a,b", "q\"q", "a b", "l1\nl2", u8"長い値長い値長い値", std::string(200, 'v')});
      return genItem(c);
    }
    case FInt:
      if (c.chance(1, 8)) return "";
      return c.chance(1, 10) ? c.oneOf<std::string>({"2147483647", "65536", "007"}) : std::to_string(c.range(0, 5));
    case FList: {
      if (!f.empty.empty() && c.chance(1, 6)) return f.empty;
      Strs v;
      int n = c.range(0, 4);
      for (int i = 0; i < n; ++i) v.push_back(genItem(c));
      return join(v, " ");
    }
    case FKv: {
      if (!f.empty.empty() && c.chance(1, 6)) return f.empty;
      Strs v;
      int n = c.range(0, 3);
      for (int i = 0; i < n; ++i) {
        std::string k = c.oneOf<std::string>({"k1", "k2", "k3", "x"});
        if (c.chance(2, 3)) k += f.kvSep + genItem(c);
        v.push_back(k);
      }
      return join(v, f.listSep);
    }
  }
  return "";
}

inline World genWorld(Ctx& c, const GenOpts& o = GenOpts()) {
  World w;
  w.alphabet = o.alphabet.empty() ? genAlphabet(c) : o.alphabet;
  // fields
  int nf = o.wide ? c.range(12, 14) : 1 + c.weighted({1, 3, 4, 3, 2});
  int trieAt = c.range(0, nf - 1);
  std::vector<int> cols;
  int ncols = nf + c.weighted({4, 2, 1});
  for (int i = 1; i <= ncols; ++i) cols.push_back(i);
  bool perm = c.chance(1, 2);
  for (int i = 0; i < nf; ++i) {
    WField f;
    f.name = "f" + std::to_string(i);
    int k = perm ? (int)c.choose(cols.size()) : 0;
    f.col = cols[k];
    cols.erase(cols.begin() + k);
    if (i == trieAt) {
      f.name = "surf";
      f.trie = true;
      f.kind = FString;
    } else {
      f.kind = o.wide ? (FieldKind)c.weighted({12, 2, 1, 1}) : o.rich ? (FieldKind)c.weighted({6, 2, 2, 2}) : FString;
      if (f.kind != FInt && c.chance(1, 4)) f.empty = "*";
      if (o.rich && f.kind != FInt && c.chance(1, 5)) {
        std::vector<int> cand;
        for (int j = 0; j < i; ++j)
          if (w.fields[j].kind != FInt && w.fields[j].storage < 0) cand.push_back(j);
        if (!cand.empty()) f.storage = c.pick(cand);
      }
      if (f.kind == FKv && c.chance(1, 4)) {
        f.kvSep = c.oneOf<std::string>({"=", "::"});
        f.listSep = c.oneOf<std::string>({";", "|"});
      }
    }
    if (o.rich && f.kind != FInt && f.storage < 0 && c.chance(1, 6)) f.align = c.range(1, 3);
    w.fields.push_back(f);
  }
  w.ncols = 0;
  for (auto& f : w.fields) w.ncols = std::max(w.ncols, f.col);
  w.ncols += c.range(0, 1);
  int T = w.trieField();

  // rows
  int nwords = c.range(1, 10);
  for (int i = 0; i < nwords; ++i) w.words.push_back(genWord(c, w, o.maxWordLen));
  Strs distinct;
  for (auto& x : w.words)
    if (std::find(distinct.begin(), distinct.end(), x) == distinct.end()) distinct.push_back(x);
  int nrows = c.range(std::max<int>(o.minRows, 1), o.maxRows);
  auto genRow = [&](const std::string& surf) {
    Strs r(w.ncols);
    for (auto& x : r) x = c.chance(1, 4) ? genItem(c) : "";
    for (int i = 0; i < (int)w.fields.size(); ++i)
      r[w.fields[i].col - 1] = i == T ? surf : genCell(c, w, w.fields[i]);
    return r;
  };
  for (int i = 0; i < nrows; ++i) {
    if (i > 0 && c.chance(1, 6)) {  // near duplicate of an earlier row
      Strs r = w.rows[c.choose(w.rows.size())];
      int f = (int)c.choose(w.fields.size());
      if (f != T && c.chance(2, 3)) r[w.fields[f].col - 1] = genCell(c, w, w.fields[f]);
      w.rows.push_back(r);
    } else
      w.rows.push_back(genRow(c.pick(distinct)));
  }
  w.words.clear();

  // features
  std::vector<int> strF, direct, listF;
  for (int i = 0; i < (int)w.fields.size(); ++i) {
    if (w.fields[i].kind == FString) strF.push_back(i);
    if (w.fields[i].kind <= FInt) direct.push_back(i);
    if (w.fields[i].kind >= FList) listF.push_back(i);
  }
  if (o.features) {
    int n = c.weighted({2, 3, 3, 2, 2, 1});
    for (int i = 0; i < n; ++i) {
      WFeature f;
      f.name = "ft" + std::to_string(i);
      f.kind = (FeatKind)c.weighted({2, 2, 2, 2, 2, 5});
      switch (f.kind) {
        case Placeholder: break;
        case Codepoint: f.arg = c.oneOf({1, -1, 2, -2, 3, -3}); break;
        case CodepointType: f.arg = c.oneOf({0, 1, -1, 2, -2}); break;
        case NumCodepoints: case NumBytes: f.fields = {c.pick(strF)}; break;
        case Match: {
          bool single = c.chance(1, 2);
          if (single) {
            std::vector<int> cand = strF;
            cand.insert(cand.end(), listF.begin(), listF.end());
            f.fields = {c.pick(cand)};
          } else {
            int k = c.range(1, std::min<int>(3, (int)strF.size()));
            std::vector<int> pool = strF;
            for (int j = 0; j < k; ++j) {
              int x = (int)c.choose(pool.size());
              f.fields.push_back(pool[x]);
              pool.erase(pool.begin() + x);
            }
          }
          int nr = c.range(1, 3);
          bool list = w.fields[f.fields[0]].kind >= FList;
          if (list) {
            std::set<std::string> seen;
            for (int j = 0; j < nr; ++j) {
              std::string x = c.chance(1, 3) ? c.oneOf<std::string>({"k1", "k2", "x"}) : genItem(c);
              if (seen.insert(x).second) f.rows.push_back({x});
            }
          } else
            for (int j = 0; j < nr; ++j) {
              Strs r;
              bool fromRow = c.chance(2, 3);
              int row = (int)c.choose(w.rows.size());
              for (int x : f.fields) {
                std::string v = fromRow ? w.cell(row, x) : genItem(c);
                if (v.find('\n') != std::string::npos || v.size() > 100) v = "x";
                r.push_back(v);
              }
              if (r.size() == 1 && (r[0].empty() || r[0].find_first_of(",\"") != std::string::npos)) r[0] = "x";
              f.rows.push_back(r);
            }
          if (c.chance(1, 2)) {
            int a = c.range(1, 2), b = c.range(1, 2);
            for (int j = 0; j < a; ++j) f.thenF.push_back(c.pick(direct));
            for (int j = 0; j < b; ++j) f.elseF.push_back(c.pick(direct));
          }
          break;
        }
      }
      w.features.push_back(f);
    }
  }
  // n-grams
  Strs usable;
  for (int i : direct) usable.push_back(w.fields[i].name);
  for (auto& f : w.features) usable.push_back(f.name);
  auto genPart = [&]() {
    if (c.chance(1, 4) && !w.ngrams.empty()) {  // reuse a pattern
      auto& g = c.pick(w.ngrams);
      return c.pick(g.parts);
    }
    Strs p;
    int n = 1 + c.weighted({4, 3, 2, 1});
    for (int i = 0; i < n; ++i) p.push_back(c.pick(usable));
    return p;
  };
  int ng = c.range(1, 7);
  for (int i = 0; i < ng; ++i) {
    WNgram g;
    int ord = 1 + c.weighted({3, 3, 2});
    for (int j = 0; j < ord; ++j) g.parts.push_back(genPart());
    w.ngrams.push_back(g);
  }
  if (o.wide)
    for (int i : direct)
      if (c.chance(7, 8)) {
        WNgram g;
        g.parts = {{w.fields[i].name}};
        w.ngrams.push_back(g);
      }
  for (auto& f : w.features) {
    bool used = false;
    for (auto& g : w.ngrams)
      for (auto& p : g.parts) used |= std::find(p.begin(), p.end(), f.name) != p.end();
    if (!used) {
      WNgram g;
      g.parts = {{f.name}};
      if (c.chance(1, 3)) g.parts.push_back({f.name});
      w.ngrams.push_back(g);
    }
  }
  // dictionaries cannot be built when the surface is not part of the node data
  if (!w.featureFields().count(T)) {
    WNgram g;
    g.parts = {{w.fields[T].name}};
    w.ngrams.push_back(g);
  }

  // unknown words
  if (o.unks) {
    int n = c.weighted({1, 3, 3, 2, 1});
    if (o.unkKind >= 0 && n == 0) n = 1;
    std::vector<int> ph;
    for (int i = 0; i < (int)w.features.size(); ++i)
      if (w.features[i].kind == Placeholder) ph.push_back(i);
    bool fb = o.fallback;
    auto ff = w.featureFields();
    std::vector<int> strFeat;
    for (int i : strF)
      if (ff.count(i)) strFeat.push_back(i);
    std::vector<int> tmplRows;
    for (int i = 0; i < n + (fb ? 1 : 0); ++i) {
      WUnk u;
      u.name = "u" + std::to_string(i);
      bool last = i == n;
      if (last) {
        u.kind = c.chance(3, 4) ? Chunking : Single;
        u.classes = {"FAMILY_ANYTHING"};
        u.low = o.lowPriority && c.chance(1, 3);
      } else {
        u.kind = i == 0 && o.unkKind >= 0 ? (UnkKind)o.unkKind : (UnkKind)c.weighted({2, 4, 3, 4, 4});
        u.low = o.lowPriority && c.chance(1, 8);
        static const Strs common = {"KATAKANA", "HIRAGANA", "KANJI", "ALPH", "FIGURE", "FAMILY_DIGITS", "FAMILY_FIGURE", "FAMILY_DOUBLE", "FAMILY_FULL_KANA", "FAMILY_KANA", "SYMBOL", "FAMILY_PUNC_SYMBOL", "FAMILY_ANYTHING"};
        if (u.kind == Numeric)
          u.classes = {c.oneOf<std::string>({"FAMILY_DIGITS", "FAMILY_FIGURE", "KANJI_FIGURE"})};
        else if (u.kind == Onoma && c.chance(2, 3))
          u.classes = {c.oneOf<std::string>({"FAMILY_FULL_KANA", "FAMILY_KANA", "HIRAGANA", "KATAKANA"})};
        else if (u.kind != Normalize) {
          u.classes.push_back(c.chance(3, 4) ? c.pick(common) : std::string(c.pick(charClasses()).name));
          if (c.chance(1, 4)) u.classes.push_back(c.pick(common));
        }
      }
      for (auto& x : u.classes) u.cls |= classValue(x);
      if (!ph.empty() && c.chance(2, 3)) u.featureTo = w.features[c.pick(ph)].name;
      if (!strFeat.empty() && c.chance(9, 10)) {
        for (int x : strFeat)
          if (x == T ? c.chance(9, 10) : c.chance(1, 3)) u.surfaceTo.push_back(x);
      }
      if (tmplRows.empty() || c.chance(1, 2)) {
        // a new template row somewhere; row numbers of later ones shift
        int pos = c.range(0, (int)w.rows.size());
        w.rows.insert(w.rows.begin() + pos, genRow(c.chance(1, 5) ? c.pick(distinct) : "U" + std::to_string(i)));
        for (auto& x : w.unks)
          if (x.row >= pos + 1) ++x.row;
        for (auto& x : tmplRows)
          if (x >= pos + 1) ++x;
        u.row = pos + 1;
        tmplRows.push_back(u.row);
      } else
        u.row = c.pick(tmplRows);
      w.unks.push_back(u);
    }
  }
  for (size_t i = 0; i < w.rows.size(); ++i)
    if (!w.isTemplate((int)i)) w.words.push_back(w.cell((int)i, T));
  if (w.words.empty()) {
    w.rows.push_back(genRow(c.pick(distinct)));
    w.words.push_back(w.cell((int)w.rows.size() - 1, T));
  }
  if (o.train) {
    auto ff = w.featureFields();
    if (!ff.count(T)) {
      WNgram g;
      g.parts = {{w.fields[T].name}};
      w.ngrams.push_back(g);
      ff.insert(T);
    }
    for (int i = 0; i < (int)w.fields.size(); ++i) {
      bool ok = ff.count(i) && w.fields[i].kind <= FInt;
      if (i == T) w.train.push_back({i, (float)c.range(1, 8)});
      else if (ok && c.chance(2, 3)) w.train.push_back({i, (float)c.range(0, 4)});
    }
    if (c.chance(1, 4)) std::reverse(w.train.begin(), w.train.end());
  }
  return w;
}

inline std::string genSentence(Ctx& c, const World& w, int maxUnits = 12) {
  std::string s;
  int n = c.chance(1, 20) ? 0 : 1 + (int)c.choose(c.chance(1, 4) ? maxUnits : std::max(1, maxUnits / 2));
  for (int i = 0; i < n; ++i) {
    switch (c.weighted({6, 4, 1, 1})) {
      case 0: s += c.pick(w.words); break;
      case 1: s += c.pick(w.alphabet); break;
      case 2: { std::string x = genStr(c, w.alphabet, 1, 4); s += x + x; break; }
      case 3: s += c.pick(c.pick(alphabetPools())); break;
    }
  }
  return s;
}

// ---------------------------------------------------------------- engine
class Analyzer : public an::AnalyzerImpl {
 public:
  Analyzer(const core::CoreHolder* core, const core::ScoringConfig& s, const an::AnalyzerConfig& a)
      : AnalyzerImpl(core, s, a) {}
  an::LatticeBuilder& bldr() { return latticeBldr_; }
  an::ScoreProcessor* sproc() { return sproc_; }
  an::LatticeConfig& lcfg() { return latticeConfig_; }
  an::AnalysisInput& inputRef() { return input_; }
};

struct Weights {
  std::vector<float> v;
  static Weights make(Ctx& c) {
    Weights w;
    int k = c.oneOf({10, 6, 12, 2, 14});
    w.v.resize(1u << k);
    int style = c.weighted({5, 4, 1, 1});
    pbt::Rng r{c.bits(32)};
    for (auto& x : w.v) {
      int z = (int)(r.next() % 4097) - 2048;
      if (style == 0) x = z / 1024.f;            // mostly distinct, exact sums
      else if (style == 1) x = (z % 17) / 8.f;   // ties
      else if (style == 2) x = 0;
      else x = (float)(r.next() % 2);
    }
    return w;
  }
};

struct Beams {
  int beam = 5, gleft = 0, rcheck = 0, rsize = 0;
  std::string str() const {
    return "beam=" + std::to_string(beam) + " gbeam=" + std::to_string(gleft) + "/" + std::to_string(rcheck) + "/" + std::to_string(rsize);
  }
  static Beams make(Ctx& c) {
    Beams b;
    b.beam = c.oneOf({1, 2, 3, 5, 10});
    if (c.chance(1, 2)) {
      b.gleft = c.oneOf({1, 2, 3, 5, 8});
      if (c.chance(1, 2)) {
        b.rcheck = c.range(1, 4);
        b.rsize = c.range(1, 5);
      }
    }
    return b;
  }
  an::AnalyzerConfig cfg() const {
    an::AnalyzerConfig a;
    a.pageSize = 1 << 18;
    a.globalBeamSize = gleft;
    a.rightGbeamCheck = rcheck;
    a.rightGbeamSize = rsize;
    return a;
  }
};

// dictionary + core built in memory from a world
struct Model {
  World w;
  sp::AnalysisSpec spec;  // compiled specification (before import)
  core::dic::DictionaryBuilder builder;
  core::dic::DictionaryHolder dic;
  std::unique_ptr<core::CoreHolder> core;
  std::string csv;
  bool build(Ctx& c, const World& world, bool text = false) {
    w = world;
    WOK(c, buildSpec(c, w, &spec, text), "specification");
    csv = dicCsv(w);
    WOK(c, builder.importSpec(&spec), "importSpec");
    WOK(c, builder.importCsv("dic", csv), "importCsv");
    WOK(c, dic.load(builder.result()), "dictionary load");
    core.reset(new core::CoreHolder(builder.result().spec, dic));
    WOK(c, core->initialize(nullptr), "core init");
    return true;
  }
  const sp::AnalysisSpec& rspec() const { return builder.result().spec; }
};

struct Engine {
  const core::CoreHolder* core;
  Weights weights;
  an::HashedFeaturePerceptron hfp;
  an::ScorerDef sdef;
  std::unique_ptr<Analyzer> an;
  Beams beams;
  Engine(Ctx& c, const core::CoreHolder* co, const Weights& w, const Beams& b)
      : Engine(c, co, w, b, b.cfg()) {}
  Engine(Ctx& c, const core::CoreHolder* co, const Weights& w, const Beams& b, const an::AnalyzerConfig& cfg)
      : core(co), weights(w), hfp(util::ArraySlice<float>(weights.v)), beams(b) {
    sdef.feature = &hfp;
    sdef.scoreWeights.push_back(1.f);
    an.reset(new Analyzer(core, core::ScoringConfig{b.beam, 1}, cfg));
    WOK(c, an->initScorers(sdef), "initScorers");
  }
  Status lattice(const std::string& s) {
    Status r = an->resetForInput(s);
    if (!r) return r;
    r = an->prepareNodeSeeds();
    if (!r) return r;
    return an->buildLattice();
  }
  Status analyze(const std::string& s) {
    Status r = lattice(s);
    if (!r) return r;
    r = an->bootstrapAnalysis();
    if (!r) return r;
    return an->computeScores(&sdef);
  }
};

// reads any field of a located node as text
struct FieldReader {
  struct F {
    FieldKind kind;
    an::StringField s;
    an::IntField i;
    an::StringListField l;
    an::KVListField k;
  };
  const World* w;
  std::vector<std::unique_ptr<F>> f;
  FieldReader(Ctx& c, const World& world, const an::OutputManager& om) : w(&world) {
    for (auto& x : world.fields) {
      f.emplace_back(new F);
      auto& y = *f.back();
      y.kind = x.kind;
      switch (x.kind) {
        case FString: WOK(c, om.stringField(x.name, &y.s), "stringField " + x.name); break;
        case FInt: WOK(c, om.intField(x.name, &y.i), "intField " + x.name); break;
        case FList: WOK(c, om.stringListField(x.name, &y.l), "listField " + x.name); break;
        case FKv: WOK(c, om.kvListField(x.name, &y.k), "kvField " + x.name); break;
      }
    }
  }
  std::string get(int i, const an::NodeWalker& n) const {
    auto& y = *f[i];
    switch (y.kind) {
      case FString: return y.s[n].str();
      case FInt: return std::to_string(y.i[n]);
      case FList: {
        Strs v;
        auto it = y.l[n];
        StringPiece sp;
        while (it.next(&sp)) v.push_back(sp.str());
        std::sort(v.begin(), v.end());
        return "[" + join(v, "|") + "]";
      }
      case FKv: {
        Strs v;
        auto it = y.k[n];
        while (it.next()) v.push_back(it.key().str() + (it.hasValue() ? "=" + it.value().str() : ""));
        std::sort(v.begin(), v.end());
        return "{" + join(v, "|") + "}";
      }
    }
    return "";
  }
};
// what FieldReader must give for a cell of the source
inline std::string expectCell(const WField& f, const std::string& cell) {
  switch (f.kind) {
    case FString: return cell == f.empty ? "" : cell;
    case FInt: {
      if (cell.empty()) return "0";
      return std::to_string((int)strtol(cell.c_str(), 0, 10));
    }
    case FList: {
      if (cell.empty() || cell == f.empty) return "[]";
      Strs v = split(cell, " ");
      if (!v.empty() && v.back().empty()) v.pop_back();
      std::sort(v.begin(), v.end());
      return "[" + join(v, "|") + "]";
    }
    case FKv: {
      if (cell.empty() || cell == f.empty) return "{}";
      Strs v = split(cell, f.listSep);
      if (!v.empty() && v.back().empty()) v.pop_back();
      for (auto& x : v) {
        size_t p = x.find(f.kvSep);
        if (p != std::string::npos) x = x.substr(0, p) + "=" + x.substr(p + f.kvSep.size());
      }
      std::sort(v.begin(), v.end());
      return "{" + join(v, "|") + "}";
    }
  }
  return "";
}

struct LNode {
  int boundary = 0, pos = 0;
  int start = 0, end = 0;
  core::EntryPtr eptr = core::EntryPtr::Invalid();
  Strs first;                   // fields of the first entry
  std::vector<Strs> entries;    // fields of all entries of the node
  bool unk() const { return eptr.isSpecial(); }
};
inline std::vector<LNode> latticeNodes(Ctx& c, const World& w, Analyzer& a) {
  std::vector<LNode> r;
  auto om = a.output();
  FieldReader fr(c, w, om);
  auto walker = om.nodeWalker();
  auto L = a.lattice();
  for (int b = 2; b + 1 < (int)L->createdBoundaryCount(); ++b) {
    auto st = L->boundary(b)->starts();
    for (int i = 0; i < (int)st->nodeInfo().size(); ++i) {
      LNode n;
      n.boundary = b;
      n.pos = i;
      auto& ni = st->nodeInfo().at(i);
      n.start = ni.start();
      n.end = ni.end();
      n.eptr = ni.entryPtr();
      PCHECK(c, om.locate(an::LatticeNodePtr{(u16)b, (u16)i}, &walker), "node of the lattice cannot be located " << b << "," << i);
      while (walker.next()) {
        Strs e;
        for (int f = 0; f < (int)w.fields.size(); ++f) e.push_back(fr.get(f, walker));
        n.entries.push_back(e);
      }
      PCHECK(c, !n.entries.empty(), "a node has no entries");
      n.first = n.entries[0];
      r.push_back(n);
    }
  }
  return r;
}
}  // namespace w
