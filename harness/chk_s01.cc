// S01: the specification language means the same however it is written
#include "core/spec/spec_serialization.h"
#include "util/coded_io.h"
#include "world.h"
#include <unistd.h>
using namespace w;

namespace {
typedef std::vector<std::string> Toks;
struct Stmt {
  char kind;  // f field, t feature, n ngram, u unk, r train
  int idx;
  Toks t;
};
std::string qt(const std::string& s) { return q(s); }

// statements of a world as token lists, with optional tokens chosen at random
std::vector<Stmt> statements(Ctx& c, const World& w, bool vary, std::map<std::string, std::string>* files) {
  std::vector<Stmt> r;
  static const char* kinds[] = {"string", "int", "string_list", "kv_list"};
  auto num = [&](int n) {
    std::string s = std::to_string(std::abs(n));
    if (vary && c.chance(1, 8)) s = "0" + s;
    return (n < 0 ? "-" : "") + s;
  };
  auto list = [&](const std::vector<int>& v) {
    Toks t = {"["};
    for (size_t i = 0; i < v.size(); ++i) {
      if (i) t.push_back(",");
      t.push_back(w.fields[v[i]].name);
    }
    t.push_back("]");
    return t;
  };
  auto app = [](Toks& a, const Toks& b) { a.insert(a.end(), b.begin(), b.end()); };
  for (int i = 0; i < (int)w.fields.size(); ++i) {
    auto& f = w.fields[i];
    Stmt s{'f', i, {"field", num(f.col), f.name, kinds[f.kind]}};
    std::vector<Toks> flags;
    if (f.trie) flags.push_back({"trie_index"});
    if (!f.empty.empty()) flags.push_back({"empty", qt(f.empty)});
    else if (vary && f.kind != FInt && c.chance(1, 12)) flags.push_back({"empty", "\"\""});
    if (f.storage >= 0) flags.push_back({"storage", w.fields[f.storage].name});
    if (f.align) flags.push_back({"align", num(f.align)});
    if (f.listSep != " " || (vary && c.chance(1, 12))) flags.push_back({"list_sep", qt(f.listSep)});
    if (f.kvSep != ":" || (vary && c.chance(1, 12))) flags.push_back({"kv_sep", qt(f.kvSep)});
    while (!flags.empty()) {
      size_t k = vary ? c.choose(flags.size()) : 0;
      app(s.t, flags[k]);
      flags.erase(flags.begin() + k);
    }
    r.push_back(s);
  }
  for (int i = 0; i < (int)w.features.size(); ++i) {
    auto& f = w.features[i];
    Stmt s{'t', i, {"feature", f.name}};
    if (!vary || !c.chance(1, 4)) s.t.push_back("=");
    switch (f.kind) {
      case Placeholder: s.t.push_back("placeholder"); break;
      case Codepoint: app(s.t, {"codepoint", num(f.arg)}); break;
      case CodepointType: app(s.t, {"codepoint_type", num(f.arg)}); break;
      case NumCodepoints: app(s.t, {"num_codepoints", w.fields[f.fields[0]].name}); break;
      case NumBytes: app(s.t, {"num_bytes", w.fields[f.fields[0]].name}); break;
      case Match: {
        s.t.push_back("match");
        if (f.fields.size() == 1 && !(vary && c.chance(1, 3)))
          s.t.push_back(w.fields[f.fields[0]].name);
        else
          app(s.t, list(f.fields));
        s.t.push_back("with");
        std::string data = matchText(f);
        if (vary && files && !data.empty() && c.chance(1, 4)) {
          std::string fn = "match" + std::to_string(files->size()) + ".csv";
          (*files)[fn] = data;
          app(s.t, {"file", qt(fn)});
        } else
          s.t.push_back(qt(data));
        if (!f.thenF.empty()) {
          s.t.push_back("then");
          app(s.t, list(f.thenF));
          s.t.push_back("else");
          app(s.t, list(f.elseF));
        }
        break;
      }
    }
    r.push_back(s);
  }
  for (int i = 0; i < (int)w.ngrams.size(); ++i) {
    Stmt s{'n', i, {"ngram"}};
    for (auto& p : w.ngrams[i].parts) {
      s.t.push_back("[");
      for (size_t j = 0; j < p.size(); ++j) {
        if (j) s.t.push_back(",");
        s.t.push_back(p[j]);
      }
      s.t.push_back("]");
    }
    r.push_back(s);
  }
  static const char* unks[] = {"single", "chunking", "onomatopeia", "numeric", "normalize"};
  for (int i = 0; i < (int)w.unks.size(); ++i) {
    auto& u = w.unks[i];
    Stmt s{'u', i, {"unk", u.name, "template row", num(u.row)}};
    if (!vary || !c.chance(1, 3)) s.t.push_back(":");
    s.t.push_back(unks[u.kind]);
    if (u.kind != Normalize)
      for (size_t j = 0; j < u.classes.size(); ++j) {
        if (j) s.t.push_back("|");
        std::string n = u.classes[j];
        if (vary && c.chance(1, 4))
          for (auto& ch : n)
            if (c.chance(2, 3)) ch = (char)tolower(ch);
        s.t.push_back(n);
      }
    std::vector<Toks> flags;
    if (!u.featureTo.empty()) flags.push_back({"feature to", u.featureTo});
    if (!u.surfaceTo.empty()) {
      flags.push_back({"surface to"});
      app(flags.back(), list(u.surfaceTo));
    }
    if (flags.size() == 2 && vary && c.chance(1, 2)) std::swap(flags[0], flags[1]);
    for (auto& x : flags) app(s.t, x);
    r.push_back(s);
  }
  if (!w.train.empty()) {
    Stmt s{'r', 0, {"train"}};
    if (!vary || !c.chance(1, 4)) s.t.push_back("loss");
    for (size_t i = 0; i < w.train.size(); ++i) {
      if (i) s.t.push_back(",");
      s.t.push_back(w.fields[w.train[i].first].name);
      if (vary && c.chance(1, 4)) s.t.push_back(":");
      float v = w.train[i].second;
      std::string x = vary && c.chance(1, 2) && v == (int)v ? std::to_string((int)v) : fmtFloat(v);
      if (vary && c.chance(1, 6)) x = "+" + x;
      s.t.push_back(x);
    }
    for (auto& a : w.aliases) {
      app(s.t, {"unk_gold_if", w.fields[a.source].name, "[", qt(a.key), "]", "==", w.fields[a.target].name});
    }
    r.push_back(s);
  }
  return r;
}
bool wordy(char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '+' || ch == '-' || ch == '.'; }
bool keyword(const std::string& t) {
  static const std::set<std::string> k = {"field", "string", "int", "string_list", "kv_list", "trie_index", "empty", "storage", "align", "list_sep", "kv_sep", "feature", "placeholder", "codepoint", "codepoint_type", "num_codepoints", "num_bytes", "match", "with", "file", "then", "else", "ngram", "unk", "template row", "single", "chunking", "onomatopeia", "numeric", "normalize", "feature to", "surface to", "train", "loss", "unk_gold_if"};
  return k.count(t) > 0;
}
std::string blank(Ctx& c) {
  std::string s;
  int n = c.range(1, 3);
  for (int i = 0; i < n; ++i) s += c.oneOf<std::string>({" ", "\n", "\t", "  ", "\r\n"});
  return s;
}
std::string comment(Ctx& c) {
  return "#" + c.oneOf<std::string>({"", " note", " field 9 zz string", " \"quote", " # again", u8" 注釈", "[,]="}) + (c.chance(1, 4) ? "\r\n" : "\n");
}
std::string between(Ctx& c, bool needed, bool vary) {
  if (!vary) return " ";
  std::string s;
  if (needed || c.chance(1, 2)) s += c.chance(3, 4) ? std::string(" ") : blank(c);
  if (c.chance(1, 12)) {
    s += comment(c);
    if (c.chance(1, 2)) s += blank(c);
  }
  return s;
}
// vary: any legal layout
std::string render(Ctx& c, const std::vector<Stmt>& st, bool vary, bool* comments = nullptr) {
  std::string o;
  std::set<std::string> names;
  for (auto& s : st)
    if (s.kind == 'f' && s.t.size() > 2) names.insert(s.t[2]);
  if (vary && c.chance(1, 4)) o += c.chance(1, 2) ? blank(c) : comment(c);
  for (auto& s : st) {
    for (size_t i = 0; i < s.t.size(); ++i) {
      std::string t = s.t[i];
      // field names and the like are never upper-cased: only keywords are
      bool isName = i > 0 && (s.t[i - 1] == "[" || s.t[i - 1] == "," || (i == 2 && s.kind == 'f') || (i == 1 && s.kind != 'r'));
      if (vary && !isName && !names.count(t) && keyword(t) && c.chance(1, 8))
        for (auto& ch : t)
          if (c.chance(2, 3)) ch = (char)toupper(ch);
      if (i) o += between(c, wordy(o.empty() ? ' ' : o.back()) && wordy(t[0]), vary);
      o += t;
    }
    if (!vary) {
      o += "\n";
      continue;
    }
    int k = c.weighted({6, 1, 1, 1});
    if (k == 0) o += "\n";
    if (k == 1) o += " " + comment(c);
    if (k == 2) o += blank(c) + comment(c) + comment(c) + blank(c);
    if (k == 3) o += "  \n\n";
  }
  if (vary && c.chance(1, 4)) {
    while (!o.empty() && (o.back() == '\n' || o.back() == ' ' || o.back() == '\r')) {
      // a comment at the very end keeps its line end
      size_t b = o.find_last_of('\n', o.size() - 2);
      if (o.substr(b == std::string::npos ? 0 : b).find('#') != std::string::npos) break;
      o.pop_back();
    }
  }
  if (comments) *comments = o.find('#') != std::string::npos;
  return o;
}
// random order of clauses of different kinds; definitions stay before uses and the order inside a kind is kept
std::vector<Stmt> interleave(Ctx& c, const World& w, std::vector<Stmt> st) {
  std::map<char, std::vector<Stmt>> q;
  std::string kinds;
  for (auto& s : st) {
    if (!q.count(s.kind)) kinds += s.kind;
    q[s.kind].push_back(s);
  }
  std::set<std::string> defined;
  std::vector<Stmt> r;
  std::set<std::string> names;
  for (auto& f : w.fields) names.insert(f.name);
  for (auto& f : w.features) names.insert(f.name);
  while (r.size() < st.size()) {
    std::vector<char> ready;
    for (char k : kinds) {
      if (q[k].empty()) continue;
      auto& s = q[k][0];
      bool ok = true;
      for (size_t i = 0; i < s.t.size(); ++i) {
        if ((s.kind == 'f' && i == 2) || (s.kind == 't' && i == 1)) continue;
        if (names.count(s.t[i]) && !defined.count(s.t[i])) ok = false;
      }
      if (ok) ready.push_back(k);
    }
    if (ready.empty()) c.fail("internal: no statement can be placed");
    char k = c.pick(ready);
    Stmt s = q[k][0];
    q[k].erase(q[k].begin());
    if (k == 'f') defined.insert(s.t[2]);
    if (k == 't') defined.insert(s.t[1]);
    r.push_back(s);
  }
  return r;
}
Status parse(Ctx& c, const std::string& text, const std::map<std::string, std::string>& files, sp::AnalysisSpec* out) {
  std::string fn = pbt::scratchFile(c, "s01.spec");
  unlink(fn.c_str());
  pbt::writeFile(fn, text);
  for (auto& f : files) {
    std::string n = pbt::scratchFile(c, f.first);
    unlink(n.c_str());
    pbt::writeFile(n, f.second);
  }
  return sp::parseFromFile(fn, out);
}
std::string saved(const sp::AnalysisSpec& s) {
  util::CodedBuffer b;
  sp::saveSpec(s, &b);
  return b.contents().str();
}

// everything that a specification says, written out
template <typename T>
std::string L(const std::vector<T>& v) {
  std::ostringstream o;
  o << "[";
  for (auto& x : v) o << x << ";";
  o << "]";
  return o.str();
}
std::string dump(const sp::AnalysisSpec& s) {
  std::ostringstream o;
  for (auto& f : s.dictionary.fields)
    o << "field " << f.specIndex << " " << f.position << " " << f.dicIndex << " " << quote(f.name) << " " << f.isTrieKey << " " << (int)f.fieldType << " " << quote(f.emptyString) << " " << quote(f.listSeparator) << " " << quote(f.kvSeparator) << " " << f.stringStorage << " " << f.intStorage << " " << f.alignment << "\n";
  o << "alias " << L(s.dictionary.aliasingSet) << " index " << s.dictionary.indexColumn << " ints " << s.dictionary.numIntStorage << " strings " << s.dictionary.numStringStorage << "\n";
  for (auto& f : s.features.dictionary) o << "dic " << f.index << " " << f.target << " " << f.shift << " " << quote(f.name) << " " << (int)f.kind << " " << L(f.references) << "\n";
  for (auto& f : s.features.primitive) {
    o << "primitive " << f.index << " " << quote(f.name) << " " << (int)f.kind << " " << L(f.references);
    for (auto& m : f.matchData) o << " " << quote(m);
    o << "\n";
  }
  for (auto& f : s.features.computation) o << "compute " << quote(f.name) << " " << f.index << " " << f.primitiveFeature << " " << L(f.trueBranch) << " " << L(f.falseBranch) << "\n";
  for (auto& f : s.features.pattern) o << "pattern " << f.index << " " << f.usage << " " << L(f.references) << "\n";
  for (auto& f : s.features.ngram) o << "ngram " << f.index << " " << L(f.references) << "\n";
  o << s.features.numPlaceholders << " " << s.features.totalPrimitives << " " << s.features.numDicFeatures << " " << s.features.numDicData << " " << s.features.numUniOnlyPats << "\n";
  for (auto& u : s.unkCreators) {
    o << "unk " << u.index << " " << quote(u.name) << " " << (int)u.type << " " << u.patternRow << " " << u.patternPtr << " " << u.priority << " " << (int)u.charClass << " " << L(u.replaceFields);
    for (auto& f : u.features) o << " " << f.targetPlaceholder << "/" << (int)f.featureType;
    o << "\n";
  }
  o << "train " << s.training.surfaceIdx;
  for (auto& t : s.training.fields) o << " " << t.number << "/" << t.fieldIdx << "/" << t.dicIdx << "/" << t.weight;
  for (auto& t : s.training.allowedUnk) o << " " << t.targetField << "/" << t.sourceField << "/" << quote(t.sourceKey);
  o << "\n";
  return o.str();
}
std::string firstDiffLine(const std::string& a, const std::string& b) {
  std::istringstream x(a), y(b);
  std::string l, m;
  for (int n = 0;; ++n) {
    bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m);
    if (!p) l = "(end)";
    if (!q) m = "(end)";
    if (l != m || !p || !q) return "\n   " + l + "\n   " + m;
  }
}
std::string matchRows(const WFeature& f) { return matchText(f); }

// the compiled specification says what the world says
void declared(Ctx& c, const World& w, const sp::AnalysisSpec& s) {
  static const sp::FieldType ft[] = {sp::FieldType::String, sp::FieldType::Int, sp::FieldType::StringList, sp::FieldType::StringKVList};
  PCHECK(c, s.dictionary.fields.size() >= w.fields.size(), "fields are missing");
  for (size_t i = 0; i < w.fields.size(); ++i) {
    auto& f = w.fields[i];
    auto& g = s.dictionary.fields[i];
    PEQ(c, g.name, f.name, "field " << i);
    PEQ(c, g.position, f.col, "column of " << f.name);
    PCHECK(c, g.fieldType == ft[f.kind], "type of " << f.name);
    PEQ(c, g.isTrieKey, f.trie, f.name);
    PEQ(c, g.emptyString, f.empty, f.name);
    PEQ(c, g.listSeparator, f.listSep, f.name);
    PEQ(c, g.kvSeparator, f.kvSep, f.name);
    int st = f.storage >= 0 ? f.storage : (int)i;
    if (f.kind != FInt) PEQ(c, g.alignment, w.fields[st].align, "alignment of " << f.name);
    for (size_t j = 0; j < i; ++j) {
      if (f.kind == FInt || w.fields[j].kind == FInt) continue;
      int sj = w.fields[j].storage >= 0 ? w.fields[j].storage : (int)j;
      PEQ(c, g.stringStorage == s.dictionary.fields[j].stringStorage, st == sj, "shared storage of " << f.name << " and " << w.fields[j].name);
    }
  }
  PEQ(c, s.dictionary.indexColumn, w.trieField(), "indexed field");
  std::set<int> al(s.dictionary.aliasingSet.begin(), s.dictionary.aliasingSet.end());
  std::set<int> wantAl = w.aliasSet();
  PCHECK(c, al == wantAl, "aliasing set is " << L(s.dictionary.aliasingSet));
  // n-grams by name
  std::vector<WNgram> ng = w.ngrams;
  std::stable_sort(ng.begin(), ng.end(), [](const WNgram& a, const WNgram& b) { return a.parts.size() < b.parts.size(); });
  PEQ(c, s.features.ngram.size(), ng.size(), "number of n-grams");
  for (size_t i = 0; i < ng.size(); ++i) {
    auto& r = s.features.ngram[i].references;
    PEQ(c, r.size(), ng[i].parts.size(), "order of n-gram " << i);
    for (size_t j = 0; j < r.size(); ++j) {
      auto& pat = s.features.pattern.at(r[j]);
      Strs names;
      for (int x : pat.references) names.push_back(s.features.primitive.at(x).name);
      // the compiled form starts at the current word
      PEQ(c, join(names, ","), join(ng[i].parts[r.size() - 1 - j], ","), "part " << j << " of n-gram " << i);
    }
  }
  auto prim = [&](const std::string& n) -> const sp::PrimitiveFeatureDescriptor* {
    for (auto& p : s.features.primitive)
      if (p.name == n) return &p;
    return nullptr;
  };
  for (auto& f : w.features) {
    auto p = prim(f.name);
    PCHECK(c, p, "feature " << f.name << " is missing");
    using K = sp::PrimitiveFeatureKind;
    auto dicIdx = [&](int i) { return s.dictionary.fields[i].dicIndex; };
    switch (f.kind) {
      case Placeholder: PCHECK(c, p->kind == K::Provided, f.name); break;
      case Codepoint: PCHECK(c, p->kind == K::Codepoint && p->references.at(0) == f.arg, f.name); break;
      case CodepointType: PCHECK(c, p->kind == K::CodepointType && p->references.at(0) == f.arg, f.name); break;
      case NumBytes: PCHECK(c, p->kind == K::ByteLength && p->references.at(0) == dicIdx(f.fields[0]), f.name); break;
      case NumCodepoints:
        PCHECK(c, w.fields[f.fields[0]].trie ? p->kind == K::SurfaceCodepointSize : (p->kind == K::CodepointSize && p->references.at(0) == dicIdx(f.fields[0])), f.name);
        break;
      case Match: {
        PCHECK(c, p->kind == K::SingleBit, f.name);
        bool found = false;
        for (auto& d : s.features.dictionary)
          if (d.name == f.name) {
            found = true;
            PCHECK(c, d.references == f.fields || (d.references.size() == f.fields.size()), "fields of " << f.name);
            bool list = w.fields[f.fields[0]].kind >= FList;
            PCHECK(c, d.kind == (list ? sp::DicImportKind::MatchListKey : sp::DicImportKind::MatchFields), "kind of " << f.name);
            for (size_t i = 0; i < f.fields.size(); ++i) PEQ(c, d.references[i], f.fields[i], "field " << i << " of " << f.name);
            std::set<std::string> have(d.data.begin(), d.data.end()), want;
            for (auto& row : split(matchRows(f), "\n")) want.insert(row);
            if (have != want) {
              std::string a = join(Strs(have.begin(), have.end()), "|"), b = join(Strs(want.begin(), want.end()), "|");
              c.fail("match data of " + f.name + " are " + quote(a) + " instead of " + quote(b));
            }
          }
        PCHECK(c, found, f.name);
        auto& cf = s.features.computation.at(p->index);
        auto names = [&](const std::vector<i32>& v) {
          Strs r;
          for (int x : v) r.push_back(s.features.primitive.at(x).name);
          return join(r, ",");
        };
        auto want = [&](const std::vector<int>& v) {
          Strs r;
          for (int x : v) r.push_back(w.fields[x].name);
          return join(r, ",");
        };
        PEQ(c, names(cf.trueBranch), want(f.thenF), "then-branch of " << f.name);
        PEQ(c, names(cf.falseBranch), want(f.elseF), "else-branch of " << f.name);
        break;
      }
    }
  }
  PEQ(c, s.unkCreators.size(), w.unks.size(), "number of unknown word rules");
  static const sp::UnkMakerType ut[] = {sp::UnkMakerType::Single, sp::UnkMakerType::Chunking, sp::UnkMakerType::Onomatopoeia, sp::UnkMakerType::Numeric, sp::UnkMakerType::Normalize};
  for (size_t i = 0; i < w.unks.size(); ++i) {
    auto& u = w.unks[i];
    auto& g = s.unkCreators[i];
    PEQ(c, g.name, u.name, "rule " << i);
    PCHECK(c, g.type == ut[u.kind], "type of rule " << u.name);
    PEQ(c, g.patternRow, u.row, "template of rule " << u.name);
    PEQ(c, g.priority, u.low ? 1 : 0, "priority of rule " << u.name);
    if (u.kind != Normalize) PEQ(c, (int)g.charClass, u.cls, "character class of rule " << u.name);
    PEQ(c, g.replaceFields.size(), u.surfaceTo.size(), "replaced fields of " << u.name);
    for (size_t j = 0; j < u.surfaceTo.size(); ++j) PEQ(c, g.replaceFields[j], s.dictionary.fields[u.surfaceTo[j]].dicIndex, "replaced field of " << u.name);
    PEQ(c, g.features.size(), size_t(u.featureTo.empty() ? 0 : 1), "features of " << u.name);
    if (!u.featureTo.empty()) {
      PEQ(c, g.features[0].targetPlaceholder, prim(u.featureTo)->references.at(0), "placeholder of " << u.name);
    }
  }
  PEQ(c, s.training.fields.size(), w.train.size(), "training fields");
  for (size_t i = 0; i < w.train.size(); ++i) {
    PEQ(c, s.training.fields[i].fieldIdx, w.train[i].first, "training field " << i);
    PEQ(c, s.training.fields[i].weight, w.train[i].second, "training weight " << i);
  }
  PEQ(c, s.training.allowedUnk.size(), w.aliases.size(), "unk_gold_if");
  for (size_t i = 0; i < w.aliases.size(); ++i) {
    PEQ(c, s.training.allowedUnk[i].targetField, w.aliases[i].target, "unk_gold_if");
    PEQ(c, s.training.allowedUnk[i].sourceField, w.aliases[i].source, "unk_gold_if");
    PEQ(c, s.training.allowedUnk[i].sourceKey, w.aliases[i].key, "unk_gold_if");
  }
}

World genTextWorld(Ctx& c) {
  GenOpts o;
  o.train = c.chance(1, 2);
  o.lowPriority = false;
  o.maxRows = 3;
  World w = genWorld(c, o);
  if (!w.train.empty()) {
    for (int i = 0; i < (int)w.fields.size(); ++i)
      if (w.fields[i].kind == FKv && c.chance(2, 3)) w.aliases.push_back({w.trieField(), i, c.oneOf<std::string>({"k1", "k2", u8"鍵", "a b"})});
    for (auto& t : w.train)
      if (t.second != 0 && c.chance(1, 4)) t.second += 0.5f;
  }
  // specifications only: names may look like keywords
  if (c.chance(1, 4)) {
    static const Strs names = {"field1", "string", "ngram_", "empty", "unk", "row", "lost", "Storage", "X", "_a", "match"};
    for (int k = 0; k < 2; ++k) {
      int i = (int)c.choose(w.fields.size());
      std::string n = c.pick(names), old = w.fields[i].name;
      if (w.fieldIdx(n) >= 0 || w.featIdx(n) >= 0) continue;
      w.fields[i].name = n;
      for (auto& g : w.ngrams)
        for (auto& p : g.parts)
          for (auto& x : p)
            if (x == old) x = n;
    }
  }
  if (!textable(w)) c.discard();
  return w;
}
std::string showFiles(const std::map<std::string, std::string>& f) {
  std::string r;
  for (auto& x : f) r += "--- file " + x.first + "\n" + x.second + "\n";
  return r;
}

void layouts(Ctx& c) {
  World w = genTextWorld(c);
  DslSpec d;
  d.w = w;
  sp::AnalysisSpec a, b;
  WOK(c, d.build(&a), "specification built with the programming interface");
  declared(c, w, a);
  std::map<std::string, std::string> files;
  auto st = statements(c, w, true, &files);
  bool mixed = c.chance(2, 3);
  for (auto& f : w.fields) mixed &= f.name == "surf" || f.name[0] == 'f';
  if (mixed) st = interleave(c, w, st);
  bool comments = false;
  std::string text = render(c, st, true, &comments);
  c.describe(text + showFiles(files));
  WOK(c, parse(c, text, files, &b), "parsing of the text");
  std::string x = dump(a), y = dump(b);
  // pattern numbers etc. must be the same as well: compare everything
  if (x != y) c.fail("the text means another specification:" + firstDiffLine(x, y));
  PCHECK(c, saved(a) == saved(b), "stored forms differ");
  declared(c, w, b);
  c.labelIf(comments, "comments");
  c.labelIf(mixed, "clauses interleaved");
  c.labelIf(!files.empty(), "match data in a file");
  c.labelIf(!w.unks.empty(), "unknown word rules");
  c.labelIf(!w.train.empty(), "train clause");
  c.labelIf(!w.aliases.empty(), "unk_gold_if");
  c.nontrivial(w.fields.size() > 1 && w.ngrams.size() > 1);
}

void stored(Ctx& c) {
  World w = genTextWorld(c);
  c.describe(specText(w));
  DslSpec d;
  d.w = w;
  sp::AnalysisSpec a, b;
  WOK(c, d.build(&a), "specification");
  bool dic = c.chance(1, 2);
  core::dic::DictionaryBuilder builder;
  if (dic) {
    WOK(c, builder.importSpec(&a), "importSpec");
    WOK(c, builder.importCsv("dic", dicCsv(w)), "importCsv");
    a = builder.result().spec;
  }
  std::string s = saved(a);
  PCHECK(c, sp::loadSpec(s, &b), "a stored specification cannot be loaded");
  std::string x = dump(a), y = dump(b);
  if (x != y) c.fail("stored specification differs:" + firstDiffLine(x, y));
  PCHECK(c, saved(b) == s, "second storing gives other bytes");
  // damaged: refused or at least read without harm
  std::string t = s.substr(0, c.choose(s.size()));
  sp::AnalysisSpec e;
  PCHECK(c, !sp::loadSpec(t, &e), "a truncated specification was loaded");
  std::string u = s;
  int n = c.range(1, 3);
  for (int i = 0; i < n; ++i) u[c.choose(u.size())] = (char)c.bits(8);
  sp::AnalysisSpec f;
  sp::loadSpec(u, &f);
  c.labelIf(dic, "of a built dictionary");
  c.nontrivial(w.fields.size() > 1 && w.ngrams.size() > 1);
}

// one thing is wrong
void invalid(Ctx& c) {
  World w = genTextWorld(c);
  std::map<std::string, std::string> files;
  auto st = statements(c, w, false, &files);
  auto find = [&](char kind, std::function<bool(const Stmt&)> ok) {
    std::vector<int> v;
    for (int i = 0; i < (int)st.size(); ++i)
      if (st[i].kind == kind && ok(st[i])) v.push_back(i);
    if (v.empty()) c.discard();
    return v[c.choose(v.size())];
  };
  auto any = [](const Stmt&) { return true; };
  auto add = [&](Toks t, bool first = false) {
    Stmt s{'x', 0, t};
    if (first) st.insert(st.begin(), s);
    else st.push_back(s);
  };
  std::string fname = w.fields[c.choose(w.fields.size())].name;
  std::string surf = w.fields[w.trieField()].name;
  auto fieldOf = [&](std::function<bool(const WField&)> p) -> int {
    std::vector<int> v;
    for (int i = 0; i < (int)w.fields.size(); ++i)
      if (p(w.fields[i])) v.push_back(i);
    if (v.empty()) c.discard();
    return v[c.choose(v.size())];
  };
  auto rmTok = [&](Toks& t, size_t i) { t.erase(t.begin() + i); };
  auto pos = [&](const Toks& t, const std::string& x) { return std::find(t.begin(), t.end(), x) - t.begin(); };
  std::string what;
  int newCol = 90;
  int k = (int)c.choose(56);
  switch (k) {
    case 0: what = "num_bytes of an unknown field"; add({"feature", "zz", "=", "num_bytes", "nosuch"}); add({"ngram", "[", "zz", "]"}); break;
    case 1: what = "num_codepoints of an unknown field"; add({"feature", "zz", "=", "num_codepoints", "nosuch"}); add({"ngram", "[", "zz", "]"}); break;
    case 2: what = "match of an unknown field"; add({"feature", "zz", "=", "match", "nosuch", "with", "\"x\""}); add({"ngram", "[", "zz", "]"}); break;
    case 3: what = "match of a list with an unknown field"; add({"feature", "zz", "=", "match", "[", surf, ",", "nosuch", "]", "with", "\"x,y\""}); add({"ngram", "[", "zz", "]"}); break;
    case 4: what = "then-branch with an unknown field"; add({"feature", "zz", "=", "match", surf, "with", "\"x\"", "then", "[", "nosuch", "]", "else", "[", surf, "]"}); add({"ngram", "[", "zz", "]"}); break;
    case 5: what = "else-branch with an unknown field"; add({"feature", "zz", "=", "match", surf, "with", "\"x\"", "then", "[", surf, "]", "else", "[", "nosuch", "]"}); add({"ngram", "[", "zz", "]"}); break;
    case 6: what = "storage of an unknown field"; add({"field", std::to_string(newCol), "zz", "string", "storage", "nosuch"}); break;
    case 7: what = "surface to an unknown field"; add({"unk", "zz", "template row", "1", ":", "single", "KANJI", "surface to", "[", "nosuch", "]"}); break;
    case 8: what = "feature to an unknown feature"; add({"unk", "zz", "template row", "1", ":", "single", "KANJI", "feature to", "nosuch"}); break;
    case 9: what = "train with an unknown field"; st.erase(std::remove_if(st.begin(), st.end(), [](const Stmt& s) { return s.kind == 'r'; }), st.end()); add({"train", "loss", surf, "1", ",", "nosuch", "1"}); break;
    case 10: what = "n-gram of an unknown name"; add({"ngram", "[", surf, ",", "nosuch", "]"}); break;
    case 11: what = "bigram of an unknown name"; add({"ngram", "[", surf, "]", "[", "nosuch", "]"}); break;
    case 12: what = "two fields of the same name"; add({"field", std::to_string(newCol), fname, "string"}); break;
    case 13: what = "a feature with the name of a field"; add({"feature", fname, "=", "placeholder"}); break;
    case 14: {
      what = "two features of the same name";
      int i = find('t', any);
      std::string n = st[i].t[1];
      st.insert(st.begin() + i + 1, Stmt{'x', 0, {"feature", n, "=", "codepoint", "5"}});
      break;
    }
    case 15: what = "two fields with the same column"; add({"field", std::to_string(w.fields[c.choose(w.fields.size())].col), "zz", "string"}); break;
    case 16: what = "column 0"; add({"field", "0", "zz", "string"}); break;
    case 17: what = "no indexed field"; { auto& t = st[find('f', [&](const Stmt& s) { return w.fields[s.idx].trie; })].t; rmTok(t, pos(t, "trie_index")); } break;
    case 18: what = "two indexed fields"; add({"field", std::to_string(newCol), "zz", "string", "trie_index"}); break;
    case 19: what = "an indexed field which is not a string"; { auto& t = st[find('f', [&](const Stmt& s) { return w.fields[s.idx].trie; })].t; t[3] = c.oneOf<std::string>({"int", "string_list", "kv_list"}); } break;
    case 20: what = "empty value of an integer field"; add({"field", std::to_string(newCol), "zz", "int", "empty", "\"x\""}); break;
    case 21: what = "storage of an integer field"; add({"field", std::to_string(newCol), "zz", "int", "storage", surf}); break;
    case 22: what = "storage and alignment"; add({"field", std::to_string(newCol), "zz", "string", "storage", surf, "align", "2"}); break;
    case 23: what = "codepoint 0"; add({"feature", "zz", "=", "codepoint", "0"}); add({"ngram", "[", "zz", "]"}); break;
    case 24: what = "then-branch without else-branch"; add({"feature", "zz", "=", "match", surf, "with", "\"x\"", "then", "[", surf, "]"}); add({"ngram", "[", "zz", "]"}); break;
    case 25: what = "empty list"; add({"ngram", "[", "]"}); break;
    case 26: what = "list without closing bracket"; add({"ngram", "[", surf}); break;
    case 27: what = "n-gram of four words"; add({"ngram", "[", surf, "]", "[", surf, "]", "[", surf, "]", "[", surf, "]"}); break;
    case 28: what = "n-gram without words"; add({"ngram"}); break;
    case 29: what = "template row 0"; add({"unk", "zz", "template row", "0", ":", "single", "KANJI"}); break;
    case 30: what = "negative template row"; add({"unk", "zz", "template row", c.oneOf<std::string>({"-1", "-2", "-7"}), ":", "single", "KANJI"}); break;
    case 31: what = "rule without character class"; add({"unk", "zz", "template row", "1", ":", c.oneOf<std::string>({"single", "chunking", "numeric", "onomatopeia"})}); break;
    case 32: what = "unknown character class"; add({"unk", "zz", "template row", "1", ":", "single", c.oneOf<std::string>({"KANJ", "KANJII", "FAMILY", "XX"})}); break;
    case 33: what = "unknown character class in a combination"; add({"unk", "zz", "template row", "1", ":", "single", "KANJI", "|", "NOSUCH"}); break;
    case 34: what = "unknown kind of rule"; add({"unk", "zz", "template row", "1", ":", "sngle", "KANJI"}); break;
    case 35: what = "misspelled statement"; { auto& s = st[c.choose(st.size())]; s.t[0] = s.t[0].substr(0, s.t[0].size() - 1) + "q"; } break;
    case 36: what = "trailing garbage"; { std::string g = c.oneOf<std::string>({"x", ";", "]", "\"", "1", "==", "\xff"}); add({g}); } break;
    case 37: what = "unterminated quote"; add({"field", std::to_string(newCol), "zz", "string", "empty", "\"abc"}); break;
    case 38: what = "unknown field type"; st[find('f', any)].t[3] = c.oneOf<std::string>({"strin", "float", "list", "integer"}); if (0) break; break;
    case 39: what = "match data in a missing file"; add({"feature", "zz", "=", "match", surf, "with", "file", "\"missing.csv\""}); add({"ngram", "[", "zz", "]"}); break;
    case 40: what = "a list field in an n-gram"; { int f = fieldOf([](const WField& x) { return x.kind >= FList; }); add({"ngram", "[", w.fields[f].name, "]"}); } break;
    case 41: what = "surface to a field which is not a string"; { int f = fieldOf([](const WField& x) { return x.kind != FString; }); add({"unk", "zz", "template row", "1", ":", "single", "KANJI", "surface to", "[", w.fields[f].name, "]"}); } break;
    case 42: what = "feature to a feature which is no placeholder"; { std::vector<std::string> v; for (auto& f : w.features) if (f.kind != Placeholder) v.push_back(f.name); if (v.empty()) c.discard(); add({"unk", "zz", "template row", "1", ":", "single", "KANJI", "feature to", v[c.choose(v.size())]}); } break;
    case 43: what = "feature to a field"; add({"unk", "zz", "template row", "1", ":", "single", "KANJI", "feature to", surf}); break;
    case 44: what = "match of an integer field"; { int f = fieldOf([](const WField& x) { return x.kind == FInt; }); add({"feature", "zz", "=", "match", w.fields[f].name, "with", "\"1\""}); add({"ngram", "[", "zz", "]"}); } break;
    case 45: what = "match of several fields with a list"; { int f = fieldOf([](const WField& x) { return x.kind >= FList; }); add({"feature", "zz", "=", "match", "[", surf, ",", w.fields[f].name, "]", "with", "\"x,y\""}); add({"ngram", "[", "zz", "]"}); } break;
    case 46: {
      what = "use before definition";
      int i = find('t', [](const Stmt& s) { return s.t[3] == "num_bytes" || s.t[3] == "num_codepoints"; });
      std::string n = st[i].t[4];
      int j = find('f', [&](const Stmt& s) { return s.t[2] == n; });
      Stmt x = st[j];
      st.erase(st.begin() + j);
      st.push_back(x);
      break;
    }
    case 47: what = "training without the indexed field"; st.erase(std::remove_if(st.begin(), st.end(), [](const Stmt& s) { return s.kind == 'r'; }), st.end()); { auto ff = w.featureFields(); int f = fieldOf([&](const WField& x) { return !x.trie && x.kind <= FInt && ff.count(w.fieldIdx(x.name)); }); add({"train", "loss", w.fields[f].name, "1"}); } break;
    case 48: what = "unk_gold_if of a field which is not a key-value list"; { int f = fieldOf([](const WField& x) { return x.kind != FKv; }); st.erase(std::remove_if(st.begin(), st.end(), [](const Stmt& s) { return s.kind == 'r'; }), st.end()); add({"train", "loss", surf, "1", "unk_gold_if", w.fields[f].name, "[", "\"k\"", "]", "==", surf}); } break;
    case 49: what = "unk_gold_if of an unknown field"; st.erase(std::remove_if(st.begin(), st.end(), [](const Stmt& s) { return s.kind == 'r'; }), st.end()); if (c.chance(1, 2)) add({"train", "loss", surf, "1", "unk_gold_if", surf, "[", "\"k\"", "]", "==", "nosuch"}); else add({"train", "loss", surf, "1", "unk_gold_if", "nosuch", "[", "\"k\"", "]", "==", surf}); break;
    case 50: what = "two rules of the same name"; { int i = find('u', any); add(st[i].t); } break;
    case 51: what = "a feature which is never completed"; add({"feature", "zz", "="}); break;
    case 52: what = "column number with six digits"; add({"field", "100000", "zz", "string"}); break;
    case 53: what = "a weight out of range"; st.erase(std::remove_if(st.begin(), st.end(), [](const Stmt& s) { return s.kind == 'r'; }), st.end()); add({"train", "loss", surf, "1" + std::string(60, '0')}); break;
    case 54: what = "num_bytes of a field which has no length"; { int f = fieldOf([](const WField& x) { return x.kind != FString; }); add({"feature", "zz", "=", c.chance(1, 2) ? "num_bytes" : "num_codepoints", w.fields[f].name}); add({"ngram", "[", "zz", "]"}); } break;
    case 55: what = "a list field in a branch"; { int f = fieldOf([](const WField& x) { return x.kind >= FList; }); add({"feature", "zz", "=", "match", surf, "with", "\"x\"", "then", "[", w.fields[f].name, "]", "else", "[", surf, "]"}); add({"ngram", "[", "zz", "]"}); } break;
  }
  std::string text = render(c, st, false);
  c.describe(what + ":\n" + text);
  c.label(what);
  c.nontrivial();
  sp::AnalysisSpec a;
  std::string sig = what;
  for (auto& ch : sig) if (ch == ' ') ch = '-';
  bool ok = false;
  std::string m;
  try {
    Status s = parse(c, text, files, &a);
    ok = s.isOk();
    if (!ok) m = s.message().str();
  } catch (std::exception& e) {
    c.fail(what + ": an exception escapes: " + e.what(), sig);
  }
  if (ok) c.fail("accepted although invalid: " + what, sig);
  PCHECK(c, !m.empty(), what << ": the error has no message");
}

// doubled quotes stand for one quote, as in CSV
void quoting(Ctx& c) {
  std::string v;
  int n = c.range(1, 6);
  bool hasQuote = false;
  for (int i = 0; i < n; ++i) {
    std::string x = c.oneOf<std::string>({"a", "\"", "b", " ", "#", u8"値", "[", ","});
    hasQuote |= x == "\"";
    v += x;
  }
  std::string text = "field 1 surf string trie_index empty " + q(v) + "\nngram [surf]\n";
  c.describe(text);
  sp::AnalysisSpec a;
  WOK(c, parse(c, text, {}, &a), "parsing");
  c.labelIf(hasQuote, "quotes inside");
  c.nontrivial(hasQuote || v.size() > 2);
  if (a.dictionary.fields[0].emptyString != v) {
    std::string m = "the quoted string " + q(v) + " was read as " + quote(a.dictionary.fields[0].emptyString);
    // the known defect keeps both quotes when there is one pair; with more pairs the rest is unpredictable
    std::string raw = q(v).substr(1, q(v).size() - 2);
    bool known = std::count(v.begin(), v.end(), '"') > 1 || a.dictionary.fields[0].emptyString == raw;
    c.fail(m, hasQuote && known ? "doubled-quotes" : "");
  }
}

// the last line may lack its line end
void lastLine(Ctx& c) {
  std::string last = c.oneOf<std::string>({"", "ngram [surf]", "ngram [surf] # note", "# note", "#", "  # note", "   "});
  std::string text = "field 1 surf string trie_index\nngram [surf]\n" + last;
  c.describe(text);
  bool cm = last.find('#') != std::string::npos;
  c.labelIf(cm, "comment at the end");
  c.nontrivial(!last.empty());
  sp::AnalysisSpec a;
  Status s = parse(c, text, {}, &a);
  if (!s) c.fail("text without final line end is rejected: " + msg(s), cm ? "comment-without-line-end" : "");
}

// arbitrary damage: an error or a usable specification, never a crash
void damage(Ctx& c) {
  World w = genTextWorld(c);
  std::map<std::string, std::string> files;
  auto st = statements(c, w, true, &files);
  std::string text;
  int mode = c.weighted({3, 3, 2});
  if (mode == 0) {  // tokens
    int n = c.range(1, 4);
    for (int i = 0; i < n; ++i) {
      auto& s = st[c.choose(st.size())];
      if (s.t.empty()) continue;
      size_t p = c.choose(s.t.size());
      switch (c.choose(4)) {
        case 0: s.t.erase(s.t.begin() + p); break;
        case 1: s.t.insert(s.t.begin() + p, s.t[p]); break;
        case 2: { auto& o = st[c.choose(st.size())]; if (!o.t.empty()) s.t[p] = o.t[c.choose(o.t.size())]; break; }
        case 3: std::swap(st[c.choose(st.size())].t, s.t); break;
      }
    }
    for (auto& s : st)
      if (s.t.empty()) s.t.push_back("#\n");
    text = render(c, st, false);
  } else {
    text = render(c, st, true);
    if (mode == 1) {
      int n = c.range(1, 4);
      for (int i = 0; i < n && !text.empty(); ++i) {
        size_t p = c.choose(text.size());
        switch (c.choose(4)) {
          case 0: text.erase(p, c.range(1, 5)); break;
          case 1: text.insert(p, 1, (char)c.bits(8)); break;
          case 2: text[p] = c.oneOf({'"', '[', ']', ',', '=', '#', '\n', '-', '0', '\0'}); break;
          case 3: text.insert(p, text.substr(c.choose(text.size()), c.range(1, 20))); break;
        }
      }
    } else
      text = text.substr(0, c.choose(text.size() + 1));
  }
  c.describe(text);
  sp::AnalysisSpec a;
  Status s = parse(c, text, files, &a);
  c.labelIf(s.isOk(), "still valid");
  c.labelIf(!s.isOk(), "rejected");
  c.nontrivial();
  if (!s) {
    PCHECK(c, !s.message().str().empty(), "the error has no message");
    return;
  }
  sp::AnalysisSpec b;
  std::string x = saved(a);
  PCHECK(c, sp::loadSpec(x, &b), "accepted specification cannot be stored and loaded");
  PCHECK(c, dump(a) == dump(b), "accepted specification changes when stored");
  core::dic::DictionaryBuilder bld;
  Status i = bld.importSpec(&a);
  if (i.isOk()) {
    Status j = bld.importCsv("dic", dicCsv(w));
    c.labelIf(j.isOk(), "and a dictionary was built");
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "S01";
  d.assumptions = {"definitions precede uses; the order of clauses of one kind (fields, features, n-grams, rules) is meaningful and is kept",
                   "a legal layout has at most one comment between two tokens of a clause",
                   "names of keyword shape are used for fields only"};
  d.facets.push_back({"layouts", "at least two fields and two n-grams", 12000, 150000, layouts});
  d.facets.push_back({"stored", "at least two fields and two n-grams", 8000, 100000, stored});
  d.facets.push_back({"invalid", "always", 12000, 100000, invalid});
  d.facets.push_back({"quoting", "value with quotes inside or longer than two bytes", 2000, 20000, quoting});
  d.facets.push_back({"last-line", "last line is not empty", 50, 200, lastLine});
  d.facets.push_back({"damage", "always", 30000, 400000, damage});
  return pbt::runMain(argc, argv, d);
}
