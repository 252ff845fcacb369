// Worlds and gold-annotated sentences for the checks of training.
#pragma once
#include "core/input/training_io.h"
#include "core/training/trainer.h"
#include "world.h"

namespace w {
namespace tr = jumanpp::core::training;

inline World trainWorld(Ctx& c, int maxRows, bool ints = false, bool fallback = true) {
  GenOpts o;
  o.fallback = fallback;
  o.train = true;
  o.maxRows = maxRows;
  World w = genWorld(c, o);
  if (!ints) {
    std::vector<std::pair<int, float>> t;
    for (auto& x : w.train)
      if (w.fields[x.first].kind == FString) t.push_back(x);
    w.train = t;
  }
  return w;
}
// rules which allow words of unknown-word rules to be gold
inline void addAliases(Ctx& c, World& w) {
  std::vector<int> kv;
  for (int i = 0; i < (int)w.fields.size(); ++i)
    if (w.fields[i].kind == FKv) kv.push_back(i);
  if (kv.empty()) return;
  int n = c.weighted({2, 8, 2});
  for (int k = 0; k < n; ++k) {
    WAlias a;
    a.target = c.pick(w.train).first;
    a.source = c.pick(kv);
    a.key = c.oneOf<std::string>({"k", "key", "品詞"});
    auto& s = w.fields[a.source];
    for (int r = 0; r < (int)w.rows.size(); ++r) {
      if (!w.isTemplate(r) || c.chance(1, 5)) continue;
      std::string v = w.cell((int)c.choose(w.rows.size()), a.target);
      if (v.empty() || v == w.fields[a.target].empty || v.find(s.listSep) != std::string::npos || v.find(s.kvSep) != std::string::npos || v.find(a.key) != std::string::npos) continue;
      auto& cell = w.rows[r][s.col - 1];
      std::string rest;
      if (!cell.empty() && cell != s.empty && cell.find(a.key) == std::string::npos && c.chance(1, 2)) rest = s.listSep + cell;
      cell = c.chance(1, 8) ? a.key + rest : a.key + s.kvSep + v + rest;
    }
    bool dup = false;
    for (auto& x : w.aliases) dup = dup || x.source == a.source || x.target == a.target;
    if (!dup) w.aliases.push_back(a);
  }
}
struct GoldWord {
  int start = 0, end = 0;
  Strs v;  // one value for each training field
};
struct Gold {
  std::vector<GoldWord> words;
  std::string text, comment;
  int n = 0;
  void add(const World& w, Strs v) {
    GoldWord g;
    g.v = std::move(v);
    g.start = n;
    for (size_t i = 0; i < w.train.size(); ++i)
      if (w.fields[w.train[i].first].trie) {
        n += (int)cps(g.v[i]).size();
        text += g.v[i];
      }
    g.end = n;
    words.push_back(g);
  }
};
inline int surfaceSlot(const World& w) {
  for (size_t i = 0; i < w.train.size(); ++i)
    if (w.fields[w.train[i].first].trie) return (int)i;
  return -1;
}
inline Strs genGoldWord(Ctx& c, const World& w) {
  int S = surfaceSlot(w);
  Strs v(w.train.size());
  auto other = [&](int j) {
    int f = w.train[j].first;
    if (j == S) return c.chance(1, 2) ? c.pick(w.words) : genStr(c, w.alphabet, 1, 3);
    if (c.chance(1, 2)) return w.cell((int)c.choose(w.rows.size()), f);
    return c.oneOf<std::string>({"nosuchvalue", "x", "*", "", "y", u8"読み"});
  };
  switch (c.weighted({6, 3, 4, 2, 1})) {
    case 0:    // a word of the dictionary
    case 1: {  // with another value
      std::vector<int> rows;
      for (int r = 0; r < (int)w.rows.size(); ++r)
        if (!w.isTemplate(r)) rows.push_back(r);
      int r = rows.empty() || c.chance(1, 20) ? (int)c.choose(w.rows.size()) : c.pick(rows);
      for (size_t j = 0; j < v.size(); ++j) v[j] = w.cell(r, w.train[j].first);
      if (c.chance(1, 3) || w.isTemplate(r)) {
        int j = (int)c.choose(v.size());
        v[j] = other(j);
      }
      break;
    }
    case 2:  // a word of an unknown-word rule
      if (!w.unks.empty()) {
        auto& u = c.pick(w.unks);
        std::string s = c.chance(1, w.aliases.empty() ? 3 : 6) ? c.pick(w.words) : genStr(c, w.alphabet, 1, 3);
        for (size_t j = 0; j < v.size(); ++j) {
          int f = w.train[j].first;
          bool rep = std::find(u.surfaceTo.begin(), u.surfaceTo.end(), f) != u.surfaceTo.end();
          v[j] = rep || (int)j == S ? s : w.cell(u.row - 1, f);
        }
        for (auto& a : w.aliases)
          if (c.chance(3, 4))
            for (size_t j = 0; j < v.size(); ++j)
              if (w.train[j].first == a.target && (int)j != S) {
                auto& x = w.fields[a.source];
                for (auto& item : split(w.cell(u.row - 1, a.source), x.listSep))
                  if (item.compare(0, a.key.size() + x.kvSep.size(), a.key + x.kvSep) == 0) v[j] = item.substr(a.key.size() + x.kvSep.size());
              }
        if (c.chance(1, 4)) {
          int j = (int)c.choose(v.size());
          v[j] = other(j);
        }
        break;
      }
    // fallthrough
    default:
      for (size_t j = 0; j < v.size(); ++j) v[j] = other((int)j);
  }
  if (v[S].empty()) v[S] = c.pick(w.words);
  return v;
}
inline Gold genGold(Ctx& c, const World& w, int maxWords, size_t maxBytes) {
  Gold g;
  int n = c.range(1, maxWords);
  for (int i = 0; i < n; ++i) {
    Strs v = genGoldWord(c, w);
    if (!g.words.empty() && g.text.size() + v[surfaceSlot(w)].size() > maxBytes) break;
    g.add(w, v);
  }
  return g;
}
inline std::string quoteFor(const std::string& s, char sep, bool force = false) {
  bool need = force;
  for (char x : s) need = need || x == sep || x == '"' || x == '\n' || x == '\r';
  if (!need) return s;
  std::string r = "\"";
  for (char x : s) {
    r += x;
    if (x == '"') r += '"';
  }
  return r + "\"";
}
inline std::string mrphWord(const Strs& v, const std::vector<char>& force = {}) {
  Strs x;
  for (size_t j = 0; j < v.size(); ++j) x.push_back(quoteFor(v[j], '_', j < force.size() && force[j]));
  return quoteFor(join(x, "_"), ' ');
}
inline std::string csvWord(const Strs& v, const std::vector<char>& force = {}) {
  Strs x;
  for (size_t j = 0; j < v.size(); ++j) x.push_back(quoteFor(v[j], ',', (j < force.size() && force[j]) || (j == 0 && v[j].compare(0, 2, "# ") == 0)));
  return join(x, ",");
}
struct Written {
  std::string data;
  std::vector<Gold> ex;
  int badAt = -1;  // this example is malformed
  std::string bad;
};
inline Written writeSet(Ctx& c, const World& w, std::vector<Gold> ex, bool csv, bool allowBad) {
  Written r;
  r.ex = std::move(ex);
  std::string eol = c.chance(1, 5) ? "\r\n" : "\n";
  int S = surfaceSlot(w);
  if (allowBad && c.chance(1, 6)) r.badAt = (int)c.choose(r.ex.size());
  for (size_t i = 0; i < r.ex.size(); ++i) {
    auto& g = r.ex[i];
    Strs ws;
    for (auto& x : g.words) {
      std::vector<char> force;
      for (size_t j = 0; j < x.v.size(); ++j) force.push_back(c.chance(1, 12));
      ws.push_back(csv ? csvWord(x.v, force) : mrphWord(x.v, force));
    }
    bool unterminated = false;
    if ((int)i == r.badAt) {
      Strs kinds = {"mid quote", "open quote", "empty word", "not utf-8"};
      if (w.train.size() > 1) kinds.push_back("short");
      if (!csv) { kinds.push_back("empty token"); kinds.push_back("two lines in a word"); }
      r.bad = c.pick(kinds);
      Strs v = genGoldWord(c, w);
      auto put = [&](const Strs& x) { return csv ? csvWord(x) : mrphWord(x); };
      std::string t;
      if (r.bad == "empty word") {
        v[S] = "";
        if (v.size() == 1) { v[0] = "x"; t = csv ? "\"" : "\"\"\"\""; r.bad = "open quote"; unterminated = csv; }
        else t = put(v);
      } else if (r.bad == "not utf-8") { v[S] = c.oneOf<std::string>({"\xe3\x81", "\xff", "a\xc3"}); t = put(v); }
      else if (r.bad == "mid quote") { t = csv ? "a\"b" : "a\"b\""; for (size_t j = 1; j < v.size(); ++j) t += (csv ? ",x" : "_x"); }
      else if (r.bad == "open quote") { t = "\"ab"; unterminated = true; }
      else if (r.bad == "short") { v.resize(c.range(1, (int)v.size() - 1)); for (auto& x : v) if (x.empty() || x == "EOS" || x == "#") x = "x"; t = put(v); }
      else if (r.bad == "empty token") t = "";
      else { v[S] = "x"; t = quoteFor(mrphWord(v) + "\ny", ' '); }
      size_t p = c.choose(ws.size() + 1);
      ws.insert(ws.begin() + p, t);
      // a lone empty token at the end of the sentence reads as a blank
      if (!unterminated && c.chance(1, 8) && i + 1 == r.ex.size() && r.bad != "empty token") g.comment = "";
    }
    if (csv) {
      if (!g.comment.empty()) {
        size_t p = c.chance(4, 5) ? 0 : c.choose(ws.size() + 1);
        ws.insert(ws.begin() + p, "# " + g.comment);
      }
      for (size_t k = 0; k < ws.size(); ++k) {
        r.data += ws[k];
        if (unterminated && ws[k] == "\"ab") break;
        if (k + 1 < ws.size() || i + 1 < r.ex.size() || c.chance(3, 4)) r.data += eol;
      }
      if (unterminated) break;
      bool ends = r.data.empty() || r.data.back() == '\n';
      if (ends && (i + 1 < r.ex.size() || c.chance(1, 2) || ws.empty() || (int)i == r.badAt)) r.data += (c.chance(1, 3) ? "EOS" : "") + eol;
    } else {
      r.data += join(ws, " ");
      if (!g.comment.empty()) r.data += " # " + g.comment;
      if (i + 1 < r.ex.size() || c.chance(3, 4)) r.data += eol;
    }
  }
  if (r.badAt >= 0) r.ex.resize(r.badAt);
  return r;
}
inline std::vector<Gold> genSet(Ctx& c, const World& w, bool csv, int maxEx) {
  std::vector<Gold> r;
  int n = c.range(1, maxEx);
  for (int i = 0; i < n; ++i) {
    Gold g;
    if (csv && c.chance(1, 15)) {
      // an example without words
    } else {
      g = genGold(c, w, 5, 90);
      for (auto& x : g.words)
        if (x.v.size() == 1 && (x.v[0] == "EOS" || x.v[0] == "#")) c.discard();
      if (!csv && c.chance(1, 4)) g.comment = c.oneOf<std::string>({"x", "help me", "S-ID:1", "a  b", "# #", u8"名 前", "a_b"});
      if (csv && c.chance(1, 4)) g.comment = c.oneOf<std::string>({"x", "help me", "S-ID:1", "a,b", "# #", u8"名 前", " "});
    }
    r.push_back(g);
  }
  return r;
}
}  // namespace w
