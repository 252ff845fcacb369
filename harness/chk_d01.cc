// D01: the built dictionary returns exactly what was in the source CSV
#include "core/dic/dic_entries.h"
#include "unkmodel.h"
using namespace w;

namespace {
// all entries stored under a surface, or nothing when the surface is absent
bool stored(Ctx& c, const World& w, const core::dic::DictionaryHolder& dic, const an::OutputManager& om, const FieldReader& fr,
            const std::string& surf, std::vector<std::vector<Strs>>* out) {
  auto t = dic.entries().traversal();
  if (t.step(surf) != core::dic::TraverseStatus::Ok) return false;
  auto es = t.entries();
  int n = es.count();
  int seen = 0;
  auto walker = om.nodeWalker();
  while (es.readOnePtr()) {
    ++seen;
    PCHECK(c, om.locate(es.currentPtr(), &walker), "entry of " << quote(surf) << " cannot be located");
    std::vector<Strs> group;
    while (walker.next()) {
      Strs e;
      for (int f = 0; f < (int)w.fields.size(); ++f) e.push_back(fr.get(f, walker));
      group.push_back(e);
      if (group.size() > 100000) c.fail("enumeration of the entries of " + quote(surf) + " does not end");
    }
    std::sort(group.begin(), group.end());
    out->push_back(group);
  }
  PEQ(c, seen, n, "number of entries of " << quote(surf));
  std::sort(out->begin(), out->end());
  return true;
}
std::string shorten(const std::string& s) { return s.size() > 600 ? s.substr(0, 600) + "... (" + std::to_string(s.size()) + " bytes)" : s; }

int compareAll(Ctx& c, const World& w, const Model& m) {
  Engine e(c, m.core.get(), Weights(), Beams());
  WOK(c, e.an->resetForInput(""), "reset");
  auto om = e.an->output();
  FieldReader fr(c, w, om);
  std::map<std::string, std::vector<std::vector<Strs>>> want;
  auto G = groups(w);
  int total = 0;
  for (auto& g : G) {
    want[g.surface].push_back(expectEntries(w, g));
    total += (int)g.rows.size();
  }
  for (auto& x : want) {
    std::sort(x.second.begin(), x.second.end());
    std::vector<std::vector<Strs>> have;
    PCHECK(c, stored(c, w, m.dic, om, fr, x.first, &have), "surface " << quote(x.first) << " is missing in the dictionary");
    if (have == x.second) continue;
    std::string a, b;
    for (auto& g : x.second) a += "\n    " + shorten(str(g));
    for (auto& g : have) b += "\n    " + shorten(str(g));
    c.fail("surface " + quote(x.first) + ": expected entries" + a + "\n  but the dictionary has" + b);
  }
  // surfaces which are not there
  for (auto& x : want) {
    auto v = cps(x.first);
    Strs probes = {x.first + w.alphabet[0], v[0], join(Strs(v.begin(), v.end() - 1), ""), x.first + x.first};
    for (auto& p : probes) {
      if (p.empty() || want.count(p)) continue;
      std::vector<std::vector<Strs>> have;
      PCHECK(c, !stored(c, w, m.dic, om, fr, p, &have), "surface " << quote(p) << " is in the dictionary but not in the source");
    }
  }
  return total;
}

void rows(Ctx& c) {
  GenOpts o;
  o.train = c.chance(1, 3);
  o.maxRows = 30;
  o.wide = c.chance(1, 20);
  World w = genWorld(c, o);
  bool text = textable(w) && c.chance(1, 3);
  c.describe(show(w));
  Model m;
  m.build(c, w, text);
  int n = compareAll(c, w, m);
  std::set<std::string> surfs;
  for (int i = 0; i < (int)w.rows.size(); ++i)
    if (!w.isTemplate(i)) surfs.insert(w.cell(i, w.trieField()));
  c.labelIf((int)surfs.size() < n, "homographs");
  bool list = false, shared = false;
  for (auto& f : w.fields) list |= f.kind >= FList, shared |= f.storage >= 0;
  c.labelIf(list, "list fields");
  c.labelIf(shared, "shared storage");
  c.labelIf(!w.train.empty(), "train clause");
  c.nontrivial(n >= 3 && w.fields.size() >= 2);
}

// wide and long sources: many fields, many rows, many distinct and long values
void layout(Ctx& c) {
  World w;
  w.alphabet = genAlphabet(c);
  int nf = 1 + c.weighted({1, 2, 3, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 2});
  int T = c.range(0, nf - 1);
  std::vector<int> cols;
  int ncols = nf + c.weighted({3, 2, 1, 0, 0, 1});
  for (int i = 1; i <= ncols; ++i) cols.push_back(i);
  if (c.chance(1, 10)) cols.push_back(c.range(40, 300));
  for (int i = 0; i < nf; ++i) {
    WField f;
    f.name = i == T ? "surf" : "f" + std::to_string(i);
    int k = c.chance(1, 2) ? (int)c.choose(cols.size()) : 0;
    f.col = cols[k];
    cols.erase(cols.begin() + k);
    f.trie = i == T;
    if (i != T) {
      f.kind = (FieldKind)c.weighted({4, 2, 3, 3});
      if (f.kind != FInt && c.chance(1, 3)) f.empty = c.oneOf<std::string>({"*", "x", "NIL", "a b", "-"});
      if (f.kind != FInt && c.chance(1, 3)) {
        std::vector<int> cand;
        for (int j = 0; j < i; ++j)
          if (w.fields[j].kind != FInt && w.fields[j].storage < 0) cand.push_back(j);
        if (!cand.empty()) f.storage = c.pick(cand);
      }
      if (f.kind == FKv && c.chance(1, 3)) {
        f.kvSep = c.oneOf<std::string>({"=", "::", "->", "/"});
        f.listSep = c.oneOf<std::string>({";", "|", ", ", "##"});
      }
    }
    if (f.kind != FInt && f.storage < 0 && c.chance(1, 3)) f.align = c.range(1, 6);
    w.fields.push_back(f);
  }
  for (auto& f : w.fields) w.ncols = std::max(w.ncols, f.col);
  // which of the plain fields are stored once per entry
  w.ngrams.push_back({{{"surf"}}});
  int mode = c.weighted({3, 2, 2});
  for (int i = 0; i < nf; ++i)
    if (w.fields[i].kind <= FInt && i != T && (mode == 1 || (mode == 2 && c.chance(1, 2)))) w.ngrams.push_back({{{w.fields[i].name}}});
  auto ff = w.featureFields();
  if (c.chance(1, 3)) {
    w.train.push_back({T, 1.f});
    for (int i = 0; i < nf; ++i)
      if (i != T && ff.count(i) && c.chance(1, 3)) w.train.push_back({i, 1.f});
  }
  // contents
  int big = c.weighted({6, 3, 1});
  int n = big == 0 ? c.range(1, 40) : big == 1 ? c.range(40, 400) : c.range(400, c.thorough ? 6000 : 1200);
  pbt::Rng r{c.bits(32)};
  int nwords = 1 + r.next() % (n + 1), nvals = 1 + r.next() % (c.chance(1, 2) ? 5 : 3 * n + 1);
  int maxLen = c.range(1, 8);
  bool longVals = c.chance(1, 6), rawBytes = c.chance(1, 6);
  int itemMax = c.oneOf({3, 3, 3, 12, 150});
  Strs words, vals;
  for (int i = 0; i < nwords; ++i) {
    std::string x;
    int len = 1 + r.next() % maxLen;
    for (int j = 0; j < len; ++j) x += w.alphabet[r.next() % w.alphabet.size()];
    words.push_back(x);
  }
  static const Strs marks = {"", ",", "\"", "\n", "\r\n", " ", ":", "=", "\"\"", "-", "*", u8"あ"};
  for (int i = 0; i < nvals; ++i) {
    std::string x;
    switch (r.next() % 5) {
      case 0: x = "v" + std::to_string(r.next() % (4 * n)); break;
      case 1: x = std::to_string(r.next() % 100); break;
      case 2: x = marks[r.next() % marks.size()] + "q" + marks[r.next() % marks.size()]; break;
      case 3: for (int j = r.next() % 4; j >= 0; --j) x += (char)('a' + r.next() % 4); break;
      case 4: x = w.alphabet[r.next() % w.alphabet.size()] + std::to_string(i); break;
    }
    if (longVals && r.next() % 10 == 0) {
      static const int lens[] = {126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 70000};
      int L = lens[r.next() % 11];
      if (n > 100 && L > 300) L = 300;
      while ((int)x.size() < L) x += (char)('a' + r.next() % 26);
    }
    if (rawBytes && r.next() % 4 == 0)
      for (int j = 0; j < 3; ++j)
        if (char b = (char)(r.next() % 256); b != '"') x += b;
    if (longVals)  // escaped cells are limited to 16 KiB
      for (auto& ch : x)
        if (ch == '"') ch = '\'';
    vals.push_back(x);
  }
  auto listItem = [&](const WField& f) {
    std::string x = vals[r.next() % vals.size()];
    // an item cannot contain the separators
    for (auto& sep : {std::string(" "), f.listSep, f.kvSep})
      for (size_t p; !sep.empty() && (p = x.find(sep)) != std::string::npos;) x.erase(p, sep.size());
    // nor make a separator together with its neighbour
    for (auto& ch : x)
      if (f.kind == FKv && (f.listSep + f.kvSep).find(ch) != std::string::npos) ch = '_';
    return x;
  };
  auto cell = [&](const WField& f) -> std::string {
    if (!f.empty.empty() && r.next() % 6 == 0) return f.empty;
    if (r.next() % 8 == 0) return "";
    switch (f.kind) {
      case FString: return vals[r.next() % vals.size()];
      case FInt: {
        static const Strs ints = {"0", "1", "127", "128", "16384", "2147483647", "65535", "0042", "2097151"};
        return r.next() % 2 ? ints[r.next() % ints.size()] : std::to_string(r.next() % 1000);
      }
      case FList: {
        Strs v;
        int k = r.next() % (r.next() % 10 ? 4 : itemMax + 1);
        for (int i = 0; i < k; ++i) v.push_back(listItem(f));
        return join(v, " ");
      }
      case FKv: {
        Strs v;
        int k = r.next() % (r.next() % 10 ? 4 : itemMax + 1);
        for (int i = 0; i < k; ++i) {
          std::string x = listItem(f);
          if (r.next() % 3) x += f.kvSep + listItem(f);
          v.push_back(x);
        }
        return join(v, f.listSep);
      }
    }
    return "";
  };
  for (int i = 0; i < n; ++i) {
    Strs row;
    if (i && r.next() % 6 == 0) {
      row = w.rows[r.next() % w.rows.size()];
      int f = r.next() % nf;
      if (f != T) row[w.fields[f].col - 1] = cell(w.fields[f]);
    } else {
      row.resize(w.ncols);
      for (auto& x : row)
        if (r.next() % 4 == 0) x = vals[r.next() % vals.size()];
      for (int f = 0; f < nf; ++f) row[w.fields[f].col - 1] = f == T ? words[r.next() % words.size()] : cell(w.fields[f]);
    }
    w.rows.push_back(row);
  }
  // rows may be longer than needed
  std::string d = specText(w) + std::to_string(n) + " rows, values " + std::to_string(vals.size());
  std::string csv = dicCsv(w);
  c.describe(d + "\n" + (csv.size() < 4000 ? csv : csv.substr(0, 3000) + "\n... " + std::to_string(csv.size()) + " bytes"));
  Model m;
  m.build(c, w, textable(w) && c.chance(1, 3));
  int total = compareAll(c, w, m);
  c.labelIf(longVals, "long values");
  c.labelIf(rawBytes, "values with arbitrary bytes");
  c.labelIf(nf >= 14, "14 or more fields");
  c.labelIf(total >= 400, "400 or more rows");
  c.labelIf(itemMax > 50, "long lists");
  bool al = false;
  for (auto& f : w.fields) al |= f.align > 2;
  c.labelIf(al, "alignment above 4");
  c.nontrivial(total >= 3 && nf >= 2);
}

// the order of the rows decides nothing but the choice of the first entry
// rows which do not fit are refused
void badRows(Ctx& c) {
  GenOpts o;
  o.maxRows = 12;
  World w = genWorld(c, o);
  int at = c.range(0, (int)w.rows.size() - 1);
  int kind = c.weighted({3, 3, 2, 1});
  std::vector<int> ints;
  for (int i = 0; i < (int)w.fields.size(); ++i)
    if (w.fields[i].kind == FInt) ints.push_back(i);
  if (kind == 1 && ints.empty()) kind = 0;
  std::string csv, what;
  int maxCol = 0;
  for (auto& f : w.fields) maxCol = std::max(maxCol, f.col);
  if (kind == 0 && maxCol == 1) kind = 2;
  for (int i = 0; i < (int)w.rows.size(); ++i) {
    Strs r = w.rows[i];
    std::string line;
    if (i == at && kind == 0) {
      r.resize(c.range(1, maxCol - 1));
      what = "row with too few columns";
      line = csvRow(r);
    } else if (i == at && kind == 1) {
      std::string bad = c.oneOf<std::string>({"x", "-1", "1x", "x1", "1.5", "2147483648", "4294967296", "99999999999999999999", " 1", "1 ", "+1", "0x10", u8"１"});
      r[w.fields[c.pick(ints)].col - 1] = bad;
      what = "value '" + bad + "' in an int column";
      line = csvRow(r);
    } else if (i == at && kind == 2) {
      int col = c.range(0, (int)r.size() - 1);
      Strs cells;
      for (auto& x : r) cells.push_back(csvCell(x));
      cells[col] = c.oneOf<std::string>({"\"abc", "\"a\"b", "\"a\"\""});
      what = "cell with wrong quotes";
      line = join(cells, ",");
      if (cells[col] != "\"a\"b") {  // unterminated: the rest of the source must not close it
        csv += line;
        break;
      }
    } else if (i == at && kind == 3) {
      r[w.fields[w.trieField()].col - 1] = std::string("a\0b", 3);
      what = "surface with a NUL byte";
      line = csvRow(r);
    } else
      line = csvRow(r);
    csv += line + "\n";
  }
  if (kind == 3 && w.isTemplate(at)) c.discard();
  c.describe(what + " at row " + std::to_string(at + 1) + "\n" + specText(w) + "--- csv\n" + csv);
  sp::AnalysisSpec spec;
  WOK(c, buildSpec(c, w, &spec), "specification");
  core::dic::DictionaryBuilder b;
  WOK(c, b.importSpec(&spec), "importSpec");
  Status s = b.importCsv("dic", csv);
  if (s && kind == 3) {  // either refused or stored as written
    w.rows[at][w.fields[w.trieField()].col - 1] = std::string("a\0b", 3);
    Model m;
    m.build(c, w);
    compareAll(c, w, m);
    c.label("NUL in surface, accepted");
    return;
  }
  if (s) c.fail("a source with a " + what + " was accepted", "accepted " + what);
  PCHECK(c, !msg(s).empty(), "error without a message");
  c.label(kind == 0 ? "too few columns" : kind == 1 ? "bad int" : kind == 2 ? "bad quotes" : "NUL in surface");
  c.nontrivial(w.rows.size() >= 2);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "D01";
  d.assumptions = {"unknown-word template rows are not dictionary words", "list values are compared as multisets (the dictionary stores them sorted by pointer)",
                   "cells with escaped quotes are shorter than 16 KiB",
                   "the surface field is part of the node data (dictionaries without it are refused)",
                   "entries of one surface that agree on the alias fields share their node-level fields (the first row's)"};
  d.facets.push_back({"rows", "at least three rows and two fields", 12000, 300000, rows});
  d.facets.push_back({"layout", "at least three rows and two fields", 1500, 30000, layout});
  d.facets.push_back({"bad-rows", "at least two rows", 6000, 100000, badRows});
  return pbt::runMain(argc, argv, d);
}
