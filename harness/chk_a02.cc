// A02: every byte string is analysed or refused; the analyzer stays usable
#include "core/analysis/analyzer.h"
#include "snapshot.h"
#include "utf8ref.h"
using namespace w;

namespace {
std::string rawBytes(Ctx& c, int n) {
  std::string s;
  for (int i = 0; i < n; ++i) {
    switch (c.weighted({4, 3, 2})) {
      case 0: s += (char)c.choose(256); break;
      case 1: s += (char)(0x80 + c.choose(128)); break;
      case 2: s += (char)c.choose(0x30); break;
    }
  }
  return s;
}
std::string mutate(Ctx& c, std::string s) {
  int k = c.range(1, 3);
  for (int i = 0; i < k && !s.empty(); ++i) {
    size_t p = c.choose(s.size());
    switch (c.choose(5)) {
      case 0: s[p] = (char)c.choose(256); break;
      case 1: s.erase(p, 1); break;
      case 2: s.insert(p, 1, (char)c.choose(256)); break;
      case 3: s.resize(p); break;
      case 4: s += (char)(0xC0 + c.choose(64)); break;
    }
  }
  return s;
}
std::string anyInput(Ctx& c, const World& w, size_t limit) {
  switch (c.weighted({4, 3, 2, 2, 1, 1})) {
    case 0: return mutate(c, genSentence(c, w, 10));
    case 1: return genSentence(c, w, 10);
    case 2: return rawBytes(c, c.range(0, 24));
    case 3: {  // around the size limit
      std::string s;
      size_t n = limit + (size_t)c.range(0, 4) - 2;
      while (s.size() < n) s += c.pick(w.alphabet);
      if (c.chance(1, 2)) s.resize(n);
      return s;
    }
    case 4: return mutate(c, rawBytes(c, 4) + genSentence(c, w, 6) + rawBytes(c, 3));
    default: return std::string((size_t)c.range(1, 6), c.oneOf({'\0', '\n', '\t', '\x7f', '\r'})) + genSentence(c, w, 3);
  }
}
struct Run {
  Status st;
  std::string snap;
};
void robust(Ctx& c) {
  GenOpts o;
  o.fallback = c.chance(3, 4);
  o.maxRows = 10;
  World w = genWorld(c, o);
  Weights wt = Weights::make(c);
  Beams bm = Beams::make(c);
  auto cfg = bm.cfg();
  cfg.maxInputBytes = (size_t)c.oneOf({64, 16, 40, 100, 300});
  // chunking of everything makes the lattice cubic in the length of the input
  if (cfg.maxInputBytes > 100)
    for (auto& u : w.unks)
      if (u.kind != Single) cfg.maxInputBytes = 100;
  int n = c.range(1, 6);
  Strs ins;
  for (int i = 0; i < n; ++i) ins.push_back(anyInput(c, w, cfg.maxInputBytes));
  std::string probe = genSentence(c, w, 5);
  if (probe.size() > cfg.maxInputBytes) probe = c.pick(w.alphabet);
  std::string d;
  for (auto& s : ins) d += "input: " + quote(s) + "\n";
  c.describe(show(w) + d + "probe: " + probe + "\nlimit " + std::to_string(cfg.maxInputBytes) + " " + bm.str());
  Model m;
  m.build(c, w);
  Engine used(c, m.core.get(), wt, bm, cfg);
  an::Analyzer api, apiFresh;
  WOK(c, api.initialize(used.an.get(), &used.sdef), "initialize");
  auto run = [&](Engine& e, an::Analyzer& a, const std::string& s, bool* ok) {
    // exact-size heap copy: reads beyond it are caught by the sanitizer
    std::unique_ptr<char[]> buf(new char[s.size()]);
    memcpy(buf.get(), s.data(), s.size());
    Status st = a.analyze(StringPiece(buf.get(), s.size()));
    *ok = st.isOk();
    if (!st) {
      PCHECK(c, !st.message().empty(), "an error without a message");
      return std::string();
    }
    return snapshot(c, w, *e.an);
  };
  int bad = 0, good = 0;
  auto one = [&](const std::string& s) {
    std::vector<RefChar> t;
    bool valid = refDecode(s, &t);
    bool fits = s.size() <= cfg.maxInputBytes;
    bool ok;
    std::string snap = run(used, api, s, &ok);
    if (!valid) PCHECK(c, !ok, "input with a broken UTF-8 sequence was analysed: " << quote(s));
    if (!fits) PCHECK(c, !ok, "input of " << s.size() << " bytes was analysed, the limit is " << cfg.maxInputBytes);
    if (refStrict(s) && fits && o.fallback) PCHECK(c, ok, "valid input was refused: " << quote(s));
    (ok ? good : bad)++;
    Engine fresh(c, m.core.get(), wt, bm, cfg);
    WOK(c, apiFresh.initialize(fresh.an.get(), &fresh.sdef), "initialize");
    bool ok2;
    std::string snap2 = run(fresh, apiFresh, s, &ok2);
    PCHECK(c, ok == ok2, "a used analyzer " << (ok ? "accepts " : "refuses ") << quote(s) << ", a fresh one does not");
    PCHECK(c, snap == snap2, "a used analyzer and a fresh one differ for " << quote(s) << ":" << firstDiff(snap, snap2));
    if (ok) {
      // the best path reads the input
      std::string all;
      if (!t.empty()) {
        int pos = 0;
        for (auto id : topPath(c, *used.an)) {
          auto& ni = used.an->lattice()->boundary(id.b)->starts()->nodeInfo().at(id.i);
          PCHECK(c, ni.start() == pos, "gap in the best path");
          pos = ni.end();
        }
        PCHECK(c, pos == (int)t.size(), "the best path covers " << pos << " of " << t.size() << " characters");
      }
    }
    c.labelIf(!valid, "broken UTF-8");
    c.labelIf(!fits, "too long");
    c.labelIf(valid && !refStrict(s), "overlong or surrogate");
    c.labelIf(valid && fits && !ok, "no analysis");
    c.labelIf(s.find('\0') != std::string::npos, "NUL");
  };
  for (auto& s : ins) {
    one(s);
    if (c.chance(1, 3)) one(probe);
  }
  one(probe);
  c.nontrivial(bad > 0 && good > 0);
}
// very long inputs with a raised limit: around the number of representable positions
void huge(Ctx& c) {
  World w;
  w.alphabet = {"a", u8"あ"};
  WField f;
  f.name = "surf";
  f.trie = true;
  w.fields.push_back(f);
  w.ncols = 1;
  w.rows = {{"U"}, {"a"}};
  w.words = {"a"};
  WNgram g;
  g.parts = {{"surf"}};
  w.ngrams.push_back(g);
  WUnk u;
  u.name = "u";
  u.kind = Single;
  u.classes = {"FAMILY_ANYTHING"};
  u.cls = classValue("FAMILY_ANYTHING");
  u.row = 1;
  u.surfaceTo = {0};
  w.unks.push_back(u);
  bool more = c.chance(1, 2);  // other rules, over short stretches of digits
  if (more)
    for (auto k : {Chunking, Numeric}) {
      u.name += "d";
      u.kind = k;
      u.classes = {"FIGURE"};
      u.cls = classValue("FIGURE");
      w.unks.push_back(u);
    }
  int n = c.oneOf({32765, 32764, 32766, 32767, 32768, 32763, 32760, 20000, 40000, 65530, 65533, 65534, 65535, 65536, 65537, 65538, 70000, 131072, 131073});
  std::string s;
  bool multi = c.chance(1, 2);
  for (int i = 0; i < n; ++i) s += multi && i % 3 == 0 ? u8"あ" : more && (i % 50 < 2 || i + 2 > n) ? "1" : "a";
  Beams bm;
  bm.beam = 1;
  if (c.chance(1, 2)) bm.gleft = 2;
  c.describe("length " + std::to_string(n) + (multi ? " multi" : "") + (more ? " digits " : " ") + bm.str());
  Model m;
  m.build(c, w);
  Weights wt;
  wt.v.assign(64, 0.25f);
  auto cfg = bm.cfg();
  cfg.maxInputBytes = 1 << 20;
  Engine e(c, m.core.get(), wt, bm, cfg);
  Status st = e.analyze(s);
  c.label(st ? "analysed" : "refused");
  if (!st) c.label("refused: " + st.message().str().substr(0, 90));
  if (st) {
    int pos = 0;
    for (auto id : topPath(c, *e.an)) {
      auto& ni = e.an->lattice()->boundary(id.b)->starts()->nodeInfo().at(id.i);
      PCHECK(c, ni.start() == pos, "gap at " << pos << " in the best path of a text of " << n << " characters");
      pos = ni.end();
    }
    PCHECK(c, pos == n, "the best path covers " << pos << " of " << n << " characters");
  }
  WOK(c, e.analyze("aa"), "analysis after a huge input");
  PCHECK(c, topPath(c, *e.an).size() == 2, "wrong analysis after a huge input");
  c.nontrivial();
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "A02";
  d.assumptions = {"structurally complete sequences that the Unicode standard forbids (overlong forms, surrogates) may be accepted or refused"};
  d.facets.push_back({"robust", "the sequence has an analysed and a refused input", 12000, 250000, robust});
  d.facets.push_back({"huge", "every case", 120, 2000, huge});
  return pbt::runMain(argc, argv, d);
}
