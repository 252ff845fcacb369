// A01: the analysis tiles its input
#include "scoring.h"
using namespace w;

namespace {
void checkTiling(Ctx& c, const World& w, Analyzer& a, const std::string& s) {
  auto L = a.lattice();
  auto t = cps(s);
  int n = (int)t.size();
  auto slice = [&](int x, int y) {
    std::string r;
    for (int i = x; i < y; ++i) r += t[i];
    return r;
  };
  if (n == 0) {
    an::AnalysisPath p;
    WOK(c, p.fillIn(L), "path of empty text");
    int k = 0;
    p.reset();
    while (p.nextBoundary()) ++k;
    PCHECK(c, k == 0, "the empty text has " << k << " words");
    return;
  }
  PCHECK(c, (int)L->createdBoundaryCount() == n + 3, "lattice of " << n << " characters has " << L->createdBoundaryCount() << " boundaries");
  auto nodes = latticeNodes(c, w, a);
  int T = w.trieField();
  std::map<NodeId, const LNode*> byId;
  std::map<int, std::vector<NodeId>> ends;
  ends[2].push_back({1, 0});
  std::map<NodeId, std::string> surf;
  auto eb = [&](const an::LatticeNodePtr& p) { return NodeId{p.boundary, p.position}; };
  for (auto& x : nodes) {
    NodeId id{x.boundary, x.pos};
    byId[id] = &x;
    PCHECK(c, x.start == x.boundary - 2, "a word at position " << x.boundary - 2 << " claims to start at " << x.start);
    PCHECK(c, x.end > x.start && x.end <= n, "a word at " << x.start << " ends at " << x.end << " of " << n);
    std::string text = slice(x.start, x.end);
    std::string sf;
    if (x.unk()) {
      auto node = a.extraNodesContext()->node(x.eptr);
      PCHECK(c, node != nullptr, "unknown word without a node");
      sf = node->header.unk.surface.str();
    } else
      sf = x.first[T];
    PCHECK(c, sf == text, "a word at " << x.start << "-" << x.end << " has the surface " << quote(sf) << " over the text " << quote(text));
    if (x.unk()) {  // replaced fields hold the text
      auto row = L->boundary(x.boundary)->starts()->entryData().row(x.pos);
      int di = -1;
      for (auto& f : a.core().spec().dictionary.fields)
        if (f.name == w.fields[T].name) di = f.dicIndex;
      if (di >= 0 && row.at(di) < 0) PCHECK(c, x.first[T] == text, "surface field of an unknown word is " << quote(x.first[T]) << " over the text " << quote(text));
    }
    surf[id] = text;
    ends[x.end + 2].push_back(id);
  }
  for (int b = 2; b < n + 3; ++b) {
    std::vector<NodeId> have;
    for (auto& p : L->boundary(b)->ends()->nodePtrs()) have.push_back(eb(p));
    std::sort(have.begin(), have.end());
    auto want = ends[b];
    std::sort(want.begin(), want.end());
    PCHECK(c, have == want, "words registered as ending at " << b - 2 << " (" << have.size() << ") are not those that end there (" << want.size() << ")");
  }
  // every kept partial path is a chain from the start
  std::set<const an::ConnectionPtr*> sound;  // paths whose links were followed already
  bool follow = n <= 60;
  for (int b = 2; b < n + 3; ++b) {
    auto bnd = L->boundary(b);
    for (int i = 0; i < (int)bnd->localNodeCount(); ++i)
      for (auto& el : bnd->starts()->beamData().row(i)) {
        if (fake(el)) break;
        const an::ConnectionPtr* p = &el.ptr;
        PCHECK(c, p->boundary == b && p->right == i, "a kept path does not end in its word");
        int steps = 0;
        std::string text;
        while (p->boundary > 1) {
          if (!follow && !sound.insert(p).second) break;
          auto q = p->previous;
          PCHECK(c, q != nullptr && ++steps <= n + 3, "a kept path does not reach the start");
          auto le = L->boundary(p->boundary)->ends()->nodePtrs().at(p->left);
          PCHECK(c, le.boundary == q->boundary && le.position == q->right, "a kept path names another previous word than it links to");
          int qend = q->boundary == 1 ? 0 : byId.at({q->boundary, q->right})->end;
          PCHECK(c, qend == p->boundary - 2, "a kept path jumps from " << qend << " to " << p->boundary - 2);
          if (follow && q->boundary > 1) text = surf.at({q->boundary, q->right}) + text;
          p = q;
        }
        if (!follow) continue;
        PCHECK(c, p->boundary == 1, "a kept path does not start at the beginning of the sentence");
        PCHECK(c, text == slice(0, b - 2), "a kept path reads " << quote(text) << " before position " << b - 2);
      }
  }
  std::string all;
  int pos = 0;
  for (auto id : topPath(c, a)) {
    PCHECK(c, byId.count(id), "the best path uses a word that is not in the lattice");
    PCHECK(c, byId[id]->start == pos, "a word of the best path starts at " << byId[id]->start << " after position " << pos);
    pos = byId[id]->end;
    all += surf[id];
  }
  PCHECK(c, all == s, "the words of the best path read " << quote(all) << " for " << quote(s));
}

void run(Ctx& c, const World& w, const Strs& sents) {
  Weights wt = Weights::make(c);
  Beams bm = Beams::make(c);
  std::string d;
  for (auto& s : sents) d += "sentence: " + (s.size() > 400 ? s.substr(0, 400) + "..." : s) + "\n";
  auto cfg = bm.cfg();
  if (c.chance(1, 5)) {
    cfg.autoBeamStep = c.range(1, 6);
    cfg.autoBeamBase = c.range(1, 5);
    cfg.autoBeamMax = c.range(1, 12);
    d += "auto beam ";
  }
  c.describe(show(w) + d + bm.str());
  Model m;
  m.build(c, w);
  Engine e(c, m.core.get(), wt, bm, cfg);
  size_t words = 0;
  for (auto& s : sents) {
    WOK(c, e.analyze(s), "analysis of " + quote(s));
    checkTiling(c, w, *e.an, s);
    size_t k = s.empty() ? 0 : topPath(c, *e.an).size();
    words = std::max(words, k);
    c.labelIf(s.empty(), "empty sentence");
  }
  c.labelIf(words >= 20, "more than 20 words");
  c.labelIf(bm.gleft > 0, "global beam");
  c.nontrivial(words >= 3);
}
void tiling(Ctx& c) {
  GenOpts o;
  World w = genWorld(c, o);
  Strs ss;
  int n = c.range(1, 3);
  for (int i = 0; i < n; ++i) ss.push_back(genSentence(c, w, 14));
  run(c, w, ss);
}
// up to the size limit; every code point range
void longText(Ctx& c) {
  GenOpts o;
  o.maxRows = 8;
  o.unks = false;
  World w = genWorld(c, o);
  WUnk u;  // candidates of bounded length only
  u.name = "fallback";
  u.kind = Single;
  u.classes = {"FAMILY_ANYTHING"};
  u.cls = classValue("FAMILY_ANYTHING");
  Strs row(w.ncols);
  row[w.fields[w.trieField()].col - 1] = "U";
  w.rows.push_back(row);
  u.row = (int)w.rows.size();
  u.surfaceTo = {w.trieField()};
  w.unks.push_back(u);
  std::string s;
  size_t limit = c.chance(1, 2) ? 4096 : (size_t)c.range(300, 4096);
  int style = c.weighted({3, 2, 1});
  for (;;) {
    std::string x;
    if (style == 0)
      x = c.chance(1, 2) ? c.pick(w.words) : c.pick(w.alphabet);
    else if (style == 1) {
      char32_t cp;
      do
        cp = c.choose(4) == 0 ? c.choose(0x110000) : c.choose(3) == 0 ? c.choose(0x80) : 0x3000 + c.choose(0x6fff);
      while (cp >= 0xd800 && cp < 0xe000);
      x = w::u8(cp);
    } else
      x = c.pick(w.alphabet);
    if (s.size() + x.size() > limit) break;
    s += x;
  }
  c.labelIf(s.size() > 4093, "at the size limit");
  run(c, w, {s});
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "A01";
  d.assumptions = {"the specification has a rule for every character (otherwise unanalysable text is a documented error)",
                   "beam sizes are at least one; weights are finite"};
  d.facets.push_back({"tiling", "some sentence has at least three words on its best path", 12000, 250000, tiling});
  d.facets.push_back({"long-text", "the text has at least three words on its best path", 300, 6000, longText});
  return pbt::runMain(argc, argv, d);
}
