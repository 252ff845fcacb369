// R01: the recurrent language model
#include "core/analysis/score_processor.h"
#include "core/env.h"
#include "core/impl/model_io.h"
#include "jumandic.h"
#include "rnn.h"
#include "scoring.h"
#include "tool.h"
using namespace rn;
using rn::near;
namespace mk = jumanpp::rnn::mikolov;

namespace {
// ------------------------------------------------------------------ forward pass
Strs plainWords(int n) {
  Strs r{"</s>"};
  for (int i = 1; i < n; ++i) r.push_back("w" + std::to_string(i));
  return r;
}
void net(Ctx& c) {
  int V = c.oneOf({4, 2, 3, 9, 20, 40});
  Net n = Net::make(c, plainWords(V));
  int N = c.oneOf({1, 2, 3, 5, 8, 17}), R = c.oneOf({1, 2, 4, 7});
  bool setNce = c.chance(1, 2);
  float nce = setNce ? c.oneOf({0.f, 1.5f, -20.f}) : n.lnz;
  std::ostringstream d;
  d << n.str() << "\nbatch " << N << " right " << R << (setNce ? " nce " + std::to_string(nce) : "");
  c.describe(d.str());
  util::memory::Manager mgr(1 << 20);
  auto al = mgr.core();
  auto buf = [&](const std::vector<float>& v) {
    auto b = al->allocateBuf<float>(v.size() + 1, 64);
    std::copy(v.begin(), v.end(), b.begin());
    return util::ArraySlice<float>(b.begin(), v.size());
  };
  mk::MikolovRnn rnn;
  mk::MikolovRnnModelHeader h{(u32)n.L, (u32)n.order, n.maxent, (u64)V, n.lnz};
  WOK(c, rnn.init(h, buf(n.W), buf(n.me)), "init");
  if (setNce) rnn.setNceConstant(nce);
  pbt::Rng r{c.bits(32)};
  std::vector<Vec> ctx(N, Vec(n.L));
  std::vector<int> word(N), right(R);
  std::vector<std::vector<int>> hist(N);
  for (int i = 0; i < N; ++i) {
    for (auto& x : ctx[i]) x = (float)(r.next() % 1001) / 1000.f;
    word[i] = (int)(r.next() % V);
    for (int k = 0; k + 1 < n.order; ++k) hist[i].push_back((int)(r.next() % (V + 1)) - 1);
  }
  for (auto& x : right) x = (int)(r.next() % V);
  auto ctxs = [&](int from, int cnt) {
    auto s = al->allocate2d<float>(cnt, n.L, 64);
    for (int i = 0; i < cnt; ++i)
      for (int k = 0; k < n.L; ++k) s.at(i, k) = (float)ctx[from + i][k];
    return s;
  };
  // new states and scores of a batch and of its members one by one
  for (int mode = 0; mode < 2; ++mode)
    for (int from = 0; from < N; from += mode ? 1 : N) {
      int cnt = mode ? 1 : N;
      auto in = ctxs(from, cnt), emb = al->allocate2d<float>(cnt, n.L, 64), out = al->allocate2d<float>(cnt, n.L, 64), ne = al->allocate2d<float>(cnt, n.L, 64);
      auto ids = al->allocate2d<i32>(cnt, n.order - 1);
      auto rid = al->allocateBuf<i32>(cnt);
      auto sc = al->allocateBuf<float>(cnt, 64);
      for (int i = 0; i < cnt; ++i) {
        for (int k = 0; k < n.L; ++k) emb.at(i, k) = n.emb[(size_t)word[from + i] * n.L + k], ne.at(i, k) = n.nce[(size_t)word[from + i] * n.L + k];
        for (int k = 0; k + 1 < n.order; ++k) ids.at(i, k) = hist[from + i][k];
        rid.at(i) = word[from + i];
      }
      mk::ParallelContextData pc{in, emb, out};
      rnn.computeNewParCtx(&pc);
      mk::ParallelStepData ps{ids, rid, in, ne, sc};
      rnn.applyParallel(&ps);
      for (int i = 0; i < cnt; ++i) {
        Vec e = n.step(ctx[from + i], word[from + i]);
        for (int k = 0; k < n.L; ++k) PCHECK(c, near(out.at(i, k), e[k]), "state " << k << " of item " << from + i << " in a batch of " << cnt << " is " << out.at(i, k) << ", must be " << e[k]);
        double s = n.raw(ctx[from + i], hist[from + i], word[from + i]) - nce;
        PCHECK(c, near(sc.at(i), s), "score of item " << from + i << " in a batch of " << cnt << " is " << sc.at(i) << ", must be " << s);
      }
    }
  // beam x words
  {
    auto in = ctxs(0, N), out = al->allocate2d<float>(N, n.L, 64), sc = al->allocate2d<float>(N, R, 64), re = al->allocate2d<float>(R, n.L, 64);
    auto ids = al->allocate2d<i32>(N, n.order - 1);
    auto rid = al->allocateBuf<i32>(R);
    auto le = al->allocateBuf<float>(n.L, 64);
    for (int k = 0; k < n.L; ++k) le.at(k) = n.emb[(size_t)word[0] * n.L + k];
    for (int i = 0; i < N; ++i)
      for (int k = 0; k + 1 < n.order; ++k) ids.at(i, k) = hist[i][k];
    for (int j = 0; j < R; ++j) {
      rid.at(j) = right[j];
      for (int k = 0; k < n.L; ++k) re.at(j, k) = n.nce[(size_t)right[j] * n.L + k];
    }
    mk::StepData sd{ids, rid, in, le, re, out, sc};
    rnn.apply(&sd);
    for (int i = 0; i < N; ++i) {
      Vec e = n.step(ctx[i], word[0]);
      for (int k = 0; k < n.L; ++k) PCHECK(c, near(out.at(i, k), e[k]), "beam state " << i << "," << k << " is " << out.at(i, k) << ", must be " << e[k]);
      for (int j = 0; j < R; ++j) {
        double s = n.raw(e, hist[i], right[j]) - nce;
        PCHECK(c, near(sc.at(i, j), s), "score of word " << j << " in beam " << i << " is " << sc.at(i, j) << ", must be " << s);
      }
    }
  }
  c.label("order " + std::to_string(n.order));
  c.labelIf(N > 1, "batch");
  c.labelIf(n.L > V, "more states than words");
  c.nontrivial(N > 1);
}

// ------------------------------------------------------------------ files
void file(Ctx& c) {
  Strs words = plainWords(c.oneOf({4, 2, 3, 9, 20, 1}));
  if (c.chance(1, 2))
    for (size_t i = 1; i < words.size(); ++i)
      if (c.chance(1, 3)) words[i] = c.oneOf<std::string>({"\"", "\"a\"", "a\"b", "\"\"", u8"語", "a,b", "\"x"}) + std::to_string(i);
  Net n = Net::make(c, words);
  std::string base = pbt::scratchFile(c, "lm"), nn = n.nnet(), vo = n.vocab();
  bool damage = c.chance(2, 3);
  std::string what = "intact";
  auto put = [&](size_t at, const void* p, size_t k) { nn.replace(at, k, (const char*)p, k); };
  if (damage) switch (c.weighted({5, 2, 3, 3, 3, 3, 2, 2, 2, 2})) {
      case 0: {
        size_t k = c.chance(1, 2) ? c.choose(std::min<size_t>(nn.size(), Net::kHeader + 8)) : c.choose(nn.size());
        nn.resize(k);
        what = "cut to " + std::to_string(k) + " bytes";
        break;
      }
      case 1: {
        int k = c.range(1, 9);
        nn += std::string(k, 'x');
        what = std::to_string(k) + " more bytes";
        break;
      }
      case 2: {
        uint64_t v = c.oneOf<uint64_t>({0, 1, 10, 50016, 70004, 60000, 69999, ~0ull, 60000ull + n.L + (1ull << 32), (uint64_t)n.L});
        if (v == 60000ull + n.L) v = 0;
        put(0, &v, 8);
        what = "size and version " + std::to_string(v);
        break;
      }
      case 3: {
        uint64_t v = c.oneOf<uint64_t>({0, 1, n.maxent - 1, n.maxent + 1, ~0ull, 1ull << 62, (1ull << 62) + n.maxent, 1ull << 40, 1ull << 33});
        put(8, &v, 8);
        what = "maximum entropy table of " + std::to_string(v);
        break;
      }
      case 4: {
        uint32_t v = c.oneOf<uint32_t>({0, 5, 6, 100, ~0u, 1u << 31});
        put(16, &v, 4);
        what = "order " + std::to_string(v);
        break;
      }
      case 5: {  // a table not larger than the vocabulary, consistently
        n.maxent = c.range(0, n.V());
        n.me.resize(n.maxent);
        nn = n.nnet();
        what = "small table of " + std::to_string(n.maxent);
        break;
      }
      case 6:
        nn[20] = 0;
        what = "not trained with NCE";
        break;
      case 7: {
        std::string t = c.oneOf<std::string>({"", "tanh", "sigmoid2", "sigmoi", std::string(64, 's'), "gru", "Sigmoid"});
        t.resize(64);
        nn.replace(26, 64, t);
        what = "layer type " + quote(t);
        break;
      }
      case 8: {  // another number of words
        bool more = c.chance(1, 2);
        if (more) vo += "more 1\n";
        else vo = vo.substr(0, vo.size() > 1 && vo.find('\n') + 1 < vo.size() ? vo.rfind('\n', vo.size() - 2) + 1 : 0);
        what = more ? "one word more" : "one word less";
        break;
      }
      case 9: {
        std::string g;
        for (int k = c.range(0, 200); k > 0; --k) g += (char)c.choose(256);
        nn = g;
        what = "garbage";
        break;
      }
    }
  c.describe(n.str() + "\n" + what);
  pbt::writeFile(base, vo);
  pbt::writeFile(base + ".nnet", nn);
  {
    std::unique_ptr<char[]> exact(new char[nn.size()]);
    memcpy(exact.get(), nn.data(), nn.size());
    mk::MikolovRnnModelHeader hd;
    size_t off = 0;
    Status hs = mk::readHeader(StringPiece(exact.get(), nn.size()), &hd, &off);
    PCHECK(c, damage || (hs.isOk() && off == Net::kHeader), "header");
  }
  mk::MikolovModelReader rd;
  Status s = rd.open(base);
  if (s) s = rd.parse();
  std::string m = w::msg(s);
  if (damage) {
    PCHECK(c, !s.isOk(), "a damaged model (" << what << ") is accepted: layer " << rd.header().layerSize << " order " << rd.header().maxentOrder << " maxent " << rd.header().maxentSize << " words " << rd.header().vocabSize);
    c.label("refused");
    c.nontrivial();
    return;
  }
  PCHECK(c, s.isOk(), "a good model is refused: " << m);
  auto& h = rd.header();
  PEQ(c, (int)h.layerSize, n.L, "layer size");
  PEQ(c, (int)h.maxentOrder, n.order, "order");
  PEQ(c, h.maxentSize, n.maxent, "maximum entropy table size");
  PEQ(c, (int)h.vocabSize, n.V(), "vocabulary size");
  PCHECK(c, h.nceLnz == n.lnz, "constant " << h.nceLnz);
  PEQ(c, rd.words().size(), n.words.size(), "words");
  for (size_t i = 0; i < n.words.size(); ++i) PEQ(c, rd.words()[i].str(), n.words[i], "word " << i);
  auto same = [&](util::ArraySlice<float> a, const std::vector<float>& b, const char* what) {
    PEQ(c, a.size(), b.size(), what);
    PCHECK(c, memcmp(a.begin(), b.data(), b.size() * 4) == 0, what << " differs");
  };
  same(rd.embeddings(), n.emb, "embeddings");
  same(rd.nceEmbeddings(), n.nce, "output weights");
  same(rd.rnnMatrix(), n.W, "matrix");
  same(rd.maxentWeights(), n.me, "maximum entropy weights");
  c.labelIf(vo.find('"') != std::string::npos, "quotes in words");
  c.label("read");
}

// ------------------------------------------------------------------ analysis
struct Lm {
  Net net;
  std::vector<int> fields;  // of the world
  std::string sep = "_", unkSym = "<unk>", eos = "</s>";
  int unkId = -1;
  bool setNce = false, setUnk = false, setW = false;
  float nceBias = 0, unkC = -6, unkL = -1.5f, w0 = 1, w1 = 1;
  std::vector<Strs> comps;  // of the words, normalised
  std::vector<char> known;
  an::rnn::RnnInferenceConfig cfg(const World& w) const {
    an::rnn::RnnInferenceConfig r;
    Strs f;
    for (int x : fields) f.push_back(w.fields[x].name);
    r.rnnFields = f;
    if (sep != "_") r.fieldSeparator = sep;
    if (unkSym != "<unk>") r.unkSymbol = unkSym;
    if (eos != "</s>") r.eosSymbol = eos;
    if (setNce) r.nceBias = nceBias;
    if (setUnk) r.unkConstantTerm = unkC, r.unkLengthPenalty = unkL;
    if (setW) r.perceptronWeight = w0, r.rnnWeight = w1;
    return r;
  }
  float nce() const { return setNce ? nceBias : net.lnz; }
  std::string str(const World& w) const {
    std::ostringstream o;
    o << net.str() << "\nfields";
    for (int f : fields) o << " " << w.fields[f].name;
    o << " sep " << quote(sep) << " unk " << quote(unkSym) << "=" << unkId << " nce " << nce() << (setNce ? " (set)" : "") << " unknown " << unkC << "+" << unkL << "n weights " << w0 << " " << w1;
    return o.str();
  }
};
// all strings stored together with the field
std::set<std::string> storage(const World& w, int f) {
  auto root = [&](int i) { return w.fields[i].storage >= 0 ? w.fields[i].storage : i; };
  std::set<std::string> r{""};
  for (size_t row = 0; row < w.rows.size(); ++row)
    for (int g = 0; g < (int)w.fields.size(); ++g) {
      auto& fd = w.fields[g];
      if (fd.kind == FInt || root(g) != root(f)) continue;
      std::string v = w.cell((int)row, g);
      if (v == fd.empty) continue;
      if (fd.kind == FString) r.insert(v);
      else if (fd.kind == FList) {
        for (auto& x : split(v, " ")) r.insert(x);
      } else
        for (auto& x : split(v, fd.listSep)) {
          size_t p = x.find(fd.kvSep);
          if (p == std::string::npos) r.insert(x);
          else r.insert(x.substr(0, p)), r.insert(x.substr(p + fd.kvSep.size()));
        }
    }
  return r;
}
World lmWorld(Ctx& c) {
  GenOpts o;
  o.maxRows = 10;
  o.rich = c.chance(1, 3);
  return genWorld(c, o);
}
Lm genLm(Ctx& c, const World& w, const Strs& sentences) {
  Lm m;
  auto ff = w.featureFields();
  std::vector<int> cand;
  for (int f : ff)
    if (w.fields[f].kind == FString) cand.push_back(f);
  int T = w.trieField();
  int nf = std::min<int>(1 + c.weighted({4, 4, 1}), (int)cand.size());
  if (c.chance(4, 5)) m.fields.push_back(T), cand.erase(std::find(cand.begin(), cand.end(), T));
  while ((int)m.fields.size() < nf) {
    size_t i = c.choose(cand.size());
    m.fields.push_back(cand[i]);
    cand.erase(cand.begin() + i);
  }
  m.sep = c.oneOf<std::string>({"_", "/", "+", "|", ","});
  if (c.chance(1, 6)) m.eos = "<eos>";
  switch (c.weighted({6, 1, 2})) {
    case 1: m.unkSym = "UNK"; break;
    case 2: m.unkSym = ""; break;
  }
  // candidates
  std::set<std::vector<std::string>> seen;
  Strs words{m.eos};
  m.comps.push_back({});
  std::vector<std::set<std::string>> st;
  for (int f : m.fields) st.push_back(storage(w, f));
  m.known.push_back(1);
  auto add = [&](Strs v) {
    Strs n = v;
    bool known = true;
    for (size_t i = 0; i < v.size(); ++i) {
      auto& s = v[i];
      if (s.find_first_of(" \n\r") != std::string::npos || s.find(m.sep) != std::string::npos || s.size() > 100) return;
      if (s == w.fields[m.fields[i]].empty) n[i] = "";
      known = known && st[i].count(n[i]);
    }
    std::string word = w::join(v, m.sep);
    if (word.empty() || word == m.eos || word == m.unkSym || !seen.insert(n).second) return;
    words.push_back(word);
    m.comps.push_back(n);
    m.known.push_back(known);
  };
  auto valOfRow = [&](int row) {
    Strs v;
    for (int f : m.fields) v.push_back(w.cell(row, f));
    return v;
  };
  std::string all;
  for (auto& s : sentences) all += s;
  Strs ch = cps(all);
  for (int k = c.range(0, 14); k > 0; --k) {
    switch (c.weighted({5, 4, 1})) {
      case 0: add(valOfRow((int)c.choose(w.rows.size()))); break;
      case 1: {  // an unknown word: part of a sentence, other fields of a template
        if (ch.empty()) break;
        size_t at = c.choose(ch.size()), len = 1 + c.choose(4);
        std::string s;
        for (size_t i = at; i < ch.size() && i < at + len; ++i) s += ch[i];
        int row = w.unks.empty() ? 0 : c.pick(w.unks).row - 1;
        Strs v = valOfRow(row);
        std::set<int> repl;
        if (!w.unks.empty())
          for (int x : c.pick(w.unks).surfaceTo) repl.insert(x);
        for (size_t i = 0; i < v.size(); ++i)
          if (repl.count(m.fields[i])) v[i] = s;
        add(v);
        break;
      }
      case 2: {
        Strs v;
        for (size_t i = 0; i < m.fields.size(); ++i) v.push_back(genItem(c));
        add(v);
        break;
      }
    }
  }
  if (!m.unkSym.empty()) {
    size_t at = 1 + c.choose(words.size());
    words.insert(words.begin() + at, m.unkSym);
    m.comps.insert(m.comps.begin() + at, Strs{});
    m.known.insert(m.known.begin() + at, 0);
    m.unkId = (int)at;
  }
  m.net = Net::make(c, words);
  if (c.chance(1, 2)) m.setNce = true, m.nceBias = c.oneOf({-9.f, 0.f, 5.f, 12.25f});
  if (c.chance(1, 2)) m.setUnk = true, m.unkC = c.oneOf({-3.f, 0.f, 8.f}), m.unkL = c.oneOf({-0.5f, 0.f, 2.f});
  if (c.chance(1, 2)) m.setW = true, m.w0 = c.oneOf({1.f, 0.5f, 0.f, 2.f}), m.w1 = c.oneOf({1.f, 0.25f, 3.f, -1.f});
  return m;
}
struct LmEngine {
  Weights weights;
  an::HashedFeaturePerceptron hfp;
  an::ScorerDef sdef;
  std::unique_ptr<w::Analyzer> an;
  LmEngine(Ctx& c, const core::CoreHolder* core, const Weights& w, const Beams& b, const an::AnalyzerConfig& cfg, an::ScorerFactory* lm, float w0, float w1)
      : weights(w), hfp(util::ArraySlice<float>(weights.v)) {
    sdef.feature = &hfp;
    sdef.scoreWeights.push_back(w0);
    if (lm) sdef.others.push_back(lm), sdef.scoreWeights.push_back(w1);
    an.reset(new w::Analyzer(core, core::ScoringConfig{b.beam, lm ? 2 : 1}, cfg));
    WOK(c, an->initScorers(sdef), "initScorers");
  }
  void run(Ctx& c, const std::string& s) {
    WOK(c, an->resetForInput(s), "resetForInput");
    WOK(c, an->prepareNodeSeeds(), "prepareNodeSeeds");
    WOK(c, an->buildLattice(), "buildLattice");
    WOK(c, an->bootstrapAnalysis(), "bootstrap");
    WOK(c, an->computeScores(&sdef), "computeScores");
  }
};
struct Step {
  int b, node;
  float perc, lm, total;
};
typedef std::vector<Step> Path;
struct Result {
  std::vector<Path> paths;          // of the last global beam, ends with the end of the sentence
  std::vector<float> eos;           // totals of the last beam
};
Result collect(Ctx& c, an::AnalyzerImpl* a, bool lm) {
  Result r;
  auto L = a->lattice();
  int nb = (int)L->createdBoundaryCount();
  if (nb <= 3) return r;
  auto last = L->boundary(nb - 1);
  auto gb = last->ends()->globalBeam();
  for (size_t i = 0; i < gb.size(); ++i) {
    Path p;
    const an::ConnectionPtr* ptr = &gb.at(i)->ptr;
    while (ptr->boundary >= 2) {
      auto sc = L->boundary(ptr->boundary)->scores()->nodeScores(ptr->right).beamLeft(ptr->beam, ptr->left);
      auto el = reinterpret_cast<const an::ConnectionBeamElement*>(ptr);
      p.push_back({ptr->boundary, ptr->right, sc.at(0), lm ? sc.at(1) : 0, el->totalScore});
      ptr = ptr->previous;
      PCHECK(c, ptr != nullptr, "a path without the beginning");
    }
    std::reverse(p.begin(), p.end());
    auto cand = reinterpret_cast<const an::BeamCandidate*>(L->lastGbeamRaw())[i];
    auto np = last->ends()->nodePtrs().at(cand.left());
    PCHECK(c, &L->boundary(np.boundary)->starts()->beamData().row(np.position).at(cand.beam()) == gb.at(i), "candidates of the last global beam differ from its elements");
    auto sc = last->scores()->nodeScores(0).beamLeft(cand.beam(), cand.left());
    p.push_back({nb - 1, 0, sc.at(0), lm ? sc.at(1) : 0, 0});
    r.paths.push_back(p);
  }
  for (auto& e : last->starts()->beamData().row(0)) {
    if (fake(e)) break;
    r.eos.push_back(e.totalScore);
  }
  return r;
}
std::string key(const Path& p) {
  std::string s;
  for (auto& x : p) {
    char b[64];
    snprintf(b, sizeof b, "%d/%d:%a ", x.b, x.node, x.perc);
    s += b;
  }
  return s;
}
struct Reference {
  const World& w;
  const Lm& m;
  std::map<std::pair<int, int>, std::pair<int, int>> id;  // node -> id, length
  int dicHit = 0, unkHit = 0, unkWord = 0, changed = 0, shared = 0;
  Reference(const World& w_, const Lm& m_) : w(w_), m(m_) {}
  void nodes(Ctx& c, const Model& md, w::Analyzer& a) {
    id.clear();
    auto ns = latticeNodes(c, w, a);
    for (auto& n : ns) {
      auto row = a.lattice()->boundary(n.boundary)->starts()->entryData().row(n.pos);
      int found = m.unkId;
      for (size_t k = 1; k < m.comps.size(); ++k) {
        if ((int)k == m.unkId || (n.unk() && m.known[k])) continue;
        bool ok = true;
        for (size_t i = 0; i < m.fields.size() && ok; ++i) {
          int f = m.fields[i];
          auto& comp = m.comps[k][i];
          ok = comp == n.first[f];
          if (n.unk()) {
            bool inStore = stores[i].count(comp) != 0;
            bool repl = row.at(md.dic.fieldByName(w.fields[f].name)->idxInEntry) < 0;
            ok = ok && repl == !inStore;
          }
        }
        if (ok) {
          found = (int)k;
          (n.unk() ? unkHit : dicHit)++;
          break;
        }
      }
      id[{n.boundary, n.pos}] = {found, n.end - n.start};
    }
  }
  std::vector<std::set<std::string>> stores;
  void check(Ctx& c, const Result& r, size_t beam) {
    std::vector<float> totals;
    int bestPerc = -1;
    float bp = 0;
    std::set<std::string> prefixes;
    for (size_t pi = 0; pi < r.paths.size(); ++pi) {
      auto& p = r.paths[pi];
      Vec ctx = m.net.bos();
      std::vector<int> hist{0, 0, 0, 0};
      double sum = 0, perc = 0;
      std::string pre;
      for (auto& x : p) {
        bool eos = &x == &p.back();
        auto i = eos ? std::make_pair(0, 0) : id.at({x.b, x.node});
        double e = i.first == m.unkId ? m.unkC + m.unkL * i.second : m.net.raw(ctx, hist, i.first) - m.nce();
        PCHECK(c, near(x.lm, e), "path " << pi << " of " << r.paths.size() << ": " << pathStr(p) << "\nscore of the word at " << x.b - 2 << " (vocabulary " << i.first << ") is " << x.lm << ", must be " << e);
        sum += m.w0 * (double)x.perc + m.w1 * (double)x.lm;
        perc += x.perc;
        if (!eos) {
          PCHECK(c, near(x.total, sum), "path " << pi << ": total at " << x.b - 2 << " is " << x.total << ", must be " << sum);
          ctx = m.net.step(ctx, std::max(i.first, 0));
          hist.insert(hist.begin(), i.first);
          hist.pop_back();
          unkWord += i.first == m.unkId;
          pre += std::to_string(x.b) + "/" + std::to_string(i.first) + "/" + std::to_string(i.second) + " ";
        }
      }
      shared += !prefixes.insert(pre).second;
      totals.push_back((float)sum);
      if (bestPerc < 0 || perc > bp) bestPerc = (int)pi, bp = (float)perc;
    }
    if (!totals.empty()) changed += std::max_element(totals.begin(), totals.end()) - totals.begin() != bestPerc;
    std::sort(totals.begin(), totals.end(), std::greater<float>());
    if (totals.size() > beam) totals.resize(beam);
    PEQ(c, r.eos.size(), totals.size(), "number of results");
    for (size_t i = 0; i < totals.size(); ++i) PCHECK(c, near(r.eos[i], totals[i]), "result " << i << " has the score " << r.eos[i] << ", must be " << totals[i]);
    for (size_t i = 1; i < r.eos.size(); ++i) PCHECK(c, r.eos[i - 1] >= r.eos[i], "results are not sorted");
  }
  std::string pathStr(const Path& p) const {
    std::string s;
    for (auto& x : p) {
      auto it = id.find({x.b, x.node});
      s += " " + std::to_string(x.b - 2) + ":" + (it == id.end() ? "EOS" : std::to_string(it->second.first) + "(" + std::to_string(it->second.second) + ")");
    }
    return s;
  }
};
Beams lmBeams(Ctx& c) {
  Beams b;
  b.beam = c.oneOf({1, 2, 3, 5, 10});
  b.gleft = c.oneOf({5, 1, 2, 3, 8, 12});
  b.rcheck = c.range(1, 4);
  b.rsize = c.range(1, 5);
  if (c.chance(1, 3)) b.rcheck = 0, b.rsize = 0;
  return b;
}
void paths(Ctx& c) {
  World w = lmWorld(c);
  Strs ss;
  for (int k = c.range(1, 3); k > 0; --k) ss.push_back(genSentence(c, w, 10));
  Lm lm = genLm(c, w, ss);
  Weights wt = Weights::make(c);
  Beams bm = lmBeams(c);
  auto cfg = bm.cfg();
  bool autoBeam = c.chance(1, 8);
  if (autoBeam) cfg.autoBeamStep = c.range(1, 4), cfg.autoBeamBase = c.range(1, 4), cfg.autoBeamMax = c.range(1, 12);
  c.describe(show(w) + "sentences: " + w::join(ss, " / ") + "\n" + bm.str() + (autoBeam ? " auto" : "") + "\n" + lm.str(w));
  Model m;
  m.build(c, w);
  std::string base = pbt::scratchFile(c, "lm");
  lm.net.write(base);
  an::RnnScorerGbeamFactory fac;
  WOK(c, fac.make(base, m.dic, lm.cfg(w)), "reading the language model");
  LmEngine e(c, m.core.get(), wt, bm, cfg, &fac, lm.w0, lm.w1), plain(c, m.core.get(), wt, bm, cfg, nullptr, 1, 0);
  Reference ref(w, lm);
  for (int f : lm.fields) ref.stores.push_back(storage(w, f));
  int np = 0;
  for (auto& s : ss) {
    e.run(c, s);
    plain.run(c, s);
    ref.nodes(c, m, *e.an);
    Result r = collect(c, e.an.get(), true), q = collect(c, plain.an.get(), false);
    PEQ(c, r.paths.size(), q.paths.size(), "number of paths with and without the language model");
    for (size_t i = 0; i < r.paths.size(); ++i) PEQ(c, key(r.paths[i]), key(q.paths[i]), "path " << i << " with and without the language model");
    size_t K = bm.beam;
    if (autoBeam) K = std::min<size_t>(cfg.autoBeamBase + cps(s).size() / cfg.autoBeamStep, cfg.autoBeamMax);
    ref.check(c, r, K);
    np += (int)r.paths.size();
  }
  c.labelIf(ref.dicHit > 0, "dictionary words of the vocabulary");
  c.labelIf(ref.unkHit > 0, "unknown words of the vocabulary");
  c.labelIf(ref.unkWord > 0, "words not in the vocabulary");
  c.labelIf(ref.changed > 0, "the language model changes the best path");
  c.labelIf(ref.shared > 0, "paths with the same words for the language model");
  c.labelIf(lm.fields.size() > 1, "several fields");
  c.labelIf(ss.size() > 1, "several sentences");
  c.label("order " + std::to_string(lm.net.order));
  c.nontrivial(np > 1 && ref.dicHit + ref.unkHit > 0);
}

// ------------------------------------------------------------------ saved in a model file
void saved(Ctx& c) {
  World w = lmWorld(c);
  std::string s = genSentence(c, w, 10);
  Lm lm = genLm(c, w, {s}), lm2;
  bool twice = c.chance(1, 4);
  if (twice) lm2 = genLm(c, w, {s});
  Weights wt = Weights::make(c);
  Beams bm = lmBeams(c);
  // options given when the model is used
  bool over = c.chance(1, 2);
  an::rnn::RnnInferenceConfig oc;
  Lm eff = twice ? lm2 : lm;
  if (over) {
    if (c.chance(1, 3)) oc.nceBias = 3.5f, eff.setNce = true, eff.nceBias = 3.5f;
    if (c.chance(1, 3)) oc.unkConstantTerm = -11.f, eff.unkC = -11;
    if (c.chance(1, 3)) oc.unkLengthPenalty = -0.25f, eff.unkL = -0.25f;
    if (c.chance(1, 3)) oc.perceptronWeight = 1.5f, eff.w0 = 1.5f;
    if (c.chance(1, 3)) oc.rnnWeight = 0.75f, eff.w1 = 0.75f;
    if (oc.isDefault()) over = false;
  }
  int damage = c.chance(1, 4) ? c.range(1, 9) : 0;
  std::ostringstream ds;
  ds << show(w) << "sentence: " << s << "\n" << bm.str() << "\n" << lm.str(w);
  if (twice) ds << "\nreplaced by " << lm2.str(w);
  if (over) ds << "\nused with" << oc;
  if (damage) ds << "\ndamage " << damage;
  c.describe(ds.str());
  Model m;
  m.build(c, w);
  std::string base = pbt::scratchFile(c, "lm"), f = pbt::scratchFile(c, "model");
  lm.net.write(base);
  tool::writeModel(c, m, wt.v, f);
  core::JumanppEnv env1, env3;
  WOK(c, env1.loadModel(f), "loadModel");
  WOK(c, env1.initFeatures(nullptr), "initFeatures");
  an::RnnScorerGbeamFactory fac;
  WOK(c, fac.make(base, env1.coreHolder()->dic(), lm.cfg(w)), "reading the language model");
  auto info = env1.modelInfoCopy();
  WOK(c, fac.makeInfo(&info, "the lm"), "makeInfo");
  std::string f2 = pbt::scratchFile(c, "model2");
  if (damage) {  // a part of the stored model is too short
    for (auto& p : info.parts)
      if (p.kind == core::model::ModelPartKind::Rnn) {
        if (damage <= 5) {
          size_t k = c.oneOf({3, 4, 5, 6});
          p.data[k] = StringPiece(p.data[k].begin(), p.data[k].size() - std::min<size_t>(p.data[k].size(), c.oneOf({4, 8, 64, 1 << 20})));
        } else if (damage <= 7) p.data.resize(c.choose(p.data.size()));
        else p.data[0] = StringPiece(p.data[0].begin(), c.choose(p.data[0].size()));
      }
  }
  auto save = [&](const core::model::ModelInfo& i, const std::string& file) {
    unlink(file.c_str());
    core::model::ModelSaver sv;
    WOK(c, sv.open(file), "ModelSaver.open");
    WOK(c, sv.save(i), "ModelSaver.save");
  };
  save(info, f2);
  if (damage) {
    core::JumanppEnv e2;
    Status st = e2.loadModel(f2);
    PCHECK(c, !st.isOk(), "a model with a damaged language model is accepted");
    c.label("refused");
    c.nontrivial();
    return;
  }
  if (twice) {
    core::JumanppEnv e2;
    WOK(c, e2.loadModel(f2), "loadModel with a language model");
    std::string base2 = pbt::scratchFile(c, "lm2");
    lm2.net.write(base2);
    an::RnnScorerGbeamFactory fac2;
    WOK(c, fac2.make(base2, e2.coreHolder()->dic(), lm2.cfg(w)), "reading another language model");
    auto i2 = e2.modelInfoCopy();
    WOK(c, fac2.makeInfo(&i2, "the other lm"), "makeInfo");
    f2 = pbt::scratchFile(c, "model3");
    save(i2, f2);
  }
  WOK(c, env3.loadModel(f2), "loadModel with the language model");
  PCHECK(c, env3.hasRnnModel(), "the language model is not found in the file");
  if (over) env3.setRnnConfig(oc);
  env3.setBeamSize(bm.beam);
  env3.setGlobalBeam(bm.gleft, bm.rcheck, bm.rsize);
  WOK(c, env3.initFeatures(nullptr), "initFeatures");
  core::VersionInfo vi;
  env3.fillVersion(&vi);
  PEQ(c, vi.rnn, std::string(twice ? "the other lm" : "the lm"), "comment of the language model");
  an::Analyzer a;
  WOK(c, env3.makeAnalyzer(&a), "makeAnalyzer");
  WOK(c, a.analyze(s), "analyze");
  Beams b = bm;
  LmEngine plain(c, m.core.get(), wt, b, b.cfg(), nullptr, 1, 0);
  plain.run(c, s);
  Reference ref(w, eff);
  for (int x : eff.fields) ref.stores.push_back(storage(w, x));
  ref.nodes(c, m, *plain.an);
  Result r = collect(c, a.impl(), true), q = collect(c, plain.an.get(), false);
  PEQ(c, r.paths.size(), q.paths.size(), "number of paths with and without the language model");
  for (size_t i = 0; i < r.paths.size(); ++i) PEQ(c, key(r.paths[i]), key(q.paths[i]), "path " << i << " with and without the language model");
  ref.check(c, r, bm.beam);
  c.labelIf(over, "other options");
  c.labelIf(twice, "replaced");
  c.labelIf(ref.changed > 0, "the language model changes the best path");
  c.nontrivial(r.paths.size() > 1 && ref.dicHit + ref.unkHit > 0);
}

// ------------------------------------------------------------------ vocabularies which cannot be used
void refused(Ctx& c) {
  World w = lmWorld(c);
  Lm lm = genLm(c, w, {genSentence(c, w, 6)});
  auto cfg = lm.cfg(w);
  Strs words = lm.net.words;
  std::string what;
  bool mayWork = false;
  auto ff = w.featureFields();
  switch (c.weighted({3, 2, 3, 2, 2, 2, 2, 1})) {
    case 0: {  // a field which nodes don't have, or of another type
      std::vector<int> bad;
      for (int i = 0; i < (int)w.fields.size(); ++i)
        if (!ff.count(i) || w.fields[i].kind != FString) bad.push_back(i);
      Strs n;
      for (int x : lm.fields) n.push_back(w.fields[x].name);
      n[c.choose(n.size())] = bad.empty() ? "nofield" : w.fields[c.pick(bad)].name;
      cfg.rnnFields = n;
      what = "fields " + w::join(n, ",");
      break;
    }
    case 1: words[0] = "x"; what = "no end of sentence"; if (lm.fields.size() != 1) what += " (and a wrong number of fields)"; break;
    case 2: {  // not the number of fields
      std::string x = "a";
      size_t n = lm.fields.size() + c.oneOf({-1, 1, 2});
      if (n == 0) n = 2;
      for (size_t i = 1; i < n; ++i) x += lm.sep + "b";
      words.push_back(x);
      what = "word " + quote(x);
      break;
    }
    case 3:
      if (lm.unkSym.empty()) cfg.unkSymbol = std::string("<unk>");
      else words[lm.unkId] = "x", cfg.rnnFields = Strs{w.fields[w.trieField()].name}, words.resize(2), words[1] = "x";
      if (lm.unkSym.empty()) { cfg.rnnFields = Strs{w.fields[w.trieField()].name}; words.resize(1); }
      what = "no symbol of unknown words";
      break;
    case 4: cfg.fieldSeparator = c.oneOf<std::string>({"", "::", u8"、"}); what = "separator " + quote(cfg.fieldSeparator.value()); break;
    case 5:
      if (words.size() < 2) words.push_back("zz");
      std::swap(words[0], words[1]);
      what = "end of sentence is not the first word";
      if (lm.fields.size() != 1 && words[0] == "zz") what += " (and fields)";
      break;
    case 7: {
      std::string x(c.oneOf({1 << 20, 1 << 21}) + c.range(0, 9), 'l');
      for (size_t i = 1; i < lm.fields.size(); ++i) x += lm.sep + "b";
      for (int k = 0; k < 3; ++k) words.push_back(x), x[0]++;
      what = "long words";
      mayWork = true;
      break;
    }
    case 6: {  // the same word twice
      if (words.size() < 2) { c.discard(); return; }
      words.push_back(words[1 + c.choose(words.size() - 1)]);
      what = "a word is given twice";
      mayWork = true;
      break;
    }
  }
  Net n = lm.net;
  n.words = words;
  n.maxent = words.size() + 10;
  n.emb.resize(n.L * words.size()), n.nce.resize(n.L * words.size()), n.me.resize(n.maxent);
  c.describe(show(w) + lm.str(w) + "\n" + what);
  Model m;
  m.build(c, w);
  std::string base = pbt::scratchFile(c, "lm");
  n.write(base);
  an::RnnScorerGbeamFactory fac;
  Status s = fac.make(base, m.dic, cfg);
  PCHECK(c, mayWork || !s.isOk(), "accepted: " << what);
  c.label(s.isOk() ? "accepted" : "refused");
  c.nontrivial();
}

// ------------------------------------------------------------------ the commands
void commands(Ctx& c) {
  jd::JOpts o;
  o.maxRows = 8;
  jd::JWorld jw = jd::genJWorld(c, o);
  jd::JModel m;
  m.build(c, jw);
  Strs text;
  for (int k = c.range(1, 3); k > 0; --k) {
    std::string s;
    for (int j = c.range(1, 6); j > 0; --j) s += c.chance(1, 2) && jw.rows.size() > jd::kTemplates ? jw.rows[jd::kTemplates + c.choose(jw.rows.size() - jd::kTemplates)].surface : c.pick(jw.alpha);
    std::string t;
    for (char ch : s)
      if (ch != '\n' && ch != '\r') t += ch;
    text.push_back(t.empty() ? "x" : t);
  }
  // vocabulary: base form and part of speech
  bool two = c.chance(1, 2);
  Strs words{"</s>", "<unk>"};
  std::set<std::string> seen(words.begin(), words.end());
  for (int k = c.range(0, 10); k > 0; --k) {
    auto& r = c.pick(jw.rows);
    std::string x = two ? r.baseform + "_" + r.pos : r.baseform;
    if (r.baseform.empty() || r.pos.empty() || x.find_first_of(" \n\r") != std::string::npos || (r.baseform + r.pos).find('_') != std::string::npos) continue;
    if (seen.insert(x).second) words.push_back(x);
  }
  Net n = Net::make(c, words);
  std::string base = pbt::scratchFile(c, "lm"), mf = pbt::scratchFile(c, "model"), mf2 = pbt::scratchFile(c, "model2");
  n.write(base);
  Weights wt = Weights::make(c);
  tool::writeModel(c, m, wt.v, mf);
  tool::Args lmArgs{"--rnn-fields=" + std::string(two ? "baseform,pos" : "baseform")};
  if (c.chance(1, 2)) lmArgs.push_back("--rnn-nce-bias=" + std::to_string(c.range(-5, 12)));
  if (c.chance(1, 2)) lmArgs.push_back("--rnn-unk-constant=" + std::to_string(c.range(-9, 3)));
  if (c.chance(1, 2)) lmArgs.push_back("--rnn-unk-length=" + std::to_string(c.range(-3, 1)));
  if (c.chance(1, 2)) lmArgs.push_back("--feature-weight-rnn=" + c.oneOf<std::string>({"0.5", "2", "-1"}));
  if (c.chance(1, 2)) lmArgs.push_back("--feature-weight-perceptron=" + c.oneOf<std::string>({"0.5", "2"}));
  bool damage = c.chance(1, 5);
  std::string d = "text " + quote(w::join(text, "\n")) + "\n" + n.str() + "\n" + w::join(lmArgs, " ");
  c.describe(d + (damage ? "\ndamaged" : ""));
  if (damage) {
    std::string nn = n.nnet();
    pbt::writeFile(base + ".nnet", nn.substr(0, c.choose(nn.size())));
  }
  tool::Args emb{"--model-input=" + mf, "--model-output=" + mf2, "--rnn-model=" + base};
  emb.insert(emb.end(), lmArgs.begin(), lmArgs.end());
  auto t = tool::run(c, "jumanpp_v2_train", emb);
  tool::sane(c, t, "jumanpp_train");
  tool::Args ana{"--model=" + mf, "--rnn-model=" + base, "--global-beam=6", "--right-check=1", "--right-beam=5", "--lattice=3"};
  if (c.chance(1, 2)) ana.back() = "--morph";
  tool::Args ana2{"--model=" + mf2};
  ana2.insert(ana2.end(), ana.begin() + 2, ana.end());
  ana.insert(ana.end(), lmArgs.begin(), lmArgs.end());
  std::string in = w::join(text, "\n") + "\n";
  auto x = tool::run(c, "jumanpp_v2", ana, in);
  tool::sane(c, x, "jumanpp");
  if (damage) {
    PCHECK(c, t.code != 0, "a damaged language model is stored");
    PCHECK(c, x.code != 0 && x.out.empty(), "a damaged language model is used: " << quote(x.out));
    c.label("refused");
    c.nontrivial();
    return;
  }
  PCHECK(c, t.code == 0, "the language model is not stored: " << quote(t.err));
  PCHECK(c, x.code == 0, "analysis fails: " << quote(x.err));
  auto y = tool::run(c, "jumanpp_v2", ana2, in);
  tool::sane(c, y, "jumanpp");
  PCHECK(c, y.code == 0, "analysis with the stored language model fails: " << quote(y.err));
  PEQ(c, y.out, x.out, "output with the stored language model and with its file");
  // in another process with the same analyzer, line by line
  tool::Args ana3{"--model=" + mf};
  ana3.insert(ana3.end(), ana.begin() + 2, ana.begin() + 6);
  auto z = tool::run(c, "jumanpp_v2", ana3, in);
  tool::sane(c, z, "jumanpp");
  c.labelIf(z.out != x.out, "the language model changes the output");
  c.nontrivial(z.out != x.out);
}
}  // namespace

int main(int argc, char** argv) {
  jumanpp::util::logging::CurrentLogLevel = jumanpp::util::logging::Level::Error;
  pbt::CheckDef d;
  d.id = "R01";
  d.assumptions = {
      "The log-probability is NCE self-normalised: nce[word].state + maximum entropy weights - constant; the constant is the one of the model file unless it is configured.",
      "Words before the beginning of the sentence count as the end-of-sentence word in the maximum entropy history (the trainer leaves such n-grams out; jumanpp pads by design).",
      "A word of the dictionary is looked up among vocabulary words all of whose values are strings of the dictionary, an unknown word only among those with a value which isn't.",
      "Scores are compared with a relative tolerance of 1e-4 (single precision, order of summation).",
      "Only paths of the global beam at the end of the sentence are scored by the language model; the others are not part of the result."};
  d.facets.push_back({"net", "networks of 1-32 units, orders 1-4, batches of 1-17 and one by one, beam form, against the definition in double precision; non-trivial: batch > 1", 4000, 100000, net});
  d.facets.push_back({"file", "network files: intact ones give back every number and word; cut, extended and edited ones are refused; non-trivial: damaged", 4000, 80000, file});
  d.facets.push_back({"paths", "every path of the last global beam in 1-3 sentences on one analyzer: language model score of every word, totals, order of results, paths equal to those without the model; non-trivial: more than one path and a vocabulary word", 4000, 100000, paths});
  d.facets.push_back({"saved", "language model stored in a model file and loaded, with options at use, replaced by another one, or with parts cut; non-trivial: more than one path and a vocabulary word, or damaged", 1500, 40000, saved});
  d.facets.push_back({"refused", "vocabularies and options which do not fit the dictionary; non-trivial: all", 1500, 30000, refused});
  d.facets.push_back({"commands", "jumanpp_train stores a language model, jumanpp uses it as it uses the file; non-trivial: it changes the output or the file is damaged", 60, 2500, commands});
  return pbt::runMain(argc, argv, d);
}
