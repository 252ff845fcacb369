// O02: the N-best formats describe exactly the N best paths
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <cmath>
#include "juman.pb.h"
#include "jumandic.h"
#include "jumandic/shared/jumanpp_pb_format.h"
#include "jumandic/shared/lattice_format.h"
#include "jumanpp.pb.h"
#include "pbt.h"
using namespace jd;

namespace {
struct PNode {
  Node n;
  std::set<std::pair<int, int>> prev;  // boundary, position; (0, 0) is the beginning
  std::vector<int> ranks;
  std::vector<double> total, local;  // per rank
  int id = 0;
};
typedef std::pair<int, int> Key;

struct Expect {
  std::map<Key, PNode> nodes;
  std::vector<double> scores;
  int paths = 0;
  void make(Ctx& c, NodeReader& nr, an::Lattice* lat, int topN) {
    auto eos = lat->boundary(lat->createdBoundaryCount() - 1)->starts()->beamData();
    std::set<std::vector<Key>> seen;
    for (int i = 0; i < topN && i < (int)eos.size(); ++i) {
      auto& e = eos.at(i);
      if (an::EntryBeam::isFake(e)) break;
      scores.push_back(e.totalScore);
      if (i) PCHECK(c, scores[i] <= scores[i - 1], "the path " << i + 1 << " has a better score than the path before");
      ++paths;
      std::vector<Key> way;
      Key before{0, 0};
      double sum = 0;
      for (auto p : pathOf(e)) {
        auto el = reinterpret_cast<const an::ConnectionBeamElement*>(p);
        Key k{p->boundary, p->right};
        auto& pn = nodes[k];
        if (pn.ranks.empty()) pn.n = nr.read(p->latticeNodePtr());
        pn.prev.insert(before);
        pn.ranks.push_back(i + 1);
        pn.total.push_back(el->totalScore);
        pn.local.push_back(el->totalScore - sum);
        sum = el->totalScore;
        before = k;
        way.push_back(k);
      }
      (void)seen;
    }
    int id = 1;
    for (auto& n : nodes) n.second.id = id++;
  }
};
bool near(double a, double b) { return std::fabs(a - b) <= 1e-3 * (1 + std::fabs(b)); }
double num(Ctx& c, const std::string& s) {
  char* e = nullptr;
  double d = strtod(s.c_str(), &e);
  PCHECK(c, e && !*e && !s.empty(), "not a number: " << quote(s));
  return d;
}
std::string tab(const std::string& s) { return s == "\t" ? "\\t" : s; }
std::string n2s(int i) { return std::to_string(i); }

void checkText(Ctx& c, const Expect& x, const std::string& out, const std::string& cm, bool empty) {
  Strs lines = split(out, "\n");
  PCHECK(c, lines.size() >= 2 && lines.back().empty(), "output has no lines");
  lines.pop_back();
  size_t at = 0;
  if (!cm.empty()) {
    PCHECK(c, lines[0] == "# " + cm, "comment line is " << quote(lines[0]));
    ++at;
  } else if (!empty) {
    std::string pre = "# MA-SCORE\t";
    PCHECK(c, lines[0].compare(0, pre.size(), pre) == 0, "first line is " << quote(lines[0]));
    Strs v = split(lines[0].substr(pre.size()), " ");
    if (!v.empty() && v.back().empty()) v.pop_back();
    PEQ(c, v.size(), x.scores.size(), "number of scores");
    for (size_t i = 0; i < v.size(); ++i) {
      std::string p = "rank" + n2s(i + 1) + ":";
      PCHECK(c, v[i].compare(0, p.size(), p) == 0, "score " << quote(v[i]));
      PCHECK(c, near(num(c, v[i].substr(p.size())), x.scores[i]), "score of rank " << i + 1 << " is " << v[i] << ", not " << x.scores[i]);
    }
    ++at;
  }
  for (auto& kv : x.nodes) {
    auto& pn = kv.second;
    Strs pv, rk;
    for (auto& k : pn.prev) pv.push_back(k.first == 0 ? "0" : n2s(x.nodes.at(k).id));
    for (int r : pn.ranks) rk.push_back(n2s(r));
    for (auto& en : pn.n.entries) {
      PCHECK(c, at < lines.size(), "the node " << pn.id << " is missing");
      auto& r = en.row;
      Ids i = ids(r);
      Strs f = split(lines[at], "\t");
      const std::string& l = lines[at++];
      PCHECK(c, r.canonic.find('\t') != std::string::npos || (r.canonic == "*" && (r.baseform + r.reading).find('\t') != std::string::npos) || f.size() == 18, "number of columns of " << quote(l));
      std::string can = r.canonic == "*" ? r.baseform + "/" + r.reading : r.canonic;
      int start = kv.first.first - 2, end = start + (int)cps(r.surface).size() - 1;
      std::string head = "-\t" + n2s(pn.id) + "\t" + join(pv, ";") + "\t" + n2s(start) + "\t" + n2s(end) + "\t" + tab(r.surface) + "\t" + can + "\t" + tab(r.reading) + "\t" + tab(r.baseform) + "\t";
      std::string tags = n2s(i.pos) + "\t" + r.subpos + "\t" + n2s(i.subpos) + "\t" + r.conjtype + "\t" + n2s(i.ct) + "\t" + r.conjform + "\t" + n2s(i.cf) + "\t";
      std::string h1 = head + r.pos + "\t" + tags, h2 = head + (r.pos == "*" ? "" : r.pos) + "\t" + tags;
      if (l.compare(0, h1.size(), h1) != 0 && l.compare(0, h2.size(), h2) != 0) c.fail("line " + quote(l) + " is printed for " + quote(h1));
      std::string rest = l.substr(l.compare(0, h1.size(), h1) == 0 ? h1.size() : h2.size());
      Strs v = split(rest, "|");
      PCHECK(c, v.size() >= 3, "features " << quote(rest));
      std::string pr = u8"ランク:";
      PCHECK(c, v.back() == pr + join(rk, ";"), "ranks " << quote(v.back()) << ", expected " << join(rk, ";"));
      v.pop_back();
      double best = *std::max_element(pn.local.begin(), pn.local.end());
      std::string pt = u8"形態素解析スコア:", pf = u8"特徴量スコア:";
      PCHECK(c, v.back().compare(0, pt.size(), pt) == 0, "total score " << quote(v.back()));
      PCHECK(c, near(num(c, v.back().substr(pt.size())), best), "score " << v.back() << " of the node " << pn.id << " is not " << best << ", the best one of its connections");
      v.pop_back();
      PCHECK(c, v.back().compare(0, pf.size(), pf) == 0, "feature score " << quote(v.back()));
      PCHECK(c, near(num(c, v.back().substr(pf.size())), best), "score " << v.back() << " of the node " << pn.id << " is not " << best << ", the best one of its connections");
      v.pop_back();
      std::string fl = flagText(en.flags);
      if (!fl.empty()) {
        PCHECK(c, !v.empty() && v.back() == fl, "flags of the normalization: " << quote(rest));
        v.pop_back();
      }
      Strs w;
      for (auto& ft : r.feats) w.push_back(featText(ft));
      std::sort(w.begin(), w.end());
      std::sort(v.begin(), v.end());
      PCHECK(c, v == w, "features " << quote(rest) << " are printed for " << quote(join(w, " ")));
    }
  }
  PCHECK(c, at + 1 == lines.size() && lines[at] == "EOS", "after the last node stands " << quote(at < lines.size() ? lines[at] : "nothing"));
}

void checkPb(Ctx& c, const Expect& x, const Lattice& L, const std::string& cm) {
  PCHECK(c, L.comment() == cm, "comment is " << quote(L.comment()));
  PEQ(c, (size_t)L.scores_size() == 0 ? x.scores.size() : (size_t)L.scores_size(), x.scores.size(), "number of scores");
  std::map<u32, Key> idOf;
  int at = 0;
  for (auto& kv : x.nodes) {  // ids first
    if (at >= L.nodes_size()) c.fail("protobuf: too few nodes");
    u32 id = L.nodes(at).node_id();
    PCHECK(c, !idOf.count(id), "two nodes have the id " << id);
    idOf[id] = kv.first;
    at += (int)kv.second.n.entries.size();
  }
  PEQ(c, L.nodes_size(), at, "number of nodes in the protobuf output");
  at = 0;
  for (auto& kv : x.nodes) {
    auto& pn = kv.second;
    u32 id = L.nodes(at).node_id();
    for (auto& en : pn.n.entries) {
      auto& n = L.nodes(at++);
      auto& r = en.row;
      PEQ(c, n.node_id(), id, "id of an entry of the same node");
      std::set<Key> pv;
      for (u32 p : n.prev_nodes()) {
        PCHECK(c, idOf.count(p), "previous node " << p << " does not exist");
        pv.insert(idOf[p]);
      }
      PEQ(c, (int)pv.size(), n.prev_nodes_size(), "previous nodes are listed twice");
      std::set<Key> want = pn.prev;
      want.erase(Key{0, 0});
      PCHECK(c, pv == want, "previous nodes of the node " << id);
      int start = kv.first.first - 2, end = start + (int)cps(r.surface).size();
      PEQ(c, (int)n.start_index(), start, "start of " + quote(r.surface));
      PEQ(c, (int)n.end_index(), end, "end of " + quote(r.surface));
      PCHECK(c, n.surface() == r.surface && n.reading() == r.reading && n.dicform() == r.baseform, "strings of the node " << quote(n.surface()) << " " << quote(n.reading()) << " " << quote(n.dicform()) << ", expected " << quote(r.key()));
      std::string can = r.canonic == "*" ? r.baseform + "/" + r.reading : r.canonic;
      PCHECK(c, n.canonical() == can, "canonic form " << quote(n.canonical()) << ", expected " << quote(can));
      Ids i = ids(r);
      PCHECK(c, (int)n.pos().pos() == i.pos && (int)n.pos().subpos() == i.subpos && (int)n.pos().conj_type() == i.ct && (int)n.pos().conj_form() == i.cf,
             "ids " << n.pos().pos() << "-" << n.pos().subpos() << "-" << n.pos().conj_type() << "-" << n.pos().conj_form() << " of " << r.pos << "-" << r.subpos << "-" << r.conjtype << "-" << r.conjform);
      auto& sp = n.string_pos();
      PCHECK(c, sp.pos() == r.pos && sp.subpos() == r.subpos && sp.conj_type() == r.conjtype && sp.conj_form() == r.conjform,
             "tags " << sp.pos() << "-" << sp.subpos() << "-" << sp.conj_type() << "-" << sp.conj_form() << " of " << r.pos << "-" << r.subpos << "-" << r.conjtype << "-" << r.conjform);
      Strs f, w;
      for (auto& ft : r.feats) w.push_back(featText(ft));
      for (auto& ft : n.features()) f.push_back(ft.has_value() ? ft.key() + ":" + ft.value() : ft.key());
      std::sort(w.begin(), w.end());
      std::sort(f.begin(), f.end());
      PCHECK(c, f == w, "features " << quote(join(f, " ")) << ", expected " << quote(join(w, " ")));
      PEQ(c, n.ranks_size(), (int)pn.ranks.size(), "number of ranks");
      PEQ(c, n.cumulative_scores_size(), (int)pn.ranks.size(), "number of scores");
      PEQ(c, n.score_details_size(), (int)pn.ranks.size(), "number of score details");
      for (int k = 0; k < n.ranks_size(); ++k) {
        PEQ(c, (int)n.ranks(k), pn.ranks[k], "rank");
        PCHECK(c, near(n.cumulative_scores(k), pn.total[k]), "score of the path up to the node: " << n.cumulative_scores(k) << ", not " << pn.total[k]);
        PCHECK(c, near(n.score_details(k).linear(), pn.local[k]), "score of the node in rank " << pn.ranks[k] << ": " << n.score_details(k).linear() << ", not " << pn.local[k]);
      }
    }
  }
}

void nbest(Ctx& c) {
  JOpts o;
  o.maxRows = c.chance(1, 6) ? 60 : 25;
  JWorld w = genJWorld(c, o);
  JModel m;
  Weights wt = Weights::make(c);
  Beams bm = Beams::make(c);
  int topN = c.oneOf({1, 2, 3, 5, 10, 20});
  an::AnalyzerConfig cfg = bm.cfg();
  bool autob = c.chance(1, 4);
  if (autob) {
    cfg.autoBeamBase = c.range(1, 4);
    cfg.autoBeamStep = c.range(1, 4);
    cfg.autoBeamMax = cfg.autoBeamBase + c.range(0, 6);
    if (cfg.globalBeamSize == 0) cfg.globalBeamSize = cfg.autoBeamMax;
  }
  Strs texts, comments;
  for (int n = c.range(1, 3); n > 0; --n) {
    texts.push_back(c.chance(1, 10) ? "" : genText(c, w));
    comments.push_back(c.chance(2, 3) ? "" : c.oneOf<std::string>({"S-ID:1", u8"文 1", "# x", "EOS"}));
  }
  std::string d = csv(w.rows) + bm.str() + " top " + n2s(topN) + (autob ? " auto beam " + n2s(cfg.autoBeamBase) + "/" + n2s(cfg.autoBeamStep) + "/" + n2s(cfg.autoBeamMax) : "") + "\n";
  for (size_t i = 0; i < texts.size(); ++i) d += "sentence: " + quote(texts[i]) + " comment " + quote(comments[i]) + "\n";
  c.describe(d);
  m.build(c, w, c.chance(1, 2) ? nullptr : jm::jumandicStaticFeatures());
  JEngine e(c, m, wt, bm.beam, cfg);
  std::unique_ptr<jm::output::LatticeFormat> lf(new jm::output::LatticeFormat(topN));
  WOK(c, lf->initialize(e.an.output()), "LatticeFormat");
  jm::JumandicIdResolver res;
  WOK(c, res.initialize(m.dic), "resolver");
  std::unique_ptr<jm::JumanppProtobufOutput> pf(new jm::JumanppProtobufOutput);
  WOK(c, pf->initialize(e.an.output(), &res, topN, true), "JumanppProtobufOutput");
  for (size_t k = 0; k < texts.size(); ++k) {
    const std::string &t = texts[k], &cm = comments[k];
    WOK(c, e.an.analyze(t), "analysis of " + quote(t));
    NodeReader nr(c, m, e.an, t);
    an::Lattice* lat = e.an.impl()->lattice();
    Expect x, y;
    if (!t.empty()) {
      int n = topN;
      if (autob) n = std::min<int>(cfg.autoBeamBase + (int)cps(t).size() / cfg.autoBeamStep, cfg.autoBeamMax);
      x.make(c, nr, lat, n);
      y.make(c, nr, lat, topN);
    }
    WOK(c, lf->format(e.an, cm), "lattice format");
    std::string out = lf->result().str();
    c.note("lattice output:\n" + out);
    checkText(c, x, out, cm, t.empty());
    WOK(c, pf->format(e.an, cm), "protobuf format");
    checkPb(c, y, *pf->objectPtr(), cm);
    // the bytes: the length and the message
    std::string bytes = pf->result().str();
    google::protobuf::io::ArrayInputStream is(bytes.data(), (int)bytes.size());
    google::protobuf::io::CodedInputStream cis(&is);
    google::protobuf::uint32 len = 0;
    PCHECK(c, cis.ReadVarint32(&len), "no length in the protobuf output");
    PEQ(c, (size_t)len + cis.CurrentPosition(), bytes.size(), "length of the protobuf output");
    Lattice L;
    PCHECK(c, L.ParseFromString(bytes.substr(cis.CurrentPosition())), "the protobuf output is not parsed");
    checkPb(c, y, L, cm);
    bool multi = false, shared = false, special = false, several = false;
    for (auto& n : x.nodes) {
      multi = multi || n.second.ranks.size() > 1;
      shared = shared || n.second.prev.size() > 1;
      special = special || n.second.n.entries[0].special;
      std::set<double> l(n.second.local.begin(), n.second.local.end());
      several = several || l.size() > 1;
    }
    c.labelIf(multi, "node on several paths");
    c.labelIf(shared, "node with several previous nodes");
    c.labelIf(several, "node with connections of different scores");
    c.labelIf(special, "unknown word");
    c.labelIf(x.paths < topN && !t.empty(), "fewer paths than requested");
    c.labelIf(x.paths > 3, "more than three paths");
    c.labelIf(t.empty(), "empty sentence");
    c.labelIf(autob, "auto beam");
    if (x.paths > 1) c.nontrivial();
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "O02";
  d.assumptions = {"the perceptron is the only scorer", "the paths of the N best list are those of the beam at the end of the sentence (what that beam has to contain is decided by A01 and A03)"};
  d.facets.push_back({"nbest", "at least two paths are printed and compared", 4000, 80000, nbest});
  return pbt::runMain(argc, argv, d);
}
