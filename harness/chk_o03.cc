// O03: the protobuf, dictionary subset and lattice dump outputs describe the same analysis
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <cmath>
#include "core/proto/lattice_dump_output.h"
#include "juman.pb.h"
#include "jumandic.h"
#include "jumandic/shared/juman_pb_format.h"
#include "jumandic/shared/morph_format.h"
#include "jumandic/shared/subset_format.h"
#include "lattice_dump.pb.h"
#include "pbt.h"
using namespace jd;

namespace {
struct Case {
  JWorld w;
  JModel m;
  Weights wt;
  Beams bm;
  an::AnalyzerConfig cfg;
  Strs texts, comments;
  std::unique_ptr<JEngine> e;
  Case(Ctx& c, bool newlines, bool dynamicOnly = false) {
    JOpts o;
    o.newlines = newlines;
    o.maxRows = c.chance(1, 6) ? 60 : 25;
    w = genJWorld(c, o);
    wt = Weights::make(c);
    bm = Beams::make(c);
    cfg = bm.cfg();
    for (int n = c.range(1, 3); n > 0; --n) {
      texts.push_back(c.chance(1, 10) ? "" : genText(c, w, 10, newlines));
      comments.push_back(c.chance(1, 2) ? "" : c.oneOf<std::string>({"S-ID:1", u8"文 1", "# x", "EOS"}));
    }
    std::string d = csv(w.rows) + bm.str() + "\n";
    for (size_t i = 0; i < texts.size(); ++i) d += "sentence: " + quote(texts[i]) + " comment " + quote(comments[i]) + "\n";
    bool st = !dynamicOnly && c.chance(1, 2);
    c.describe(d + (st ? "static features\n" : "dynamic features\n"));
    m.build(c, w, st ? jm::jumandicStaticFeatures() : nullptr);
    e.reset(new JEngine(c, m, wt, bm.beam, cfg));
  }
};
// a message with its length in front
template <typename M>
void parseDelimited(Ctx& c, const std::string& bytes, M* msg) {
  google::protobuf::io::ArrayInputStream is(bytes.data(), (int)bytes.size());
  google::protobuf::io::CodedInputStream cis(&is);
  google::protobuf::uint32 len = 0;
  PCHECK(c, cis.ReadVarint32(&len), "no length in the protobuf output");
  PEQ(c, (size_t)len + cis.CurrentPosition(), bytes.size(), "length of the protobuf output");
  PCHECK(c, msg->ParseFromString(bytes.substr(cis.CurrentPosition())), "the protobuf output is not parsed");
}
std::vector<Node> bestPath(NodeReader& nr, an::Lattice* lat, bool empty) {
  std::vector<Node> nodes;
  if (empty) return nodes;
  auto eos = lat->boundary(lat->createdBoundaryCount() - 1);
  for (auto p : pathOf(eos->starts()->beamData().at(0))) nodes.push_back(nr.read(p->latticeNodePtr()));
  return nodes;
}

// ---- juman protobuf
void checkMorph(Ctx& c, const JumanMorpheme& mm, const Ref& en) {
  auto& r = en.row;
  PCHECK(c, mm.surface() == r.surface && mm.reading() == r.reading && mm.baseform() == r.baseform,
         "strings " << quote(mm.surface()) << " " << quote(mm.reading()) << " " << quote(mm.baseform()) << " of " << quote(r.key()));
  Ids i = ids(r);
  auto& p = mm.posinfo();
  PCHECK(c, (int)p.pos() == i.pos && (int)p.subpos() == i.subpos && (int)p.conj_type() == i.ct && (int)p.conj_form() == i.cf,
         "ids " << p.pos() << "-" << p.subpos() << "-" << p.conj_type() << "-" << p.conj_form() << " of " << quote(r.key()));
  auto& s = mm.string_pos();
  PCHECK(c, s.pos() == r.pos && s.subpos() == r.subpos && s.conj_type() == r.conjtype && s.conj_form() == r.conjform,
         "tags " << s.pos() << "-" << s.subpos() << "-" << s.conj_type() << "-" << s.conj_form() << " of " << quote(r.key()));
  Strs f, w;
  int at = 0;
  if (r.canonic != "*") {
    PCHECK(c, mm.features_size() > 0 && mm.features(0).key() == u8"代表表記" && mm.features(0).value() == r.canonic, "canonic form of " << quote(r.key()));
    ++at;
  }
  for (; at < mm.features_size(); ++at) {
    auto& ft = mm.features(at);
    f.push_back(ft.has_value() ? ft.key() + ":" + ft.value() : ft.key());
  }
  for (auto& ft : r.feats) w.push_back(featText(ft));
  std::sort(w.begin(), w.end());
  std::sort(f.begin(), f.end());
  PCHECK(c, f == w, "features " << quote(join(f, " ")) << ", expected " << quote(join(w, " ")));
}
void checkSentence(Ctx& c, const JumanSentence& s, const std::vector<Node>& nodes, const std::string& cm) {
  PCHECK(c, s.comment() == cm, "comment " << quote(s.comment()));
  PEQ(c, (size_t)s.morphemes_size(), nodes.size(), "number of words");
  for (size_t i = 0; i < nodes.size(); ++i) {
    auto& mm = s.morphemes((int)i);
    PEQ(c, (size_t)mm.variants_size() + 1, nodes[i].entries.size(), "number of entries of the word " + std::to_string(i));
    checkMorph(c, mm, nodes[i].entries[0]);
    for (int k = 0; k < mm.variants_size(); ++k) checkMorph(c, mm.variants(k), nodes[i].entries[k + 1]);
  }
}
void jumanPb(Ctx& c) {
  Case s(c, c.chance(1, 4));
  auto& an = s.e->an;
  jm::JumandicIdResolver res;
  WOK(c, res.initialize(s.m.dic), "resolver");
  std::unique_ptr<jm::JumanPbFormat> pf(new jm::JumanPbFormat), of(new jm::JumanPbFormat);
  WOK(c, pf->initialize(an.output(), &res, true), "JumanPbFormat");
  WOK(c, of->initialize(an.output(), &res, false), "JumanPbFormat");
  for (size_t k = 0; k < s.texts.size(); ++k) {
    const std::string &t = s.texts[k], &cm = s.comments[k];
    WOK(c, an.analyze(t), "analysis of " + quote(t));
    NodeReader nr(c, s.m, an, t);
    auto nodes = bestPath(nr, an.impl()->lattice(), t.empty());
    WOK(c, pf->format(an, cm), "protobuf format");
    WOK(c, of->format(an, cm), "protobuf format");
    c.note(pf->objectPtr()->DebugString());
    checkSentence(c, *pf->objectPtr(), nodes, cm);
    checkSentence(c, *of->objectPtr(), nodes, cm);
    PCHECK(c, of->result().empty(), "the format without buffer has a buffer");
    JumanSentence back;
    parseDelimited(c, pf->result().str(), &back);
    checkSentence(c, back, nodes, cm);
    bool alias = false, unk = false;
    for (auto& n : nodes) alias = alias || n.entries.size() > 1, unk = unk || n.entries[0].special;
    c.labelIf(alias, "word with several entries");
    c.labelIf(unk, "unknown word");
    c.labelIf(t.empty(), "empty sentence");
    c.labelIf(pf->result().size() > 300, "message over 300 bytes");
    if (nodes.size() > 1) c.nontrivial();
  }
}

// ---- subset of the dictionary
std::vector<Strs> parseCsv(Ctx& c, const std::string& s) {
  std::vector<Strs> rows;
  size_t i = 0;
  while (i < s.size()) {
    Strs r;
    for (;;) {
      std::string cell;
      if (i < s.size() && s[i] == '"') {
        ++i;
        for (;;) {
          PCHECK(c, i < s.size(), "quoted cell does not end: " << quote(s));
          if (s[i] != '"') cell += s[i++];
          else if (i + 1 < s.size() && s[i + 1] == '"') cell += '"', i += 2;
          else {
            ++i;
            break;
          }
        }
        PCHECK(c, i < s.size() && (s[i] == ',' || s[i] == '\n'), "text after a quoted cell: " << quote(s));
      } else
        while (i < s.size() && s[i] != ',' && s[i] != '\n') {
          PCHECK(c, s[i] != '"', "quote inside of a cell: " << quote(s));
          cell += s[i++];
        }
      r.push_back(cell);
      PCHECK(c, i < s.size(), "last row has no line end: " << quote(s));
      if (s[i++] == '\n') break;
    }
    rows.push_back(r);
  }
  return rows;
}
std::string canon(const Strs& cellsOf) {  // order of features is not kept
  Strs v = cellsOf;
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i] == "*") v[i] = "";
    if (i == 11) {
      if (v[i] == "NIL") v[i] = "";
      Strs f = split(v[i], " ");
      std::sort(f.begin(), f.end());
      v[i] = join(f, " ");
    }
  }
  return join(v, "\x02");
}
const std::string kHead = "#### MRPH output ####\n", kMid = "\n\n### SUBSET OF DICTIONARY\n";
std::multiset<std::string> subsetOf(Ctx& c, const std::string& out, const std::string& morph, std::string* text) {
  std::string pre = kHead + morph + kMid;
  PCHECK(c, out.compare(0, pre.size(), pre) == 0, "output begins with " << quote(out) << ", not " << quote(pre));
  *text = out.substr(pre.size());
  std::multiset<std::string> res;
  for (auto& r : parseCsv(c, *text)) {
    PEQ(c, r.size(), 12u, "number of columns of " + quote(join(r, ",")));
    res.insert(canon(r));
  }
  return res;
}
void compareSets(Ctx& c, std::multiset<std::string> got, std::multiset<std::string> want, const char* what) {
  for (auto& g : want) {
    auto it = got.find(g);
    if (it == got.end()) c.fail(std::string(what) + ": the entry " + quote(g) + " is missing");
    got.erase(it);
  }
  for (auto& g : got)
    if (want.count(g)) c.fail(std::string(what) + ": the entry " + quote(g) + " is printed too often");
  if (!got.empty()) c.fail(std::string(what) + ": the entry " + quote(*got.begin()) + " is not in the sentence");
}
void subset(Ctx& c) {
  Case s(c, c.chance(1, 2));
  auto& an = s.e->an;
  std::unique_ptr<jm::output::SubsetFormat> sf(new jm::output::SubsetFormat);
  std::unique_ptr<jm::output::MorphFormat> mf(new jm::output::MorphFormat(true));
  WOK(c, sf->initialize(an.output()), "SubsetFormat");
  WOK(c, mf->initialize(an.output()), "MorphFormat");
  for (size_t k = 0; k < s.texts.size(); ++k) {
    const std::string &t = s.texts[k], &cm = s.comments[k];
    WOK(c, an.analyze(t), "analysis of " + quote(t));
    WOK(c, sf->format(an, cm), "subset format");
    WOK(c, mf->format(an, cm), "morph format");
    std::string out = sf->result().str();
    c.note("output:\n" + out);
    Strs ch = cps(t);
    std::set<std::string> parts;
    for (size_t i = 0; i < ch.size(); ++i) {
      std::string x;
      for (size_t j = i; j < ch.size(); ++j) parts.insert(x += ch[j]);
    }
    std::multiset<std::string> want;
    std::map<std::string, int> occ;
    std::vector<Row> sub(s.w.rows.begin(), s.w.rows.begin() + kTemplates);
    bool quotedNl = false, aliases = false, feats = false;
    std::set<std::string> keys;
    for (size_t i = kTemplates; i < s.w.rows.size(); ++i) {
      auto& r = s.w.rows[i];
      if (!parts.count(r.surface)) continue;
      want.insert(canon(cells(r)));
      quotedNl = quotedNl || (r.surface + r.reading + r.canonic).find_first_of("\n\r") != std::string::npos;
      aliases = aliases || !keys.insert(r.key()).second;
      feats = feats || r.feats.size() > 1;
    }
    std::string text;
    auto got = subsetOf(c, out, mf->result().str(), &text);
    compareSets(c, got, want, "subset");
    // used as a dictionary
    JModel m2;
    WOK(c, jm::SpecFactory::makeSpec(&m2.spec), "specification");
    WOK(c, m2.builder.importSpec(&m2.spec), "importSpec");
    m2.text = csv(sub) + text;
    Status st = m2.builder.importCsv("subset", m2.text);
    if (!st.isOk()) c.fail("the subset is refused as a dictionary: " + st.message().str() + "\n" + quote(text));
    WOK(c, m2.dic.load(m2.builder.result()), "dictionary load");
    m2.core.reset(new core::CoreHolder(m2.builder.result().spec, m2.dic));
    WOK(c, m2.core->initialize(nullptr), "core init");
    JEngine e2(c, m2, s.wt, s.bm.beam, s.cfg);
    WOK(c, e2.an.analyze(t), "analysis with the subset of " + quote(t));
    std::unique_ptr<jm::output::SubsetFormat> sf2(new jm::output::SubsetFormat);
    std::unique_ptr<jm::output::MorphFormat> mf2(new jm::output::MorphFormat(true));
    WOK(c, sf2->initialize(e2.an.output()), "SubsetFormat");
    WOK(c, mf2->initialize(e2.an.output()), "MorphFormat");
    WOK(c, sf2->format(e2.an, cm), "subset format");
    WOK(c, mf2->format(e2.an, cm), "morph format");
    std::string text2;
    auto got2 = subsetOf(c, sf2->result().str(), mf2->result().str(), &text2);
    compareSets(c, got2, want, "subset of the subset");
    if (want.size() > 1) c.nontrivial();
    c.labelIf(quotedNl, "line end in a value");
    c.labelIf(aliases, "entries which are not distinguished");
    c.labelIf(feats, "several features");
    c.labelIf(want.empty(), "no dictionary word applies");
    c.labelIf(t.empty(), "empty sentence");
  }
}

// ---- dump of the lattice
void checkValues(Ctx& c, const jumanpp::LatticeDumpNode& n, const Ref& en, const std::map<std::string, int>& col) {
  auto& r = en.row;
  PEQ(c, (size_t)n.values_size(), col.size(), "number of values");
  auto sv = [&](const char* name) {
    auto& v = n.values(col.at(name));
    PCHECK(c, v.value_case() == jumanpp::FieldValue::kString, name << " is not a string");
    return v.string();
  };
  auto eq = [&](const char* name, const std::string& want) {
    std::string g = sv(name);
    PCHECK(c, g == (want == "*" && std::string(name) != "surface" && std::string(name) != "baseform" && std::string(name) != "reading" ? "" : want),
           name << " is " << quote(g) << ", not " << quote(want));
  };
  eq("surface", r.surface);
  eq("pos", r.pos);
  eq("subpos", r.subpos);
  eq("conjform", r.conjform);
  eq("conjtype", r.conjtype);
  eq("baseform", r.baseform);
  eq("reading", r.reading);
  eq("canonic", r.canonic);
  auto& kv = n.values(col.at("features"));
  PCHECK(c, kv.value_case() == jumanpp::FieldValue::kKvlist, "features are not a list of pairs");
  Strs f, w;
  for (auto& x : kv.kvlist().values()) f.push_back(x.key() + "\x02" + x.value());
  for (auto& x : r.feats) w.push_back(x.first + "\x02" + (x.second == kNoValue ? "" : x.second));
  std::sort(f.begin(), f.end());
  std::sort(w.begin(), w.end());
  PCHECK(c, f == w, "features " << quote(join(f, " ")) << ", expected " << quote(join(w, " ")));
}
bool near(double a, double b) { return std::fabs(a - b) <= 1e-3 * (1 + std::fabs(b)); }

void checkDump(Ctx& c, const jumanpp::LatticeDump& d, Case& s, const std::string& t, const std::string& cm, bool withFeatures) {
  auto& an = s.e->an;
  an::Lattice* lat = an.impl()->lattice();
  NodeReader nr(c, s.m, an, t);
  PCHECK(c, d.surface() == t, "surface of the dump is " << quote(d.surface()));
  PCHECK(c, d.comment() == cm, "comment of the dump is " << quote(d.comment()));
  std::map<std::string, int> col;
  for (int i = 0; i < d.field_names_size(); ++i) col[d.field_names(i)] = i;
  c.note("fields: " + join(Strs(d.field_names().begin(), d.field_names().end()), " "));
  PEQ(c, d.field_names_size(), (int)s.m.core->spec().dictionary.fields.size(), "number of fields");
  for (auto n : {"surface", "pos", "subpos", "conjform", "conjtype", "baseform", "reading", "canonic", "features"}) PCHECK(c, col.count(n), "field " << n << " is missing");
  PEQ(c, d.surface_idx(), col["surface"], "index of the surface");
  PEQ(c, d.boundaries_size(), lat->createdBoundaryCount() - 2, "number of boundaries");
  int last = lat->createdBoundaryCount() - 1;
  // ranks
  std::map<std::pair<int, int>, std::set<int>> nodeRanks;
  std::map<std::tuple<int, int, int>, std::set<int>> pathRanks;
  if (!t.empty()) {
    auto eos = lat->boundary(last)->starts()->beamData().row(0);
    for (int i = 0; i < (int)eos.size(); ++i) {
      if (an::EntryBeam::isFake(eos.at(i))) break;
      for (const an::ConnectionPtr* p = &eos.at(i).ptr; p && p->boundary >= 2; p = p->previous) {
        nodeRanks[{p->boundary, p->right}].insert(i);
        // position of the element in the beam of its node
        auto row = lat->boundary(p->boundary)->starts()->beamData().row(p->right);
        int at = -1;
        for (int k = 0; k < (int)row.size(); ++k)
          if (&row.at(k).ptr == p) at = k;
        PCHECK(c, at >= 0, "path element is not in the beam of its node");
        pathRanks[std::make_tuple((int)p->boundary, (int)p->right, at)].insert(i);
      }
    }
  }
  auto beamIdx = [&](const an::ConnectionPtr* p) {
    auto row = lat->boundary(p->boundary)->starts()->beamData().row(p->right);
    for (int k = 0; k < (int)row.size(); ++k)
      if (&row.at(k).ptr == p) return k;
    return -1;
  };
  bool variants = false, multi = false, unkNode = false;
  Strs ch = cps(t);
  for (int b = 2; b <= last; ++b) {
    auto& bd = d.boundaries(b - 2);
    auto st = lat->boundary(b)->starts();
    PEQ(c, bd.nodes_size(), (int)st->numEntries(), "number of nodes of a boundary");
    for (int i = 0; i < bd.nodes_size(); ++i) {
      auto& n = bd.nodes(i);
      auto info = st->nodeInfo().at(i);
      PEQ(c, n.length(), (int)info.numCodepoints(), "length of a node");
      PEQ(c, n.entry_ptr(), info.entryPtr().rawValue(), "pointer of a node");
      if (b == last) {
        PCHECK(c, n.surface() == "EOS", "surface of the last node");
      } else {
        Node x = nr.read(an::LatticeNodePtr::make(b, i));
        PCHECK(c, n.surface() == x.entries[0].row.surface, "surface " << quote(n.surface()) << " of the node " << quote(x.entries[0].row.key()));
        PEQ(c, (size_t)n.variants_size() + 1, x.entries.size(), "number of entries of the node " + quote(x.entries[0].row.key()));
        checkValues(c, n, x.entries[0], col);
        for (int k = 0; k < n.variants_size(); ++k) checkValues(c, n.variants(k), x.entries[k + 1], col);
        variants = variants || n.variants_size() > 0;
        unkNode = unkNode || x.entries[0].special;
      }
      std::set<int> rk(n.ranks().begin(), n.ranks().end());
      PCHECK(c, rk == (nodeRanks[{b, i}]), "ranks of the node " << b << ":" << i);
      PEQ(c, n.ranks_size(), (int)rk.size(), "ranks are listed twice");
      int want = 0;
      if (!t.empty()) {
        auto row = st->beamData().row(i);
        while (want < (int)row.size() && !an::EntryBeam::isFake(row.at(want))) ++want;
        PEQ(c, n.beams_size(), want, "number of beam elements of the node " + std::to_string(b) + ":" + std::to_string(i));
        for (int k = 0; k < want; ++k) {
          auto& e = row.at(k);
          auto& be = n.beams(k);
          PCHECK(c, be.cum_score() == e.totalScore, "total score of a beam element");
          std::set<int> pr(be.ranks().begin(), be.ranks().end());
          PCHECK(c, pr == (pathRanks[std::make_tuple(b, i, k)]), "ranks of a beam element");
          multi = multi || pr.size() > 1;
          PEQ(c, be.nodes_size(), 3, "number of words of a connection");
          const an::ConnectionPtr* t1 = e.ptr.previous;
          const an::ConnectionPtr* t2 = t1->previous;
          auto same = [&](const jumanpp::PathPointer& pp, const an::ConnectionPtr* p, int bi, const char* what) {
            PCHECK(c, pp.boundary() == p->boundary && pp.node() == p->right && pp.beam() == bi,
                   what << " of the connection is " << pp.boundary() << ":" << pp.node() << ":" << pp.beam() << ", not " << p->boundary << ":" << p->right << ":" << bi);
          };
          same(be.nodes(2), &e.ptr, k, "word");
          if (t1->boundary >= 2) same(be.nodes(1), t1, beamIdx(t1), "previous word");
          if (t2->boundary >= 2) same(be.nodes(0), t2, beamIdx(t2), "word before the previous word");
          double before = t1->boundary >= 2 ? reinterpret_cast<const an::ConnectionBeamElement*>(t1)->totalScore : 0;
          PEQ(c, be.raw_scores_size(), 1, "number of scores");
          PCHECK(c, near(be.raw_scores(0), e.totalScore - before), "score of a connection is " << be.raw_scores(0) << ", not " << e.totalScore - before);
          if (withFeatures) {
            double sum = 0;
            for (auto& fi : be.features()) {
              sum += fi.weight();
              PCHECK(c, fi.masked_value() == (fi.raw_value() & (s.e->hfp.weights().size() - 1)), "masked value");
              PCHECK(c, fi.weight() == s.e->hfp.weights().at(fi.masked_value()), "weight of a feature");
            }
            PEQ(c, (size_t)be.features_size(), s.m.core->spec().features.ngram.size(), "number of features");
            PCHECK(c, near(sum, be.raw_scores(0)), "weights of the features of node " << b << ":" << i << " sum up to " << sum << ", the score is " << be.raw_scores(0));
          } else
            PEQ(c, be.features_size(), 0, "features");
        }
      } else
        PEQ(c, n.beams_size(), 0, "beam of an empty sentence");
    }
  }
  c.labelIf(variants, "node with several entries");
  c.labelIf(multi, "connection on several paths");
  c.labelIf(unkNode, "unknown word");
}
void dump(Ctx& c) {
  Case s(c, c.chance(1, 4));
  auto& an = s.e->an;
  bool feats = c.chance(2, 3);
  std::unique_ptr<core::output::LatticeDumpOutput> df(new core::output::LatticeDumpOutput(feats, true));
  WOK(c, df->initialize(an.impl(), &s.e->hfp.weights()), "LatticeDumpOutput");
  if (feats) an.impl()->setStoreAllPatterns(true);
  for (size_t k = 0; k < s.texts.size(); ++k) {
    const std::string &t = s.texts[k], &cm = s.comments[k];
    WOK(c, an.analyze(t), "analysis of " + quote(t));
    WOK(c, df->format(an, cm), "dump");
    checkDump(c, *df->objectPtr(), s, t, cm, feats);
    jumanpp::LatticeDump back;
    parseDelimited(c, df->result().str(), &back);
    checkDump(c, back, s, t, cm, feats);
    c.labelIf(t.empty(), "empty sentence");
    c.labelIf(feats, "with features");
    if (cps(t).size() > 1) c.nontrivial();
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "O03";
  d.assumptions = {"the perceptron is the only scorer", "the first eight rows of the dictionary are the templates of unknown words",
                   "an absent value ('*') and an empty value of a column are the same (the specification declares '*' as empty)"};
  d.facets.push_back({"juman-pb", "the sentence has at least two words", 1500, 30000, jumanPb});
  d.facets.push_back({"subset", "at least two dictionary entries apply to the sentence", 1500, 30000, subset});
  d.facets.push_back({"dump", "the sentence has at least two characters", 800, 16000, dump});
  return pbt::runMain(argc, argv, d);
}
