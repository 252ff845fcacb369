// O01: the juman and morph formats print the best path with the contents of the dictionary
#include "core/impl/segmented_format.h"
#include "jumandic.h"
#include "jumandic/shared/juman_format.h"
#include "jumandic/shared/morph_format.h"
#include "pbt.h"
using namespace jd;

namespace {
std::string esc(const std::string& s) {
  if (s == " ") return u8"\\␣";
  if (s == "\t") return "\\t";
  return s;
}
Strs sortedFeats(const Row& r) {
  Strs v;
  for (auto& f : r.feats) v.push_back(featText(f));
  std::sort(v.begin(), v.end());
  return v;
}
std::string jumanHead(const Row& r) {
  Ids i = ids(r);
  auto n = [](int x) { return std::to_string(x); };
  return esc(r.surface) + " " + esc(r.reading) + " " + esc(r.baseform) + " " + r.pos + " " + n(i.pos) + " " + r.subpos + " " + n(i.subpos) + " " + r.conjtype + " " + n(i.ct) + " " +
         r.conjform + " " + n(i.cf) + " ";
}
// the semantic features of a line
void checkTail(Ctx& c, const std::string& tail, const Ref& e) {
  bool canonic = e.row.canonic != "*";
  Strs want = sortedFeats(e.row);
  std::string flags = flagText(e.flags);
  if (!e.special && !canonic && want.empty()) {
    PCHECK(c, tail == "NIL", "entry without features is printed with " << quote(tail));
    return;
  }
  PCHECK(c, tail.size() >= 2 && tail[0] == '"' && tail.back() == '"', "features are not quoted: " << quote(tail));
  std::string in = tail.substr(1, tail.size() - 2);
  if (canonic) {
    std::string pre = u8"代表表記:" + e.row.canonic;
    PCHECK(c, in.compare(0, pre.size(), pre) == 0, "canonic form " << quote(e.row.canonic) << " is not printed first: " << quote(tail));
    in = in.substr(pre.size());
    PCHECK(c, in.empty() == (want.empty() && flags.empty()), "features " << quote(tail) << " for " << quote(join(want, " ")));
    PCHECK(c, in.empty() || in[0] == ' ', "no blank after the canonic form: " << quote(tail));
    if (!in.empty()) in = in.substr(1);
  }
  Strs got = in.empty() ? Strs() : split(in, " ");
  if (!flags.empty()) {
    PCHECK(c, !got.empty() && got.back() == flags, "flags of the normalization " << quote(flags) << " are not printed last: " << quote(tail));
    got.pop_back();
  }
  std::sort(got.begin(), got.end());
  PCHECK(c, got == want, "features " << quote(join(got, " ")) << " are printed for " << quote(join(want, " ")));
}
std::string genComment(Ctx& c) {
  return c.weighted({3, 2}) == 0 ? "" : c.oneOf<std::string>({"S-ID:1", u8"文 1", "# x", " ", "EOS", "a\tb"});
}

void formats(Ctx& c) {
  JOpts o;
  o.maxRows = c.chance(1, 6) ? 80 : 25;
  JWorld w = genJWorld(c, o);
  JModel m;
  Weights wt = Weights::make(c);
  Beams bm = Beams::make(c);
  Strs texts, comments;
  for (int n = c.range(1, 4); n > 0; --n) {
    texts.push_back(c.chance(1, 8) ? "" : genText(c, w));
    comments.push_back(genComment(c));
  }
  std::string d = csv(w.rows) + bm.str() + "\n";
  for (size_t i = 0; i < texts.size(); ++i) d += "sentence: " + quote(texts[i]) + " comment " + quote(comments[i]) + "\n";
  c.describe(d);
  m.build(c, w, c.chance(1, 2) ? nullptr : jm::jumandicStaticFeatures());
  JEngine e(c, m, wt, bm.beam, bm.cfg());
  // on the heap, like in the program: the sanitizer fills new memory
  std::unique_ptr<jm::output::JumanFormat> jfp(new jm::output::JumanFormat);
  std::unique_ptr<jm::output::MorphFormat> mfp(new jm::output::MorphFormat(false)), ffp(new jm::output::MorphFormat(true));
  std::unique_ptr<core::output::SegmentedFormat> sfp(new core::output::SegmentedFormat);
  auto &jf = *jfp;
  auto &mf = *mfp, &ff = *ffp;
  auto& sf = *sfp;
  std::string sep = c.oneOf<std::string>({" ", "|", u8"　", "", "\n", "ab", "\t"});
  WOK(c, jf.initialize(e.an.output()), "JumanFormat");
  WOK(c, mf.initialize(e.an.output()), "MorphFormat");
  WOK(c, ff.initialize(e.an.output()), "full MorphFormat");
  WOK(c, sf.initialize(e.an.output(), *m.core, sep), "SegmentedFormat");
  for (size_t k = 0; k < texts.size(); ++k) {
    const std::string &t = texts[k], &cm = comments[k];
    WOK(c, e.an.analyze(t), "analysis of " + quote(t));
    WOK(c, jf.format(e.an, cm), "juman format");
    WOK(c, mf.format(e.an, cm), "morph format");
    WOK(c, ff.format(e.an, cm), "full morph format");
    WOK(c, sf.format(e.an, cm), "segmented format");
    std::string out = jf.result().str();
    c.note("juman output:\n" + out);
    NodeReader nr(c, m, e.an, t);
    std::vector<Node> nodes;
    an::Lattice* lat = e.an.impl()->lattice();
    if (!t.empty()) {
      auto eos = lat->boundary(lat->createdBoundaryCount() - 1);
      for (auto p : pathOf(eos->starts()->beamData().at(0))) nodes.push_back(nr.read(p->latticeNodePtr()));
    }
    // juman
    Strs lines = split(out, "\n");
    PCHECK(c, !lines.empty() && lines.back().empty(), "output does not end with a line end");
    lines.pop_back();
    size_t at = 0;
    if (!cm.empty()) {
      PCHECK(c, at < lines.size() && lines[at] == "# " + cm, "comment line is " << quote(lines.empty() ? "" : lines[0]));
      ++at;
    }
    std::string morph, full, seg;
    bool unk = false, alias = false, norm = false, odd = false, idsWithoutStar = false;
    for (size_t ni = 0; ni < nodes.size(); ++ni) {
      auto& n = nodes[ni];
      for (size_t i = 0; i < n.entries.size(); ++i) {
        auto& en = n.entries[i];
        PCHECK(c, at < lines.size(), "output ends before the entry " << quote(en.row.key()));
        std::string l = lines[at++];
        if (i) {
          PCHECK(c, l.compare(0, 2, "@ ") == 0, "line of an entry which is not distinguished: " << quote(l));
          l = l.substr(2);
          alias = true;
        }
        std::string head = jumanHead(en.row);
        PCHECK(c, l.compare(0, head.size(), head) == 0, "line " << quote(l) << " is printed for " << quote(head));
        checkTail(c, l.substr(head.size()), en);
        unk = unk || en.special;
        norm = norm || en.flags;
        odd = odd || esc(en.row.surface) != en.row.surface;
        idsWithoutStar = idsWithoutStar || ids(en.row).ct > 0;
      }
      auto& r = n.entries[0].row;
      seg += r.surface;
      if (ni + 1 < nodes.size()) seg += sep;
      // a missing coarse POS is printed as an empty string by these formats
      std::string p = r.pos == "*" ? "" : r.pos;
      morph += r.surface + "_" + p + ":" + r.subpos + " ";
      full += r.surface + "_" + r.reading + "_" + r.baseform + "_" + p + "_" + r.subpos + "_" + r.conjtype + "_" + r.conjform + " ";
    }
    PCHECK(c, at + 1 == lines.size() && lines[at] == "EOS", "after the last word stands " << quote(at < lines.size() ? lines[at] : "nothing") << ", not EOS");
    std::string tailc = cm.empty() ? "" : "# " + cm;
    auto same = [&](const std::string& got, std::string want, const char* what) {
      if (got == want) return;
      c.fail(std::string(what) + " output " + quote(got) + " for " + quote(want));
    };
    same(mf.result().str(), morph + tailc + "\n", "morph");
    same(ff.result().str(), full + tailc + "\n", "full morph");
    same(sf.result().str(), seg + "\n", "segmented");
    c.labelIf(unk, "unknown word printed");
    c.labelIf(norm, "normalized word printed");
    c.labelIf(alias, "entries which are not distinguished");
    c.labelIf(odd, "blank or tab as a word");
    c.labelIf(idsWithoutStar, "conjugation ids");
    c.labelIf(t.empty(), k == 0 ? "empty first sentence" : "empty later sentence");
    c.labelIf(nodes.size() > 3, "more than three words");
    if (!nodes.empty()) c.nontrivial();
  }
}

// ids of every combination of the tables, with parts of the names missing from the dictionary
void idTable(Ctx& c) {
  JWorld w;
  int n = c.range(9, 40);
  int style = c.range(0, 2);
  for (int i = 0; i < n; ++i) {
    Row r;
    r.surface = u8"あ" + std::to_string(i);
    r.baseform = r.reading = r.surface;
    posOf(c, r);
    if (style == 1) {
      auto& t = jm::posInfo[c.range(0, (int)jm::posInfoCount - 1)];
      r.pos = str(t.part1);
      if (c.chance(1, 2)) r.subpos = "*";
      else r.subpos = str(t.part2);
    }
    if (style == 2) {
      auto& t = jm::conjInfo[c.range(0, (int)jm::conjInfoCount - 1)];
      r.conjtype = str(t.part1);
      r.conjform = c.chance(1, 2) ? "*" : str(t.part2);
    }
    w.rows.push_back(r);
  }
  c.describe(csv(w.rows));
  JModel m;
  m.build(c, w);
  jm::JumandicIdResolver res;
  WOK(c, res.initialize(m.dic), "JumandicIdResolver");
  Weights wt;
  wt.v.resize(64);
  JEngine e(c, m, wt, 3, an::AnalyzerConfig());
  auto om = e.an.output();
  an::StringField f[5];
  const char* nm[] = {"surface", "pos", "subpos", "conjtype", "conjform"};
  for (int i = 0; i < 5; ++i) WOK(c, om.stringField(StringPiece::fromCString(nm[i]), &f[i]), "field");
  core::dic::DictionaryEntries ents = m.dic.entries();
  for (size_t k = kTemplates; k < w.rows.size(); ++k) {
    auto& r = w.rows[k];
    auto trav = ents.traversal();
    bool found = trav.step(r.surface) == core::dic::TraverseStatus::Ok;
    PCHECK(c, found, "word " << quote(r.surface) << " is not found");
    auto es = trav.entries();
    PCHECK(c, es.readOnePtr(), "no entry of " << quote(r.surface));
    core::EntryPtr ep = es.currentPtr();
    an::NodeWalker nw;
    PCHECK(c, om.locate(ep, &nw) && nw.next(), "entry is not found");
    auto j = res.dicToJuman({f[1].pointer(nw), f[2].pointer(nw), f[3].pointer(nw), f[4].pointer(nw)});
    Ids i = ids(r);
    std::string what = r.pos + " " + r.subpos + " " + r.conjtype + " " + r.conjform;
    PEQ(c, j.pos, i.pos, "POS id of " + what);
    PEQ(c, j.subpos, i.subpos, "fine POS id of " + what);
    PEQ(c, j.conjType, i.ct, "conjugation type id of " + what);
    PEQ(c, j.conjForm, i.cf, "conjugation form id of " + what);
    c.labelIf(i.pos == 0, "POS is not in the table");
    c.labelIf(i.pos && !i.subpos, "coarse POS only");
    c.labelIf(i.ct && !i.cf, "conjugation type only");
    c.labelIf(i.ct && i.cf, "conjugation type and form");
    if (i.pos) c.nontrivial();
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "O01";
  d.assumptions = {"dictionary words of the generated Jumandic dictionaries do not contain line ends; the features of an entry have different keys"};
  d.facets.push_back({"formats", "at least one word is printed and compared", 3000, 60000, formats});
  d.facets.push_back({"ids", "at least one entry has a POS of the table", 500, 10000, idTable});
  return pbt::runMain(argc, argv, d);
}
