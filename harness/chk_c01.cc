// C01: the command line tool prints one result per sentence in order and ends
#include <sstream>
#include "core/impl/segmented_format.h"
#include "core/input/pex_stream_reader.h"
#include "core/proto/lattice_dump_output.h"
#include "jumandic/shared/juman_format.h"
#include "jumandic/shared/juman_pb_format.h"
#include "jumandic/shared/jumanpp_pb_format.h"
#include "jumandic/shared/lattice_format.h"
#include "jumandic/shared/morph_format.h"
#include "jumandic/shared/subset_format.h"
#include "tool.h"
using namespace jd;

namespace {
enum Fmt { Juman, Morph, FullMorph, Segment, Lattice_, Subset, JumanPb, LatticePb, Dump };
struct Setup {
  Fmt fmt = Juman;
  int n = 1;  // of the N-best list
  std::string sep = " ";
  int beam = 5, gleft = 6, rcheck = 1, rsize = 5;
  tool::Args args;
  bool bare = false;  // --format=segment without separator
  std::string error() const {
    switch (fmt) {
      case Juman: case Lattice_: return "# ERROR\nEOS\n";
      case Morph: case FullMorph: return "# ERROR\n";
      case Segment: return "\n";
      default: return "";
    }
  }
};
Setup genSetup(Ctx& c) {
  Setup s;
  s.fmt = (Fmt)c.weighted({6, 2, 1, 4, 4, 1, 1, 1, 1});
  bool named = c.chance(1, 3);
  auto add = [&](const std::string& a) { s.args.push_back(a); };
  switch (s.fmt) {
    case Juman:
      if (c.chance(1, 2)) add(named ? "--format=juman" : c.oneOf<std::string>({"-j", "--juman"}));
      break;
    case Morph: add(named ? "--format=morph" : c.oneOf<std::string>({"-M", "--morph"})); break;
    case FullMorph: add(named ? "--format=full-morph" : c.oneOf<std::string>({"-F", "--full-morph"})); break;
    case Segment:
      add(named ? "--format=segment" : "--segment");
      if (c.chance(1, 2)) {
        s.sep = c.oneOf<std::string>({"|", u8"　", "ab", "\t"});
        add("--segment-separator=" + s.sep);
      }
      break;
    case Lattice_:
      s.n = c.oneOf({1, 2, 5, 8});
      if (c.chance(1, 2)) add("--lattice=" + std::to_string(s.n));
      else add("-s"), add(std::to_string(s.n));
      break;
    case Subset: add(named ? "--format=dic-subset" : "--dic-subset"); break;
    case JumanPb: add("--format=juman-pb"); break;
    case LatticePb: add("--format=lattice-pb"); break;
    case Dump: add("--format=lattice-dump"); break;
  }
  if (c.chance(1, 3)) s.beam = c.oneOf({1, 2, 10}), add("--beam=" + std::to_string(s.beam));
  if (c.chance(1, 4)) s.gleft = c.oneOf({1, 3, 8}), add("--global-beam=" + std::to_string(s.gleft));
  if (c.chance(1, 6)) s.rsize = c.oneOf({1, 3, 8}), add("--right-beam=" + std::to_string(s.rsize));
  s.beam = std::max(s.beam, s.fmt == Lattice_ ? s.n : 1);
  return s;
}
struct Chunk {
  std::string text;
  bool optional = false, error = false;
};
// expected output of single sentences
struct Oracle {
  Ctx& c;
  Setup st;
  JModel& m;
  std::unique_ptr<JEngine> e;
  jm::JumandicIdResolver res;
  Oracle(Ctx& c, const Setup& s, JModel& m, const Weights& wt) : c(c), st(s), m(m) {
    an::AnalyzerConfig cfg;
    cfg.globalBeamSize = s.gleft, cfg.rightGbeamCheck = s.rcheck, cfg.rightGbeamSize = s.rsize;
    e.reset(new JEngine(c, m, wt, s.beam, cfg));
    if (s.fmt == Dump) e->an.impl()->setStoreAllPatterns(true);
    WOK(c, res.initialize(m.dic), "resolver");
  }
  std::string format(const std::string& comment) {
    auto& om = e->an.output();
    std::unique_ptr<core::OutputFormat> f;
#define MAKE(T, ctor, ini)       \
  {                              \
    auto p = new T ctor;         \
    f.reset(p);                  \
    WOK(c, p->initialize ini, #T); \
  }
    switch (st.fmt) {
      case Juman: MAKE(jm::output::JumanFormat, , (om)) break;
      case Morph: MAKE(jm::output::MorphFormat, (false), (om)) break;
      case FullMorph: MAKE(jm::output::MorphFormat, (true), (om)) break;
      case Segment: MAKE(core::output::SegmentedFormat, , (om, *m.core, st.sep)) break;
      case Lattice_: MAKE(jm::output::LatticeFormat, (st.n), (om)) break;
      case Subset: MAKE(jm::output::SubsetFormat, , (om)) break;
      case JumanPb: MAKE(jm::JumanPbFormat, , (om, &res, true)) break;
      case LatticePb: MAKE(jm::JumanppProtobufOutput, , (om, &res, st.n, true)) break;
      case Dump: MAKE(core::output::LatticeDumpOutput, (true, true), (e->an.impl(), &e->hfp.weights())) break;
    }
    WOK(c, f->format(e->an, comment), "format");
    return f->result().str();
  }
  Chunk sentence(const std::string& text, const std::string& comment) {
    Chunk k;
    if (text.size() <= 65535 && comment.size() + 2 <= 1024 && e->an.analyze(text).isOk()) k.text = format(comment);
    else k.text = st.error(), k.error = true;
    return k;
  }
};
// the output is the sequence of the chunks, optional ones may be missing
bool matches(const std::string& out, size_t at, const std::vector<Chunk>& v, size_t i) {
  for (; i < v.size(); ++i) {
    bool here = out.compare(at, v[i].text.size(), v[i].text) == 0;
    if (v[i].optional) {
      if (here && matches(out, at + v[i].text.size(), v, i + 1)) return true;
      continue;
    }
    if (!here) return false;
    at += v[i].text.size();
  }
  return at == out.size();
}
void compare(Ctx& c, const std::string& out, const std::vector<Chunk>& v, const std::vector<std::string>& names) {
  if (matches(out, 0, v, 0)) return;
  size_t at = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    if (out.compare(at, v[i].text.size(), v[i].text) != 0) {
      if (v[i].optional) continue;
      c.fail("result " + std::to_string(i + 1) + ", of " + names[i] + ", is " + quote(out.substr(at, std::max<size_t>(200, v[i].text.size()))) + ", not " + quote(v[i].text.substr(0, 4000)));
    }
    at += v[i].text.size();
  }
  c.fail("after the last result stands " + quote(out.substr(at, 2000)));
}
std::string shorten(const std::string& s) { return s.size() > 300 ? quote(s.substr(0, 60)) + "... (" + std::to_string(s.size()) + " bytes)" : quote(s); }

std::string genLine(Ctx& c, const JWorld& w) {
  switch (c.weighted({12, 2, 1, 1, 1, 1, 1, 1})) {
    case 0: return genText(c, w, 6);
    case 1: return "";
    case 2: return genText(c, w, 3) + c.oneOf<std::string>({"\xff", "\xe3\x81", "\x80", "\xc0"}) + genText(c, w, 2);  // (not UTF-8)
    case 3: {                                                                                                   // over the limits of the size
      size_t n = c.oneOf<size_t>({4096, 4097, 5000, 65535, 65536, 70000});
      return std::string(n, n <= 4096 ? '\xff' : 'a');  // analysing the largest text takes too long
    }
    case 4: return c.oneOf<std::string>({"#", "# ", "#a", "## a", " # a", "EOS", "\r"});
    case 5: return genText(c, w, 3) + "\r";
    case 6: return std::string("a\0b", 3);
    case 7: return c.oneOf<std::string>({" ", "\t", u8"　"});
  }
  return "";
}
std::string genComment(Ctx& c) {
  if (c.chance(1, 12)) return std::string(c.oneOf<size_t>({1022, 1023, 1024, 3000}), 'c');
  return c.oneOf<std::string>({"S-ID:1", u8"文 1", "# x", " ", "EOS", "a\tb"});
}

struct Files {
  std::vector<std::string> content;
  std::vector<int> kind;  // 0 file, 1 missing, 2 directory
  bool std_ = true;
};
// raw input: lines of all files
void raw(Ctx& c) {
  JOpts o;
  o.maxRows = 15;
  JWorld w = genJWorld(c, o);
  Setup st = genSetup(c);
  Weights wt = Weights::make(c);
  Files f;
  f.std_ = c.chance(1, 3);
  int nf = f.std_ ? 1 : c.range(1, 4);
  std::vector<Chunk> exp, expPrefix;
  std::vector<std::string> names;
  struct Sent {
    std::string text, comment;
    bool optional, commented;
  };
  std::vector<std::vector<Sent>> sents(nf);
  std::string d;
  for (int i = 0; i < nf; ++i) {
    int kind = f.std_ ? 0 : c.weighted({10, 1, 1});
    std::string body;
    d += "input " + std::to_string(i) + (kind == 1 ? " is missing" : kind == 2 ? " is a directory" : "") + "\n";
    if (kind == 0) {
      int n = c.chance(1, 6) ? 0 : c.range(1, c.thorough ? 12 : 5);
      for (int k = 0; k < n; ++k) {
        Sent s{"", "", false, false};
        for (int q = c.weighted({4, 2, 1}); q > 0; --q) {
          s.comment = genComment(c);
          s.commented = true;
          body += "# " + s.comment + "\n";
          d += "  comment " + shorten(s.comment) + "\n";
        }
        s.text = genLine(c, w);
        if (s.text.size() > 2 && s.text[0] == '#' && s.text[1] == ' ') s.text = "x";
        d += "  sentence " + shorten(s.text) + "\n";
        body += s.text + "\n";
        sents[i].push_back(s);
      }
      if (c.chance(1, 6)) {  // a comment without a sentence
        Sent s{"", genComment(c), true, true};
        body += "# " + s.comment + "\n";
        d += "  last comment " + shorten(s.comment) + "\n";
        sents[i].push_back(s);
      } else if (c.chance(1, 4) && !body.empty()) {
        body.pop_back();
        d += "  (last line is not ended)\n";
        if (!sents[i].empty() && sents[i].back().text.empty()) {  // nothing follows
          if (sents[i].back().commented) sents[i].back().optional = true;
          else sents[i].pop_back();
        }
      }
    }
    f.content.push_back(body);
    f.kind.push_back(kind);
  }
  c.describe(csv(w.rows) + "arguments: " + join(st.args, " ") + (f.std_ ? " (standard input)\n" : "\n") + d);
  JModel m;
  m.build(c, w, jm::jumandicStaticFeatures());
  std::string model = pbt::scratchFile(c, "tool.jppmdl");
  tool::writeModel(c, m, wt.v, model);
  Oracle orc(c, st, m, wt);
  tool::Args a = st.args;
  a.push_back("--model=" + model);
  bool toFile = c.chance(1, 5);
  std::string outFile = pbt::scratchFile(c, "result");
  unlink(outFile.c_str());
  if (toFile) {
    if (c.chance(1, 2)) a.push_back("--output=" + outFile);
    else a.push_back("-o"), a.push_back(outFile);
  }
  std::string dir = pbt::scratchFile(c, "inputs");
  mkdir(dir.c_str(), 0700);
  bool bad = false, prefixOnly = false, readError = false;
  std::string input;
  for (int i = 0; i < nf; ++i) {
    std::string fn = dir + "/in" + std::to_string(i);
    unlink(fn.c_str()), rmdir(fn.c_str());
    if (f.kind[i] == 0) {
      if (f.std_) input = f.content[i];
      else pbt::writeFile(fn, f.content[i]);
    } else {
      bad = true;
      if (f.kind[i] == 2) mkdir(fn.c_str(), 0700);
    }
    if (!f.std_) a.push_back(fn);
    if (bad && !prefixOnly) prefixOnly = true, expPrefix = exp;
    for (auto& s : sents[i]) {
      Chunk k = orc.sentence(s.text, s.comment);
      k.optional = s.optional;
      c.labelIf(k.error, "sentence which can't be analysed");
      readError = readError || k.error;
      exp.push_back(k);
      names.push_back("the sentence " + shorten(s.text) + " of input " + std::to_string(i));
    }
  }
  tool::Ran r = tool::run(c, "jumanpp_v2", a, input);
  tool::sane(c, r, "jumanpp");
  std::string out = r.out;
  if (toFile) {
    PCHECK(c, r.out.empty(), "results for a file are printed to the standard output: " << quote(r.out.substr(0, 300)));
    out = pbt::readFile(outFile);
  }
  c.note("status " + std::to_string(r.code) + "\nerrors: " + r.err.substr(0, 3000));
  if (bad) {
    PCHECK(c, r.code != 0, "input which can't be read doesn't change the exit status");
    PCHECK(c, !r.err.empty(), "input which can't be read is not reported");
    // the program may give up, but not in the middle
    if (!matches(out, 0, expPrefix, 0)) compare(c, out, exp, names);
  } else {
    if (!readError) PCHECK(c, r.code == 0, "exit status " << r.code << " although everything was analysed; errors " << quote(r.err.substr(0, 2000)));
    else PCHECK(c, !r.err.empty(), "sentence which can't be analysed is not reported");
    compare(c, out, exp, names);
  }
  c.labelIf(nf > 1, "several files");
  c.labelIf(bad, "missing file");
  c.labelIf(toFile, "output file");
  static const char* fn[] = {"juman", "morph", "full morph", "segment", "lattice", "dic-subset", "juman-pb", "lattice-pb", "lattice-dump"};
  c.label(std::string("format ") + fn[st.fmt]);
  if (exp.size() > 1) c.nontrivial();
}

// partially annotated input: examples separated by empty lines
void partial(Ctx& c) {
  JOpts o;
  o.maxRows = 15;
  o.odd = false;
  JWorld w = genJWorld(c, o);
  Setup st = genSetup(c);
  Weights wt = Weights::make(c);
  struct Ex {
    std::string body, comment;
    bool optional;
  };
  std::vector<Ex> exs;
  auto frag = [&](int n) {
    std::string s;
    while (s.empty())
      for (int i = c.range(1, n); i > 0; --i) {
        auto& x = c.chance(1, 2) ? c.pick(w.rows).surface : c.pick(w.alpha);
        s += x;
      }
    return s;
  };
  std::string d, body;
  int n = c.range(1, c.thorough ? 10 : 5);
  for (int i = 0; i < n; ++i) {
    Ex e;
    e.optional = false;
    if (c.chance(1, 3)) {
      e.comment = c.oneOf<std::string>({"S-ID:1", u8"文 1", "x"});
      e.body += "# " + e.comment + "\n";
    }
    for (int k = c.range(1, 4); k > 0; --k) {
      switch (c.weighted({3, 1, 2, 2, 1})) {
        case 0: e.body += frag(3) + "\n"; break;
        case 1: e.body += frag(2) + "&" + frag(2) + "\n"; break;
        case 2: e.body += "\t" + frag(1) + "\n"; break;
        case 3: {
          auto& r = c.pick(w.rows);
          e.body += "\t" + r.surface + "\tpos:" + r.pos + "\n";
          break;
        }
        case 4: e.body += c.oneOf<std::string>({"\ta\tpos\n", "\ta\tnosuch:x\n", "x\ty\tz\n"}); break;  // malformed
      }
    }
    exs.push_back(e);
    body += e.body;
    if (i + 1 < n || c.chance(1, 2)) body += "\n";
    if (c.chance(1, 12) && i + 1 < n) {
      body += "\n";
      exs.push_back({"", "", true});
    }
  }
  c.describe(csv(w.rows) + "arguments: " + join(st.args, " ") + "\n" + body);
  JModel m;
  m.build(c, w, jm::jumandicStaticFeatures());
  std::string model = pbt::scratchFile(c, "tool.jppmdl");
  tool::writeModel(c, m, wt.v, model);
  Oracle orc(c, st, m, wt);
  std::vector<Chunk> exp;
  std::vector<std::string> names;
  bool err = false;
  for (auto& e : exs) {
    core::input::PexStreamReader rd;
    WOK(c, rd.initialize(*m.core, U'&'), "reader");
    std::istringstream is(e.body);
    Chunk k;
    Status s = rd.readExample(&is);
    if (s.isOk()) s = rd.analyzeWith(&orc.e->an);
    if (s.isOk()) k.text = orc.format(e.comment);
    else k.text = st.error(), k.error = true;
    k.optional = e.optional;
    err = err || k.error;
    exp.push_back(k);
    names.push_back("the example " + quote(e.body));
  }
  tool::Args a = st.args;
  a.push_back("--model=" + model);
  a.push_back("--partial-input");
  tool::Ran r = tool::run(c, "jumanpp_v2", a, body);
  tool::sane(c, r, "jumanpp");
  c.note("status " + std::to_string(r.code) + "\nerrors: " + r.err.substr(0, 3000));
  if (err) PCHECK(c, !r.err.empty(), "example which can't be read is not reported");
  else PCHECK(c, r.code == 0, "exit status " << r.code << "; errors " << quote(r.err.substr(0, 2000)));
  compare(c, r.out, exp, names);
  c.labelIf(err, "malformed example");
  c.labelIf(!err, "all examples are read");
  if (exp.size() > 1) c.nontrivial();
}

// arguments, models and files which can't be used
void unusable(Ctx& c) {
  JOpts o;
  o.maxRows = 5;
  JWorld w = genJWorld(c, o);
  Weights wt = Weights::make(c);
  JModel m;
  m.build(c, w, jm::jumandicStaticFeatures());
  std::string model = pbt::scratchFile(c, "tool.jppmdl"), cfg = pbt::scratchFile(c, "tool.config");
  tool::writeModel(c, m, wt.v, model);
  unlink(cfg.c_str());
  tool::Args a{"--model=" + model};
  std::string what;
  bool full = false, okToPass = false;
  switch (c.range(0, 13)) {
    case 0: what = "unknown option", a.push_back(c.oneOf<std::string>({"--nosuch", "-Q", "--beams=5", "--nosuch=1"})); break;
    case 1: what = "bad number", a.push_back(c.oneOf<std::string>({"--beam=x", "--beam=", "--beam=5x", "--global-beam=1.5", "--lattice=many", "--beam=99999999999999", "--log-level=high", "--right-beam=a"})); break;
    case 2: what = "bad auto beam", a.push_back("--auto-nbest=" + c.oneOf<std::string>({"5", "5:3", "a:b:c", "5:3:2:1", "5:3:", "99999999999:1:5"})); break;
    case 3: what = "unknown format", a.push_back(c.oneOf<std::string>({"--format=nosuch", "--format=", "--format=Juman"})); break;
    case 4: what = "missing model", a[0] = "--model=" + pbt::scratchFile(c, "nosuch.jppmdl"); break;
    case 5: what = "no model", a.clear(); break;
    case 6: {
      what = "truncated model";
      std::string s = pbt::readFile(model);
      s.resize(c.range(0, (int)s.size() - 1));
      pbt::writeFile(model, s);
      break;
    }
    case 7: {
      what = "not a model";
      std::string s = c.oneOf<std::string>({"", "x", "jp2Mdl!"});
      if (c.chance(1, 2)) s += std::string(c.oneOf({10, 4096, 10000}), 'x');
      pbt::writeFile(model, s);
      break;
    }
    case 8: what = "model without weights", tool::writeModel(c, m, wt.v, model, false); break;
    case 9: what = "missing configuration file", a.push_back("--config=" + cfg); break;
    case 10: what = "bad configuration file", pbt::writeFile(cfg, c.oneOf<std::string>({"--nosuch\n", "--beam=x\n", "--format=x\n", "--auto-nbest=1\n", "--beam\n"})), a.push_back("--config=" + cfg); break;
    case 11: what = "output file in a missing directory", a.push_back("--output=" + pbt::scratchFile(c, "nosuchdir/out")); break;
    case 12: what = "full output device", full = true; break;
    case 13: what = "beam of nonsense size", a.push_back(c.oneOf<std::string>({"--beam=0", "--beam=-1", "--global-beam=-1", "--lattice=0", "--lattice=-5", "--right-check=-1", "--right-beam=-1", "--right-beam=0", "--global-beam=0", "--auto-nbest=0:1:0", "--auto-nbest=3:5:0", "--auto-nbest=3:0:5", "--auto-nbest=0:5:10"})), okToPass = true; break;
  }
  bool first = c.chance(1, 2);
  if (first) std::rotate(a.begin(), a.end() - (a.empty() ? 0 : 1), a.end());
  std::string in = genText(c, w, 5) + "\n" + genText(c, w, 5) + "\n";
  c.describe(csv(w.rows) + what + "\narguments: " + join(a, " ") + "\n" + in);
  tool::Ran r = tool::run(c, "jumanpp_v2", a, in, "", full);
  tool::sane(c, r, "jumanpp");
  c.note("status " + std::to_string(r.code) + "\noutput " + r.out + "\nerrors: " + r.err.substr(0, 3000));
  if (!okToPass) {
    PCHECK(c, r.code != 0, what << ": the exit status is 0");
    PCHECK(c, !r.err.empty(), what << " is not reported");
    PCHECK(c, r.out.empty() || full, what << ": there are results " << quote(r.out.substr(0, 500)));
  } else if (r.code == 0) {  // accepted: then the sentences are analysed
    size_t eos = 0;
    for (size_t p = 0; p + 4 <= r.out.size(); ++p)
      if (r.out.compare(p, 4, "EOS\n") == 0 && (p == 0 || r.out[p - 1] == '\n')) ++eos;
    PCHECK(c, eos >= 2, "results are missing: " << quote(r.out.substr(0, 1000)));
  } else
    PCHECK(c, !r.err.empty(), what << " is not reported");
  c.label(what);
  c.nontrivial();
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "C01";
  d.assumptions = {"what is printed for a single sentence is taken from the same formatters in the process of the check (decided by O01 to O03)",
                   "of several comments before a sentence the last one counts", "a comment which no sentence follows may have a result of its own",
                   "a missing file may stop the program, with results of the files before it"};
  d.facets.push_back({"raw", "at least two sentences", 700, 12000, raw});
  d.facets.push_back({"partial", "at least two examples", 300, 5000, partial});
  d.facets.push_back({"unusable", "every case", 300, 3000, unusable});
  return pbt::runMain(argc, argv, d);
}
