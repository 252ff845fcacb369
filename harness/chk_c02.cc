// C02: options take effect as given, the command line before the configuration file
#include <limits.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <map>
#include <set>
#include "jumandic/shared/jumanpp_args.h"
#include "pbt.h"
#include "core/analysis/rnn_scorer.h"
#include "util/logging.hpp"
using namespace pbt;
using namespace jumanpp;
namespace jm = jumanpp::jumandic;

namespace {
typedef std::vector<std::string> Strs;
typedef std::map<std::string, std::string> Values;  // field -> value as text

struct Opt {
  std::string field;
  Strs spell;  // with or without value
  char kind;   // i integer, s string, f float, b flag
  std::string value;  // of the field for a flag
};
const std::vector<Opt>& opts() {
  static const std::vector<Opt> o = {
      {"output", {"--output", "-o"}, 's', ""},
      {"logLevel", {"--log-level"}, 'i', ""},
      {"inputType", {"--partial-input"}, 'b', "partial"},
      {"type", {"--juman", "-j"}, 'b', "juman"},
      {"type", {"--morph", "-M"}, 'b', "morph"},
      {"type", {"--full-morph", "-F"}, 'b', "full-morph"},
      {"type", {"--dic-subset"}, 'b', "dic-subset"},
      {"type", {"--segment"}, 'b', "segment"},
      {"type", {"--version", "-v"}, 'b', "version"},
      {"type", {"--model-info"}, 'b', "model-info"},
      {"type", {"--format"}, 'F', ""},
      {"type", {"--lattice", "--specifics", "-L", "-s"}, 'L', ""},
      {"sep", {"--segment-separator"}, 's', ""},
      {"graphviz", {"--graphviz-dir"}, 's', ""},
      {"rnnModel", {"--rnn-model"}, 's', ""},
      {"beam", {"--beam"}, 'i', ""},
      {"gbeam", {"--global-beam"}, 'i', ""},
      {"rcheck", {"--right-check"}, 'i', ""},
      {"rbeam", {"--right-beam"}, 'i', ""},
      {"auto", {"--auto-nbest"}, 'A', ""},
      {"nceBias", {"--rnn-nce-bias"}, 'f', ""},
      {"unkConst", {"--rnn-unk-constant"}, 'f', ""},
      {"unkLen", {"--rnn-unk-length"}, 'f', ""},
      {"wPerc", {"--feature-weight-perceptron"}, 'f', ""},
      {"wRnn", {"--feature-weight-rnn"}, 'f', ""},
      {"unkSym", {"--rnn-unk"}, 's', ""},
      {"eosSym", {"--rnn-eos"}, 's', ""},
      {"rnnFields", {"--rnn-fields"}, 'l', ""},
      {"rnnSep", {"--rnn-separator"}, 's', ""},
      {"model", {"--model"}, 'm', ""},
  };
  return o;
}
std::string join(const Strs& v, const std::string& s) {
  std::string r;
  for (size_t i = 0; i < v.size(); ++i) r += (i ? s : "") + v[i];
  return r;
}
struct Source {
  Strs tokens;
  Values set;
  bool bad = false;
  std::string badWhat;
};
std::string num(int i) { return std::to_string(i); }
// options of a source in any order
Source genSource(Ctx& c, bool file, const Strs& models) {
  Source s;
  std::set<std::string> used;
  std::vector<Strs> parts;
  int n = c.weighted({2, 4, 4, 3, 2, 1, 1});
  n = n == 6 ? 12 : n;
  for (int k = 0; k < n; ++k) {
    auto& o = c.pick(opts());
    if (!used.insert(o.field).second) continue;
    if (o.field == "auto" && (used.count("beam") || used.count("gbeam"))) continue;
    if ((o.field == "beam" || o.field == "gbeam") && used.count("auto")) continue;
    std::string sp = c.pick(o.spell), v;
    bool longOpt = sp.compare(0, 2, "--") == 0;
    switch (o.kind) {
      case 'b':
        s.set[o.field] = o.value;
        parts.push_back({sp});
        continue;
      case 'i': v = num(c.oneOf({0, 1, 2, 3, 5, 6, 7, 10, 100, 12345})), s.set[o.field] = v; break;
      case 'f': v = c.oneOf<std::string>({"0", "1", "-1.5", "0.25", "5.5", "-3.25", "1e3"}), s.set[o.field] = num((int)(strtod(v.c_str(), nullptr) * 100)); break;
      case 's':
        v = c.oneOf<std::string>({"x", "a/b.c", u8"名", "-", "--x", "a=b", "1", ",", "_", "</s>"});
        if (!file && c.chance(1, 3)) v = c.oneOf<std::string>({" ", "a b", "\t", "\n", ""});
        s.set[o.field] = v;
        break;
      case 'l': {
        Strs f;
        for (int q = c.range(1, 3); q > 0; --q) f.push_back(c.oneOf<std::string>({"surface", "pos", "f1", "z"}));
        v = join(f, ",");
        s.set[o.field] = v;
        break;
      }
      case 'F': v = c.oneOf<std::string>({"juman", "morph", "full-morph", "dic-subset", "segment", "lattice", "juman-pb", "lattice-pb", "lattice-dump"}), s.set[o.field] = v; break;
      case 'L':
        v = num(c.oneOf({1, 2, 3, 5, 7, 20}));
        s.set["type"] = "lattice", s.set["nbest"] = v;
        break;
      case 'A': {
        int a = c.range(1, 9), b = c.range(1, 9), d = c.range(1, 20);
        v = num(a) + ":" + num(b) + ":" + num(d);
        s.set["beam"] = num(a), s.set["step"] = num(b), s.set["gbeam"] = num(d);
        break;
      }
      case 'm': v = c.pick(models), s.set["model"] = v; break;
    }
    if (longOpt ? (c.chance(1, 2) || v.empty() || v[0] == '-') : v[0] == '-' || v.empty()) {
      if (longOpt) parts.push_back({sp + "=" + v});
      else parts.push_back({sp + v});  // joined short value
      if (!longOpt && v.empty()) parts.pop_back(), parts.push_back({"--output=" + v});
    } else if (!longOpt && c.chance(1, 2)) parts.push_back({sp + v});
    else parts.push_back({sp, v});
    if (c.chance(1, 10) && (o.kind == 'i' || o.kind == 's')) {  // given before with another value: the last one counts
      parts.insert(parts.end() - 1, {o.spell[0] + "=" + (o.kind == 'i' ? "4" : "other")});
      parts.back().push_back("\x01");  // keep the order
    }
  }
  if (c.chance(1, 4)) {
    Strs in;
    for (int q = c.range(1, 3); q > 0; --q) in.push_back(c.oneOf<std::string>({"in1", "d/in2", u8"入力"}));
    for (auto& f : in) parts.push_back({f});
    s.set["inputs"] = join(in, "|");
  }
  if (c.chance(1, 5)) {
    s.bad = true;
    s.badWhat = c.oneOf<std::string>({"--nosuch", "--beam=x", "--beam=", "--format=nosuch", "--auto-nbest=5", "-Q", "--lattice=1x", "--rnn-nce-bias=abc", "--beam=99999999999", "--juman=1"});
    if (s.badWhat == "--auto-nbest=5" && used.count("auto")) s.badWhat = "--nosuch";  // the last value would count
    parts.insert(parts.begin() + c.range(0, (int)parts.size()), {s.badWhat});
  }
  for (auto& p : parts)
    for (auto& t : p)
      if (t != "\x01") s.tokens.push_back(t);
  return s;
}
std::string fileText(Ctx& c, const Source& s) {
  std::string r = c.chance(1, 4) ? c.oneOf<std::string>({"\n", " ", "\t\n", "\r\n"}) : "";
  for (size_t i = 0; i < s.tokens.size(); ++i) {
    r += s.tokens[i];
    if (i + 1 < s.tokens.size() || c.chance(2, 3)) r += c.oneOf<std::string>({"\n", " ", "\r\n", "\n\n", "\t", "  "});
  }
  if (r.empty()) r = "\n";
  return r;
}
std::string typeName(jm::OutputType t) {
  switch (t) {
    case jm::OutputType::Juman: return "juman";
    case jm::OutputType::Morph: return "morph";
    case jm::OutputType::FullMorph: return "full-morph";
    case jm::OutputType::DicSubset: return "dic-subset";
    case jm::OutputType::Segmentation: return "segment";
    case jm::OutputType::Version: return "version";
    case jm::OutputType::ModelInfo: return "model-info";
    case jm::OutputType::Lattice: return "lattice";
    case jm::OutputType::JumanPb: return "juman-pb";
    case jm::OutputType::LatticePb: return "lattice-pb";
    case jm::OutputType::FullLatticeDump: return "lattice-dump";
    default: return "?";
  }
}
std::string flt(float f) { return num((int)std::lround(f * 100)); }
Values valuesOf(const jm::JumanppConf& k) {
  Values v;
  v["config"] = k.configFile.value();
  v["model"] = k.modelFile.value();
  v["type"] = typeName(k.outputType.value());
  v["inputType"] = k.inputType.value() == jm::InputType::Raw ? "raw" : "partial";
  v["output"] = k.outputFile.value();
  v["inputs"] = join(k.inputFiles.value(), "|");
  v["rnnModel"] = k.rnnModelFile.value();
  v["graphviz"] = k.graphvizDir.value();
  v["beam"] = num(k.beamSize.value());
  v["nbest"] = num(k.beamOutput.value());
  v["gbeam"] = num(k.globalBeam.value());
  v["rbeam"] = num(k.rightBeam.value());
  v["rcheck"] = num(k.rightCheck.value());
  v["logLevel"] = num(k.logLevel.value());
  v["step"] = num(k.autoStep.value());
  v["sep"] = k.segmentSeparator.value();
  auto& r = k.rnnConfig;
  v["nceBias"] = flt(r.nceBias.value()), v["unkConst"] = flt(r.unkConstantTerm.value()), v["unkLen"] = flt(r.unkLengthPenalty.value());
  v["wPerc"] = flt(r.perceptronWeight.value()), v["wRnn"] = flt(r.rnnWeight.value());
  v["unkSym"] = r.unkSymbol.value(), v["eosSym"] = r.eosSymbol.value(), v["rnnSep"] = r.fieldSeparator.value();
  v["rnnFields"] = join(r.rnnFields.value(), ",");
  return v;
}
std::string real(const std::string& f) {
  char b[PATH_MAX];
  return realpath(f.c_str(), b) ? std::string(b) : f;
}
void mkdirs(const std::string& d) {
  for (size_t i = 1; i <= d.size(); ++i)
    if (i == d.size() || d[i] == '/') mkdir(d.substr(0, i).c_str(), 0700);
}

void options(Ctx& c) {
  std::string root = scratchFile(c, "cfg"), home = root + "/home", cwd = root + "/cwd", glob = cwd + "/verif-default-config", user = home + "/.config/jumanpp", other = root + "/other";
  for (auto& d : {home, cwd, glob, user, other, cwd + "/d"}) mkdirs(d);
  std::string gf = glob + "/jumandic.config", uf = user + "/jumandic.config", of = other + "/my.config";
  for (auto& f : {gf, uf, of}) unlink(f.c_str());
  // models next to the configuration files and in the current directory
  Strs places = {cwd, glob, user, other};
  std::set<std::string> exists;
  for (auto& p : places) {
    for (auto m : {"m1", "m2"}) {
      std::string f = p + "/" + m;
      unlink(f.c_str());
      if (c.chance(1, 2)) writeFile(f, "model"), exists.insert(f);
    }
  }
  Strs models = {"m1", "m2", "m1", "nosuch", other + "/m1", "/nonexistent/m1"};
  bool hasG = c.chance(1, 3), hasU = c.chance(1, 2), hasC = c.chance(1, 2), missingC = !hasC && c.chance(1, 12), blank = c.chance(1, 12);
  Source g = genSource(c, true, models), u = genSource(c, true, models), o = genSource(c, true, models), l = genSource(c, false, models);
  if (blank) o = Source();
  std::string d;
  auto put = [&](const std::string& f, const Source& s, const char* what) {
    std::string t = fileText(c, s);
    writeFile(f, t);
    d += std::string(what) + " configuration: " + quote(t) + "\n";
  };
  if (hasG) put(gf, g, "installed");
  if (hasU) put(uf, u, "user's");
  if (hasC) put(of, o, "given");
  Strs argv{"jumanpp"};
  std::string cfgName = c.chance(1, 2) ? of : "../other/my.config";
  Strs rest = l.tokens;
  if (hasC || missingC) {
    Strs a;
    switch (c.range(0, 2)) {
      case 0: a = {"--config=" + cfgName}; break;
      case 1: a = {"-c", cfgName}; break;
      case 2: a = {"--config", cfgName}; break;
    }
    rest.insert(c.chance(1, 2) ? rest.begin() : rest.end(), a.begin(), a.end());
  }
  for (auto& t : rest) argv.push_back(t);
  d += "arguments:";
  for (auto& a : argv) d += " " + quote(a);
  for (auto& f : exists) d += "\nmodel file " + f.substr(root.size());
  c.describe(d + "\n");
  setenv("HOME", home.c_str(), 1);
  PCHECK(c, chdir(cwd.c_str()) == 0, "chdir");
  std::vector<const char*> av;
  for (auto& a : argv) av.push_back(a.c_str());
  av.push_back(nullptr);
  std::unique_ptr<jm::JumanppConf> conf(new jm::JumanppConf), none(new jm::JumanppConf);
  Values def = valuesOf(*none);
  Status st = jm::parseArgs((int)av.size() - 1, av.data(), conf.get());
  std::string msg = st.isOk() ? "" : st.message().str();
  util::logging::CurrentLogLevel = util::logging::Level::None;
  PCHECK(c, chdir("/") == 0, "chdir");
  // what should be in effect
  const Source* f = hasC ? &o : missingC ? nullptr : hasG ? &g : hasU ? &u : nullptr;
  std::string fdir = hasC ? other : hasG ? glob : user;
  bool bad = missingC || l.bad || (f && f->bad);
  if (bad) {
    PCHECK(c, !st.isOk(), (missingC ? "missing configuration file" : l.bad ? l.badWhat : f->badWhat) << " is not reported");
    PCHECK(c, !msg.empty(), "error without a message");
    c.label(missingC ? "missing configuration file" : l.bad ? "bad option on the command line" : "bad option in a configuration file");
    c.nontrivial();
    return;
  }
  if (!st.isOk()) c.fail("correct options are refused: " + msg.substr(0, 600));
  Values want = def;
  if (f)
    for (auto& kv : f->set) {
      want[kv.first] = kv.second;
      if (kv.first == "model" && kv.second[0] != '/' && !exists.count(cwd + "/" + kv.second) && exists.count(fdir + "/" + kv.second)) {
        want["model"] = fdir + "/" + kv.second;
        c.label("model found next to the configuration file");
      }
    }
  for (auto& kv : l.set) want[kv.first] = kv.second;
  if (hasC) want["config"] = cfgName;
  if (atoi(want["beam"].c_str()) < atoi(want["nbest"].c_str())) want["beam"] = want["nbest"], c.label("beam raised to the number of outputs");
  Values got = valuesOf(*conf);
  for (auto& kv : want) {
    std::string g1 = got[kv.first], w1 = kv.second;
    if (kv.first == "model" && g1 != w1) {
      PCHECK(c, chdir(cwd.c_str()) == 0, "chdir");
      g1 = real(g1), w1 = real(w1);
      PCHECK(c, chdir("/") == 0, "chdir");
    }
    PCHECK(c, g1 == w1, "the option '" << kv.first << "' has the value " << quote(g1) << ", not " << quote(w1));
  }
  auto defined = [&](const char* n, bool d) {
    bool w = l.set.count(n) || (f && f->set.count(n));
    PCHECK(c, d == w, "the option '" << n << "' is " << (w ? "not " : "") << "marked as set");
  };
  defined("model", conf->modelFile.defined());
  defined("step", conf->autoStep.defined());
  defined("wRnn", conf->rnnConfig.rnnWeight.defined());
  defined("nceBias", conf->rnnConfig.nceBias.defined());
  bool overridden = false;
  if (f)
    for (auto& kv : f->set) overridden = overridden || (l.set.count(kv.first) && l.set[kv.first] != kv.second);
  c.labelIf(overridden, "option overridden by the command line");
  c.labelIf(hasC && f, "configuration file given");
  c.labelIf(!hasC && hasG, "installed configuration file");
  c.labelIf(!hasC && !hasG && hasU, "user's configuration file");
  c.labelIf(!hasC && hasG && hasU, "installed and user's configuration file");
  c.labelIf(blank && hasC, "configuration file without options");
  if ((f ? f->set.size() : 0) + l.set.size() > 1) c.nontrivial();
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "C02";
  d.assumptions = {"every source has at most one option that selects the output format, and --auto-nbest not together with --beam or --global-beam", "configuration files are not empty (0 bytes)", "a value is separated from the next option by white space in configuration files, so it contains none"};
  d.facets.push_back({"options", "at least two options are set, or an error has to be reported", 60000, 600000, options});
  return pbt::runMain(argc, argv, d);
}
