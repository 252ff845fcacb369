// D02: a saved model loads as it was; damaged files are refused
#include <sys/stat.h>
#include <unistd.h>
#include "core/env.h"
#include "core/impl/model_format_ser.h"
#include "core/impl/model_io.h"
#include "core/impl/perceptron_io.h"
#include "core/spec/spec_serialization.h"
#include "snapshot.h"
#include "util/mmap.h"
#include "util/serialization.h"
using namespace w;
namespace md = jumanpp::core::model;
namespace ser = jumanpp::util::serialization;

namespace {
std::string specBytes(const sp::AnalysisSpec& s) {
  util::CodedBuffer b;
  sp::saveSpec(s, &b);
  return b.contents().str();
}
struct Saved {
  Model m;
  Weights wt;
  util::CodedBuffer percHdr;
  std::vector<float> weights;
  md::ModelInfo info;
  std::string dicComment, percComment;
  bool perceptron = true, first = false;
  void make(Ctx& c, const World& w, const Weights& x) {
    m.build(c, w);
    wt = x;
    weights = x.v;
    dicComment = c.oneOf<std::string>({"", "dic", u8"辞書 2.0", std::string(300, 'c'), std::string("a\0b\n", 4)});
    percComment = c.oneOf<std::string>({"", "trained", std::string(127, 'p')});
    md::ModelPart d;
    WOK(c, m.builder.fillModelPart(&d, dicComment), "fillModelPart");
    info.parts.push_back(d);
    if (perceptron) {
      core::PerceptronInfo pi{0};
      while ((size_t(1) << pi.modelSizeExponent) < weights.size()) ++pi.modelSizeExponent;
      ser::Saver sv{&percHdr};
      sv.save(pi);
      md::ModelPart p;
      p.kind = md::ModelPartKind::Perceprton;
      p.comment = percComment;
      p.data.push_back(percHdr.contents());
      p.data.push_back(StringPiece((const char*)weights.data(), weights.size() * sizeof(float)));
      info.parts.insert(first ? info.parts.begin() : info.parts.end(), p);
    }
  }
};
void save(Ctx& c, const md::ModelInfo& info, const std::string& fn) {
  md::ModelSaver s;
  WOK(c, s.open(fn), "ModelSaver.open");
  WOK(c, s.save(info), "ModelSaver.save");
}
std::string desc(const md::ModelInfo& i) {
  std::string r;
  for (auto& p : i.parts) {
    r += "part kind " + std::to_string((int)p.kind) + " comment " + quote(p.comment) + " blocks";
    for (auto& d : p.data) r += " " + std::to_string(d.size());
    r += "\n";
  }
  return r;
}

void roundtrip(Ctx& c) {
  GenOpts o;
  o.maxRows = c.chance(1, 8) ? 120 : 20;
  World w = genWorld(c, o);
  Saved sv;
  sv.first = c.chance(1, 3);
  sv.perceptron = !c.chance(1, 8);
  sv.make(c, w, Weights::make(c));
  Beams bm = Beams::make(c);
  Strs ins;
  for (int i = c.range(1, 3); i > 0; --i) ins.push_back(genSentence(c, w, w.rows.size() > 30 ? 3 : 12));
  std::string fn = pbt::scratchFile(c, "model.bin");
  int prev = c.weighted({4, 2, 2});
  std::string extra;
  if (c.chance(1, 6)) {  // a part of another kind
    extra = std::string((size_t)c.oneOf({1, 10, 4095, 4096, 4097, 9000}), 'z');
    md::ModelPart p;
    p.kind = md::ModelPartKind::ScwDump;
    p.comment = "scw";
    p.data.push_back(extra);
    if (c.chance(1, 2)) p.data.push_back(StringPiece(extra.data(), size_t(0)));
    if (c.chance(1, 2)) p.data.push_back(extra);
    sv.info.parts.insert(sv.info.parts.begin() + c.range(0, (int)sv.info.parts.size()), p);
  }
  bool longDir = false;
  std::string d;
  for (auto& s : ins) d += "sentence: " + quote(s) + "\n";
  if (c.chance(1, 8)) {  // directory around the size limit
    sv.info.parts[0].comment = std::string((size_t)c.range(3850, 4080), 'c');
    if (sv.info.parts[0].kind == md::ModelPartKind::Dictionary) sv.dicComment = sv.info.parts[0].comment;
    if (sv.info.parts[0].kind == md::ModelPartKind::Perceprton) sv.percComment = sv.info.parts[0].comment;
    longDir = true;
  }
  c.describe(show(w) + d + desc(sv.info) + bm.str() + (prev ? prev == 1 ? " over a larger file" : " over a smaller file" : ""));
  unlink(fn.c_str());
  if (prev == 1) pbt::writeFile(fn, std::string(200000, '\x80'));
  if (prev == 2) pbt::writeFile(fn, "short");
  if (longDir) {  // may be refused when saving
    md::ModelSaver s;
    WOK(c, s.open(fn), "ModelSaver.open");
    Status st = s.save(sv.info);
    c.label(st ? "long directory saved" : "long directory refused");
    if (!st) return;
  } else
    save(c, sv.info, fn);
  // parts
  md::FilesystemModel fm;
  WOK(c, fm.open(fn), "open");
  md::ModelInfo li;
  WOK(c, fm.load(&li), "load");
  PEQ(c, li.parts.size(), sv.info.parts.size(), "number of parts");
  for (size_t i = 0; i < li.parts.size(); ++i) {
    auto &a = sv.info.parts[i], &b = li.parts[i];
    PCHECK(c, a.kind == b.kind, "kind of part " << i);
    PCHECK(c, a.comment == b.comment, "comment of part " << i << ": " << quote(b.comment));
    PEQ(c, b.data.size(), a.data.size(), "blocks of part " << i);
    for (size_t j = 0; j < a.data.size(); ++j)
      PCHECK(c, a.data[j] == b.data[j], "block " << j << " of part " << i << " has other contents, " << b.data[j].size() << " bytes of " << a.data[j].size());
  }
  core::JumanppEnv env;
  WOK(c, env.loadModel(fn), "loadModel");
  PCHECK(c, specBytes(env.spec()) == specBytes(sv.m.rspec()), "specification differs after loading");
  core::VersionInfo vi;
  env.fillVersion(&vi);
  PCHECK(c, vi.dictionary == sv.dicComment, "dictionary version " << quote(vi.dictionary));
  PCHECK(c, vi.model == (sv.perceptron ? sv.percComment : ""), "model version " << quote(vi.model));
  PCHECK(c, vi.rnn.empty(), "rnn version");
  WOK(c, env.initFeatures(nullptr), "initFeatures");
  PCHECK(c, env.hasPerceptronModel() == sv.perceptron, "hasPerceptronModel");
  Engine mem(c, sv.m.core.get(), sv.wt, bm);
  // the loaded weights
  Engine fs(c, env.coreHolder(), sv.wt, bm);
  if (sv.perceptron) {
    an::HashedFeaturePerceptron p;
    WOK(c, p.load(li), "perceptron");
    auto x = p.weights();
    PEQ(c, x.size(), sv.weights.size(), "number of weights");
    for (size_t i = 0; i < x.size(); ++i) {
      float v = x.at(i);
      PCHECK(c, memcmp(&v, &sv.weights[i], 4) == 0, "weight " << i << " is " << x.at(i) << ", saved was " << sv.weights[i]);
    }
    fs.sdef = *env.scorers();
    PEQ(c, fs.sdef.scoreWeights.size(), 1u, "score weights");
    WOK(c, fs.an->initScorers(fs.sdef), "initScorers");
  }
  int n = 0;
  for (auto& s : ins) {
    Status a = mem.analyze(s), b = fs.analyze(s);
    PCHECK(c, a.isOk() == b.isOk(), "analysis of " << quote(s) << (a ? " fails" : " succeeds") << " only after loading");
    if (!a) continue;
    std::string x = snapshot(c, w, *mem.an), y = snapshot(c, w, *fs.an);
    PCHECK(c, x == y, "analysis of " << quote(s) << " differs after loading:" << firstDiff(x, y));
    n += x.size() > 200;
  }
  an::Analyzer api;
  Status st = env.makeAnalyzer(&api);
  PCHECK(c, st.isOk() == sv.perceptron, "makeAnalyzer of a model " << (sv.perceptron ? "with" : "without") << " perceptron");
  c.labelIf(!extra.empty(), "other part");
  c.labelIf(!sv.perceptron, "no perceptron");
  c.labelIf(prev == 1, "larger file replaced");
  c.nontrivial(n > 0 && w.rows.size() >= 3);
}

// returns the first bytes of a model file with the given directory
std::string headerOf(const md::ModelInfoRaw& raw) {
  ser::Saver s;
  s.save(raw);
  util::CodedBuffer cb;
  cb.writeVarint(s.result().size());
  return std::string("jp2Mdl!", 8) + cb.contents().str() + s.result().str();
}
bool readHeader(const std::string& bytes, md::ModelInfoRaw* raw, size_t* end) {
  StringPiece rest(bytes.data() + 8, 4088);
  util::CodedBufferParser p{rest};
  u64 n = 0;
  if (!p.readVarint64(&n)) return false;
  size_t at = 8 + p.numReadBytes();
  ser::Loader l{StringPiece(bytes.data() + at, n)};
  *end = at + n;
  return l.load(raw);
}
// loads everything a program loads at start-up; any outcome but a crash
Status tryLoad(const std::string& fn, std::unique_ptr<core::JumanppEnv>& e) {
  e.reset(new core::JumanppEnv);
  return e->loadModel(fn);
}
void checkBlocks(Ctx& c, const std::string& fn, size_t size) {
  md::FilesystemModel fm;
  if (!fm.open(fn)) return;
  md::ModelInfo li;
  if (!fm.load(&li)) return;
  size_t n = 0;
  for (auto& p : li.parts)
    for (auto& d : p.data) {
      PCHECK(c, (size_t)d.size() <= size, "a block of " << d.size() << " bytes in a file of " << size);
      for (auto ch : d) n += (unsigned char)ch;  // all of it must be readable
    }
  c.note(std::to_string(n).substr(0, 0));
}
struct Damaged {
  World w;
  Saved sv;
  std::string fn, bytes;
  md::ModelInfoRaw raw;
  size_t hend = 0;
  void make(Ctx& c) {
    GenOpts o;
    o.maxRows = 8;
    w = genWorld(c, o);
    sv.first = c.chance(1, 3);
    sv.make(c, w, Weights::make(c));
    fn = pbt::scratchFile(c, "model.bin");
    unlink(fn.c_str());
    save(c, sv.info, fn);
    bytes = pbt::readFile(fn);
    PCHECK(c, readHeader(bytes, &raw, &hend), "the header of a saved model cannot be read");
    std::unique_ptr<core::JumanppEnv> e;
    WOK(c, tryLoad(fn, e), "load of an intact model");
  }
};

void truncated(Ctx& c) {
  Damaged d;
  d.make(c);
  std::vector<size_t> cuts;
  std::vector<size_t> marks = {0, 8, d.hend, 4080, 4088, 4096};
  for (auto& p : d.raw.parts)
    for (auto& b : p.data) {
      marks.push_back(b.offset);
      marks.push_back(b.offset + b.size);
    }
  int n = c.range(1, 12);
  for (int i = 0; i < n; ++i) {
    size_t at;
    switch (c.weighted({3, 3, 2})) {
      case 0: at = marks[c.choose(marks.size())] + (size_t)c.range(0, 4) - 2; break;
      case 1: at = c.choose(d.bytes.size()); break;
      default: at = c.choose(d.hend + 2); break;
    }
    if (at < d.bytes.size()) cuts.push_back(at);
  }
  if (cuts.empty()) cuts.push_back(d.bytes.size() - 1);
  std::string t;
  for (auto x : cuts) t += " " + std::to_string(x);
  c.describe(show(d.w) + desc(d.sv.info) + "file of " + std::to_string(d.bytes.size()) + " bytes cut at" + t);
  for (auto at : cuts) {
    pbt::writeFile(d.fn, d.bytes.substr(0, at));
    std::unique_ptr<core::JumanppEnv> e;
    Status s = tryLoad(d.fn, e);
    PCHECK(c, !s, "a model of " << d.bytes.size() << " bytes cut to " << at << " bytes was loaded");
    PCHECK(c, !s.message().empty(), "error without a message");
    checkBlocks(c, d.fn, at);
    c.label(at < 4096 ? "cut in the header page" : "cut in the data");
  }
  // a zero-filled or garbage tail instead of data is not visible, but a refused
  // model leaves the process able to load the intact one
  pbt::writeFile(d.fn, d.bytes);
  std::unique_ptr<core::JumanppEnv> e;
  WOK(c, tryLoad(d.fn, e), "the intact model after a damaged one");
  c.nontrivial();
}

void header(Ctx& c) {
  Damaged d;
  d.make(c);
  std::string b = d.bytes, what;
  bool mustFail = false;
  size_t sz = b.size();
  if (c.chance(1, 3)) {  // bytes
    int n = c.range(1, 3);
    for (int i = 0; i < n; ++i) {
      size_t p = c.chance(1, 4) ? c.choose(12) : c.choose(d.hend);
      unsigned char v = (unsigned char)c.choose(256);
      if (c.chance(1, 3)) v = (unsigned char)b[p] ^ (1 << c.choose(8));
      what += "byte " + std::to_string(p) + " := " + std::to_string(v) + "\n";
      if (p < 7 && b[p] != (char)v) mustFail = true;
      b[p] = (char)v;
    }
    if (memcmp(b.data(), "jp2Mdl!", 7) == 0) mustFail = false;
  } else {  // the directory
    md::ModelInfoRaw r = d.raw;
    int n = 1;
    for (int i = 0; i < n; ++i) {
      auto& p = r.parts[c.choose(r.parts.size())];
      size_t k = c.choose(p.data.size());
      auto& blk = p.data[k];
      static const u64 big[] = {~0ull, 1ull << 63, (1ull << 63) - 1, 1ull << 62, 1ull << 32, (1ull << 31), 1ull << 40, ~0ull - 4095};
      switch (c.choose(8)) {
        case 0: blk.size = sz - blk.offset + 1 + c.choose(5000); what = "block beyond the end by size"; mustFail = true; break;
        case 1: blk.offset = sz + c.choose(3) * 4096; blk.size = std::max<u64>(blk.size, 1); what = "block beyond the end by offset"; mustFail = true; break;
        case 2: blk.size = big[c.choose(8)]; what = "huge block size"; mustFail = blk.size > sz; break;
        case 3: blk.offset = big[c.choose(8)]; what = "huge block offset"; mustFail = blk.offset > sz; break;
        case 4: blk.size = ~0ull - blk.offset + 1 + c.choose(4096); what = "size and offset overflow"; mustFail = true; break;
        case 5: {
          what = "missing or additional block";
          if (c.chance(1, 2)) p.data.erase(p.data.begin() + k);
          else p.data.insert(p.data.begin() + k, p.data[c.choose(p.data.size())]);
          mustFail = true;
          break;
        }
        case 6: {
          if (c.chance(1, 2)) {
            what = "two dictionaries";
            for (auto& x : d.raw.parts)
              if (x.kind == md::ModelPartKind::Dictionary) r.parts.push_back(x);
          } else {
            what = "no dictionary";
            for (auto& x : r.parts)
              if (x.kind == md::ModelPartKind::Dictionary) x.kind = c.oneOf({md::ModelPartKind::ScwDump, md::ModelPartKind::Rnn, (md::ModelPartKind)77, (md::ModelPartKind)-1});
          }
          mustFail = true;
          break;
        }
        case 7: {
          what = "perceptron as rnn";
          bool any = false;
          for (auto& x : r.parts)
            if (x.kind == md::ModelPartKind::Perceprton) {
              x.kind = md::ModelPartKind::Rnn;
              any = true;
            }
          mustFail = any;
          break;
        }
      }
      c.label(what);
    }
    std::string h = headerOf(r);
    b = h + b.substr(std::min(b.size(), h.size()));
    if (c.chance(1, 10)) {
      // a header that says it is longer than it is
      util::CodedBuffer cb;
      cb.writeVarint(c.oneOf<u64>({0, 1, 2, 20, 4070, 4080, 4085, 4086, 4087, 4088, 4089, 4096, 5000, 1ull << 20, 1ull << 32, 1ull << 63, ~0ull, ~0ull - 9}));
      b = std::string("jp2Mdl!", 8) + cb.contents().str() + d.bytes.substr(8 + cb.position());
      what = "wrong header size";
      mustFail = false;
    }
  }
  c.describe(show(d.w) + desc(d.sv.info) + what + (mustFail ? " (must be refused)" : ""));
  pbt::writeFile(d.fn, b);
  std::unique_ptr<core::JumanppEnv> e;
  Status s = tryLoad(d.fn, e);
  checkBlocks(c, d.fn, b.size());
  if (mustFail) PCHECK(c, !s, "a model with a damaged header was loaded: " << what);
  PCHECK(c, s.isOk() || !s.message().empty(), "error without a message");
  {
    md::FilesystemModel fm;  // model description
    if (fm.open(d.fn)) fm.renderInfo();
  }
  c.labelIf(!s, "refused");
  c.labelIf(s.isOk(), "loaded");
  c.nontrivial(!s);
}
}  // namespace
namespace {
// mirror of the dictionary header: entryCount, fieldData, timestamp, spec
void dicHeader(Ctx& c) {
  Damaged d;
  d.make(c);
  size_t off = 0, len = 0;
  size_t poff = 0, plen = 0;
  for (auto& p : d.raw.parts) {
    if (p.kind == md::ModelPartKind::Dictionary) off = p.data[0].offset, len = p.data[0].size;
    if (p.kind == md::ModelPartKind::Perceprton) poff = p.data[0].offset, plen = p.data[0].size;
  }
  std::string b = d.bytes, what;
  bool mustFail = false;
  if (c.chance(1, 6)) {
    unsigned char v = (unsigned char)c.choose(256);
    size_t p = poff + c.choose(plen);
    mustFail = plen == 1 && (unsigned char)b[p] != v;
    b[p] = (char)v;
    what = "perceptron header byte := " + std::to_string(v);
    c.label("perceptron header");
  } else {
    int n = c.range(1, 3);
    for (int i = 0; i < n; ++i) {
      // counts and indices of the fields come first, the specification follows
      size_t p = off + (c.chance(1, 2) ? c.choose(std::min<size_t>(len, 4 + 4 * d.w.fields.size())) : c.choose(len));
      unsigned char v = c.chance(1, 2) ? (unsigned char)c.choose(256) : (unsigned char)((unsigned char)b[p] + c.range(-2, 2));
      b[p] = (char)v;
      what += "byte " + std::to_string(p - off) + " := " + std::to_string(v) + "\n";
    }
    c.label("dictionary header");
  }
  c.describe(show(d.w) + what);
  pbt::writeFile(d.fn, b);
  std::unique_ptr<core::JumanppEnv> e;
  Status s = tryLoad(d.fn, e);
  if (mustFail) PCHECK(c, !s, "a model with a damaged perceptron header was loaded");
  PCHECK(c, s.isOk() || !s.message().empty(), "error without a message");
  c.labelIf(!s, "refused");
  c.labelIf(s.isOk(), "loaded");
  c.nontrivial(!s);
}

void notModel(Ctx& c) {
  std::string fn = pbt::scratchFile(c, "thing"), what, b;
  int kind = c.choose(7);
  switch (kind) {
    case 0: what = "missing file"; break;
    case 1: what = "directory"; mkdir(fn.c_str(), 0700); break;
    case 2: what = "empty file"; pbt::writeFile(fn, ""); break;
    case 3: what = "random bytes"; for (int i = c.oneOf({1, 3, 7, 8, 9, 20, 100, 4095, 4096, 4097, 9000}); i > 0; --i) b += (char)c.choose(256); break;
    case 4: what = "text"; b = std::string((size_t)c.oneOf({5, 100, 5000}), 'x') + "\n"; break;
    case 5: what = "only the magic"; b = std::string("jp2Mdl!", 8).substr(0, (size_t)c.range(1, 8)); break;
    case 6: {
      what = "the magic and random bytes";
      b = std::string("jp2Mdl!", 8);
      if (c.chance(1, 3)) b += std::string((size_t)c.oneOf({1, 5, 9, 10, 11}), '\xff');
      for (int i = c.oneOf({1, 3, 7, 20, 100, 4080, 4088, 4089, 6000}); i > 0; --i) b += (char)(c.chance(1, 2) ? c.choose(256) : c.choose(5));
      break;
    }
  }
  if (kind >= 3) pbt::writeFile(fn, b);
  c.describe(what + ": " + quote(b.substr(0, 200)));
  c.label(what);
  std::unique_ptr<core::JumanppEnv> e;
  Status s = tryLoad(fn, e);
  PCHECK(c, !s, what << " was loaded as a model");
  PCHECK(c, !s.message().empty(), "error without a message");
  checkBlocks(c, fn, b.size());
  if (kind == 1) rmdir(fn.c_str());
  c.nontrivial(kind >= 3);
}
// pieces of a file mapped for writing and reading, in any order, handed over
void mapping(Ctx& c) {
  std::string fn = pbt::scratchFile(c, "mapped"), model;
  unlink(fn.c_str());
  if (c.chance(1, 2)) {
    for (int i = c.range(1, 9000); i > 0; --i) model += (char)('a' + i % 26);
    pbt::writeFile(fn, model);
  }
  int n = c.range(2, 14), moved = 0;
  {
    util::MappedFile f;
    WOK(c, f.open(fn, util::MMapType::ReadWrite), "open");
    struct Piece { size_t off, size; util::MappedFileFragment frag; };
    std::vector<std::unique_ptr<Piece>> live;
    for (int i = 0; i < n; ++i) {
      int op = c.weighted({5, 4, 3, 2, 2});
      if (op == 0 || live.empty()) {
        std::unique_ptr<Piece> p(new Piece);
        p->off = (size_t)c.range(0, 3) * 4096 + (c.chance(1, 2) ? (size_t)c.range(0, 4095) : 0);
        p->size = (size_t)c.oneOf({1, 10, 4095, 4096, 4097, 9000});
        c.describe("map " + std::to_string(p->off) + "+" + std::to_string(p->size) );
        WOK(c, f.map(&p->frag, p->off, p->size), "map");
        PEQ(c, p->frag.size(), p->size, "size of a fragment");
        if (model.size() < p->off + p->size) model.resize(p->off + p->size);
        live.push_back(std::move(p));
        continue;
      }
      size_t k = c.choose(live.size());
      auto& p = *live[k];
      std::string is = " of " + std::to_string(p.off) + "+" + std::to_string(p.size);
      switch (op) {
        case 1: {
          size_t at = c.choose(p.size), len = std::min<size_t>(p.size - at, (size_t)c.range(1, 50));
          c.describe("write " + std::to_string(at) + "+" + std::to_string(len) + is);
          auto sl = p.frag.asMutableSlice();
          for (size_t j = 0; j < len; ++j) {
            char x = (char)('A' + (i * 7 + j) % 26);
            sl.at(at + j) = x;
            model[p.off + at + j] = x;
          }
          break;
        }
        case 2: {
          c.describe("read" + is);
          PCHECK(c, p.frag.asStringPiece().str() == model.substr(p.off, p.size), "a mapped piece has other contents than the file");
          break;
        }
        case 3:
          c.describe("unmap" + is);
          live.erase(live.begin() + k);
          break;
        case 4: {
          c.describe("move" + is);
          std::unique_ptr<Piece> q2;
          if (c.chance(1, 2)) {
            q2.reset(new Piece{p.off, p.size, std::move(p.frag)});
          } else {
            q2.reset(new Piece);
            q2->off = p.off;
            q2->size = p.size;
            q2->frag = std::move(p.frag);
          }
          PCHECK(c, p.frag.isClean(), "a moved fragment is not clean");
          live[k] = std::move(q2);
          ++moved;
          break;
        }
      }
    }
  }
  std::string got = pbt::readFile(fn);
  PEQ(c, got.size(), model.size(), "size of the file");
  for (size_t i = 0; i < got.size(); ++i) PCHECK(c, got[i] == model[i], "byte " << i << " of the file is " << (int)got[i] << ", written was " << (int)model[i]);
  util::MappedFile r;
  if (model.empty()) return;
  WOK(c, r.open(fn, util::MMapType::ReadOnly), "open for reading");
  util::MappedFileFragment fr;
  size_t at = c.choose(model.size()), len = 1 + c.choose(model.size() - at);
  WOK(c, r.map(&fr, at, len), "map for reading");
  PCHECK(c, fr.asStringPiece().str() == model.substr(at, len), "contents of a read-only mapping");
  util::MappedFileFragment beyond;
  PCHECK(c, !r.map(&beyond, at, model.size() - at + 1), "a mapping beyond the end of the file was allowed");
  c.labelIf(moved > 0, "fragment moved");
  c.nontrivial(n >= 5);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::CheckDef d;
  d.id = "D02";
  d.assumptions = {"damage which leaves a consistent header (a block moved to another place inside the file) cannot be noticed and only must not crash the loading",
                   "the bodies of the trie and of the tables are not damaged",
                   "the file is not changed while it is loaded"};
  d.facets.push_back({"roundtrip", "at least three rows and an analysed sentence", 16000, 300000, roundtrip});
  d.facets.push_back({"truncated", "every case", 8000, 150000, truncated});
  d.facets.push_back({"header", "the file was refused", 20000, 400000, header});
  d.facets.push_back({"dic-header", "the file was refused", 20000, 400000, dicHeader});
  d.facets.push_back({"not-model", "a file with contents", 4000, 60000, notModel});
  d.facets.push_back({"mapping", "at least five operations", 8000, 100000, mapping});
  return pbt::runMain(argc, argv, d);
}
