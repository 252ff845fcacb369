// U03: UTF-8 text is decoded and classified per code point exactly
#include "core/analysis/analysis_input.h"
#include "pbt.h"
#include "util/characters.h"
#include "utf8ref.h"
#include <cstring>
#include <memory>
#include <set>
using namespace pbt;
using namespace jumanpp;

namespace {
std::string enc(char32_t u) {
  std::string s;
  if (u < 0x80) s += (char)u;
  else if (u < 0x800) { s += (char)(0xC0 | u >> 6); s += (char)(0x80 | (u & 63)); }
  else if (u < 0x10000) { s += (char)(0xE0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
  else { s += (char)(0xF0 | u >> 18); s += (char)(0x80 | (u >> 12 & 63)); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
  return s;
}
// ---- classes, written from the comments of characters.h / characters.cc ----
enum { SPACE = 1, PUNC = 2, KANJI = 4, FIGURE = 8, PERIOD = 0x10, MDOT = 0x20, COMMA = 0x40, ALPH = 0x80, SYMBOL = 0x100, KATA = 0x200, HIRA = 0x400, KFIG = 0x800, SLASH = 0x1000, COLON = 0x2000, ERA = 0x4000, CHOON = 0x8000, HANKAKU = 0x10000, BRACKET = 0x20000, FEXC = 0x40000, FDIG = 0x80000, SMALL = 0x100000 };
struct R { char32_t a, b; int cls; };
const std::set<char32_t>& small() {
  static const std::set<char32_t> s = {U'ぁ', U'ぃ', U'ぅ', U'ぇ', U'ぉ', U'っ', U'ゃ', U'ゅ', U'ょ', U'ゎ', U'ゕ', U'ゖ',
                                       U'ァ', U'ィ', U'ゥ', U'ェ', U'ォ', U'ッ', U'ャ', U'ュ', U'ョ', U'ヮ', U'ヵ', U'ヶ'};
  return s;
}
const std::set<char32_t>& brackets() {
  static std::set<char32_t> s;
  if (s.empty()) {
    // pairs listed in characters.cc
    for (char32_t x : {0x28, 0x29, 0x5B, 0x5D, 0x7B, 0x7D, 0x169B, 0x169C, 0x2045, 0x2046, 0x207D, 0x207E, 0x208D, 0x208E, 0x2329, 0x232A, 0x27C5, 0x27C6, 0x29FC, 0x29FD, 0xFF08, 0xFF09, 0xFF3B, 0xFF3D, 0xFF5B, 0xFF5D, 0xFF5F, 0xFF60, 0xFF62, 0xFF63}) s.insert(x);
    auto rng = [&](char32_t a, char32_t b) { for (; a <= b; ++a) s.insert(a); };
    rng(0x0F3A, 0x0F3D); rng(0x2308, 0x230B); rng(0x2768, 0x2775); rng(0x27E6, 0x27EF); rng(0x2983, 0x2998);
    rng(0x29D8, 0x29DB); rng(0x2E22, 0x2E29); rng(0x3008, 0x3011); rng(0x3014, 0x301B); rng(0xFE59, 0xFE5E);
  }
  return s;
}
int refClass(char32_t u) {
  // white space
  if (u == 0x20 || u == 0x3000 || u == 0xA0 || u == 0x1680 || u == 0x180E || u == 0x202F || u == 0x205F || u == 0xFEFF || (u >= 0x2000 && u <= 0x200B)) return SPACE;
  if (u == U'、' || u == U'。') return PUNC;
  if (u >= U'㍻' && u <= U'㍾') return SYMBOL | ERA;
  if (u >= 0x3040 && u <= 0x309F) return HIRA | (small().count(u) ? SMALL : 0);
  if (u >= 0x30A0 && u <= 0x30FA) return KATA | (small().count(u) ? SMALL : 0);
  if (u == U'ヽ' || u == U'ヾ' || u == U'ヿ') return KATA;
  if (u == U'ー' || u == U'〜' || u == U'～' || u == 0x223C) return HIRA | KATA | CHOON;
  if (u == 0xFF70) return HANKAKU | CHOON;
  if (u >= 0xFF66 && u <= 0xFF9F) return HANKAKU;
  if (u == U'・' || u == 0xB7) return MDOT;
  if (u == ',' || u == U'，') return COMMA;
  if (u == '/' || u == U'／') return SLASH;
  if (u == ':' || u == U'：') return COLON;
  if (u == U'．') return PERIOD;
  if ((u >= '0' && u <= '9') || (u >= U'０' && u <= U'９')) return FIGURE;
  for (char32_t k : U"○〇零一二三四五六七八九")
    if (k && k == u) return KFIG | KANJI;
  for (char32_t k : U"数何幾")
    if (k && k == u) return FEXC | KANJI;
  for (char32_t k : U"十百千万億兆")
    if (k && k == u) return KFIG | FDIG;
  // A-Z, a-z, Latin-1 letters, their full width forms, Greek, Cyrillic
  if ((u >= 'A' && u <= 'Z') || (u >= 'a' && u <= 'z') || (u >= 0xC0 && u <= 0xFF) || (u >= U'Ａ' && u <= U'Ｚ') || (u >= U'ａ' && u <= U'ｚ') || (u >= 0x370 && u <= 0x4FF)) return ALPH;
  if ((u >= 0x4E00 && u <= 0x9FFF) || u == U'々') return KANJI;
  if (brackets().count(u)) return BRACKET;
  return SYMBOL;
}
void classOf(Ctx& c, char32_t u) {
  int got = (int)chars::getCodeType(u);
  PCHECK(c, got == refClass(u), "U+" << std::hex << (unsigned)u << " " << (u < 0x110000 ? enc(u) : "") << " has the classes " << got << ", expected " << refClass(u));
}
void classes(Ctx& c) {
  static const char32_t edges[] = {0, 0x20, 0x30, 0x3a, 0x40, 0x41, 0x5b, 0x60, 0x7b, 0x80, 0xa0, 0xb7, 0xbf, 0xc0, 0x100, 0x370, 0x400, 0x500, 0x2000, 0x200b, 0x3000, 0x3005, 0x3008, 0x301b, 0x3040, 0x3096, 0x30a0, 0x30fa, 0x30ff, 0x337b, 0x337e, 0x4e00, 0xa000, 0xff08, 0xff10, 0xff1a, 0xff21, 0xff3b, 0xff41, 0xff5b, 0xff66, 0xff70, 0xff9f};
  char32_t u;
  if (c.chance(1, 2)) {
    u = edges[c.choose(sizeof(edges) / sizeof(edges[0]))];
    u = (char32_t)std::max<int>(0, (int)u + c.range(-3, 3));
  } else
    u = (char32_t)c.choose(c.chance(1, 2) ? 0x10000 : 0x200000);
  c.describe(std::to_string((unsigned)u));
  for (unsigned k = 0; k < 32; ++k) classOf(c, u + k);
  // membership in families is sharing a class
  auto cp = chars::InputCodepoint(u, chars::getCodeType(u), StringPiece("x"));
  int q = (int)c.choose(1u << 21);
  PCHECK(c, cp.hasClass((chars::CharacterClass)q) == ((refClass(u) & q) != 0), "membership of U+" << std::hex << (unsigned)u << " in " << q);
  PCHECK(c, cp.hasClass(chars::CharacterClass::FAMILY_ANYTHING), "everything is in FAMILY_ANYTHING");
  c.labelIf(refClass(u) != SYMBOL, "not a plain symbol");
  c.nontrivial(refClass(u) != SYMBOL);
}
void allClasses(Ctx& c) {
  c.describe("all code points");
  for (char32_t u = 0; u < 0x200000; ++u) classOf(c, u);
  c.nontrivial();
}
// ---- decoding ----
std::string genText(Ctx& c) {
  std::string s;
  int style = c.weighted({5, 3, 3, 2});
  int n = c.range(0, 14);
  for (int i = 0; i < n; ++i) switch (style) {
      case 0: s += enc((char32_t)c.choose(c.oneOf<unsigned>({0x80, 0x800, 0x3100, 0x10000, 0x110000, 0x200000}))); break;
      case 1: s += (char)c.choose(256); break;
      case 2: s += (char)c.oneOf<int>({0x00, 0x41, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe3, 0xef, 0xf0, 0xf4, 0xf7, 0xf8, 0xfc, 0xfe, 0xff}); break;
      default: s += c.oneOf<std::string>({"a", "あ", "漢", "é", "🍣", "ー", "１"}); break;
    }
  if (style != 1 && style != 2 && c.chance(1, 2) && !s.empty()) {
    size_t p = c.choose(s.size());
    switch (c.choose(4)) {
      case 0: s[p] = (char)c.choose(256); break;
      case 1: s.erase(p, 1); break;
      case 2: s.resize(p); break;
      case 3: s.insert(p, 1, (char)c.choose(256)); break;
    }
  }
  return s;
}
void decode(Ctx& c) {
  std::string s = genText(c);
  c.describe(quote(s));
  std::vector<RefChar> ref;
  bool valid = refDecode(s, &ref);
  std::unique_ptr<char[]> buf(new char[s.size()]);
  memcpy(buf.get(), s.data(), s.size());
  StringPiece sp(buf.get(), s.size());
  std::vector<chars::InputCodepoint> got;
  Status st = chars::preprocessRawData(sp, &got);
  PCHECK(c, st.isOk() == valid, quote(s) << (valid ? " is refused: " + st.message().str() : " is accepted"));
  c.label(valid ? "valid" : "broken");
  if (valid) {
    PCHECK(c, got.size() == ref.size(), got.size() << " characters, expected " << ref.size());
    size_t off = 0;
    for (size_t i = 0; i < ref.size(); ++i) {
      PCHECK(c, got[i].codepoint == ref[i].cp, "character " << i << " is " << (unsigned)got[i].codepoint << " expected " << (unsigned)ref[i].cp);
      PCHECK(c, got[i].bytes.begin() == buf.get() + off && got[i].bytes.size() == ref[i].bytes.size(), "bytes of character " << i);
      PCHECK(c, (int)got[i].charClass == refClass(ref[i].cp), "classes of character " << i);
      chars::InputCodepoint one(got[i].bytes);
      PCHECK(c, one.codepoint == ref[i].cp && (int)one.charClass == refClass(ref[i].cp), "single character construction");
      off += ref[i].bytes.size();
      c.labelIf(ref[i].bytes.size() == 4, "4 bytes");
    }
    PCHECK(c, chars::numCodepoints(sp) == (int)ref.size(), "count " << chars::numCodepoints(sp) << " expected " << ref.size());
  }
  // decoding a single position, at every offset
  auto u = reinterpret_cast<const jumanpp::u8*>(buf.get());
  for (size_t i = 0; i < s.size(); ++i) {
    auto r = chars::getCodepoint(u + i, u + s.size());
    std::vector<RefChar> x;
    size_t len = 0;
    for (size_t k = 1; k <= 4 && i + k <= s.size(); ++k)
      if (refDecode(s.substr(i, k), &x) && x.size() == 1) { len = k; break; }
    PCHECK(c, r.utf8Length == (int)len, "sequence at byte " << i << " has length " << r.utf8Length << " expected " << len);
    if (len) PCHECK(c, r.codepoint == x[0].cp, "sequence at byte " << i);
  }
  // truncated text never has a valid count
  if (valid && !ref.empty() && ref.back().bytes.size() > 1) {
    size_t cut = s.size() - 1 - c.choose(ref.back().bytes.size() - 1);
    std::unique_ptr<char[]> b2(new char[cut]);
    memcpy(b2.get(), s.data(), cut);
    PCHECK(c, chars::numCodepoints(StringPiece(b2.get(), cut)) == -1, "the count of a truncated text is not -1");
  }
  c.nontrivial(s.size() > 1);
}
// the analyzer's view: positions to text, over reuse
void input(Ctx& c) {
  size_t limit = (size_t)c.oneOf({40, 10, 20, 100});
  core::analysis::AnalysisInput in(limit);
  int n = c.range(1, 5);
  std::string d = "limit " + std::to_string(limit) + "\n";
  std::vector<std::string> texts;
  for (int i = 0; i < n; ++i) {
    std::string s = genText(c);
    if (c.chance(1, 8)) {
      s.resize(0);
      while (s.size() + 3 < limit) s += enc((char32_t)c.range(0x3041, 0x30ff));
      while (s.size() < limit + (size_t)c.range(0, 1)) s += 'x';
    }
    texts.push_back(s);
    d += quote(s) + "\n";
  }
  c.describe(d);
  int good = 0, bad = 0;
  for (auto& s : texts) {
    std::vector<RefChar> ref;
    bool ok = refDecode(s, &ref) && s.size() <= limit;
    Status st = in.reset(s);
    PCHECK(c, st.isOk() == ok, quote(s) << (ok ? " is refused: " + st.message().str() : " is accepted"));
    (ok ? good : bad)++;
    if (!ok) continue;
    PCHECK(c, (size_t)in.numCodepoints() == ref.size(), "number of characters");
    PCHECK(c, in.surface().str() == s, "text");
    PCHECK(c, in.codepoints().size() == ref.size(), "characters");
    for (size_t a = 0; a <= ref.size(); ++a) {
      std::string t;
      for (size_t b = a; b <= ref.size(); ++b) {
        PCHECK(c, in.surface((int)a, (int)b).str() == t, "text from " << a << " to " << b << " is " << quote(in.surface((int)a, (int)b).str()));
        if (b < ref.size()) t += ref[b].bytes;
      }
    }
  }
  c.labelIf(good > 1 && bad > 0, "reused after a failure");
  c.nontrivial(good > 1);
}
}  // namespace

int main(int argc, char** argv) {
  CheckDef d;
  d.id = "U03";
  d.assumptions = {"character classes are those named by the comments and tables of characters.h and characters.cc; code points they don't name are symbols",
                   "structurally complete sequences that Unicode forbids (overlong, surrogates, above U+10FFFF) decode to their value"};
  d.facets.push_back({"classes", "the code point is not a plain symbol", 60000, 2000000, classes});
  d.facets.push_back({"all-classes", "every case (all code points)", 1, 1, allClasses});
  d.facets.push_back({"decode", "at least two bytes", 400000, 10000000, decode});
  d.facets.push_back({"input", "two accepted texts on one object", 60000, 2000000, input});
  return runMain(argc, argv, d);
}
