// U01: CSV reading
#include "pbt.h"
#include "util/csv_reader.h"
using namespace pbt;
using jumanpp::StringPiece;
using jumanpp::util::CsvReader;

typedef std::vector<std::string> Row;
typedef std::vector<Row> Table;

static std::string genField(Ctx& c, char sep, char quo) {
  std::string s;
  if (c.chance(1, 40)) {  // long field
    int n = c.range(1, 15000);
    s.assign(n, 'x');
    int k = c.range(0, 5);
    for (int i = 0; i < k && s.size() > 0; ++i) s[c.choose(s.size())] = c.oneOf({quo, sep, '\n', 'y'});
    return s;
  }
  while (c.more(s.size(), 0, 14, 3)) {
    switch (c.weighted({6, 2, 3, 1, 1, 1})) {
      case 0: s += (char)('a' + c.choose(26)); break;
      case 1: s += sep; break;
      case 2: s += quo; break;
      case 3: s += c.oneOf({'\n', '\r', ' ', '\t'}); break;
      case 4: s += c.oneOf<std::string>({"\xe3\x81\x82", "\xf0\xa0\xae\x9f", "\xc3\xa9"}); break;
      case 5: s += (char)c.choose(256); break;
    }
  }
  return s;
}

static std::string show(const Table& t) {
  std::string r;
  for (auto& row : t) {
    r += "[";
    for (auto& f : row) r += quote(f.size() > 60 ? f.substr(0, 60) + "...(" + std::to_string(f.size()) + ")" : f) + " ";
    r += "] ";
  }
  return r;
}

static void readAll(Ctx& c, CsvReader& rd, size_t bytes, Table* out, bool* clean) {
  size_t calls = 0;
  jumanpp::i64 last = rd.bytePosition();
  while (rd.nextLine()) {
    ++calls;
    PCHECK(c, calls <= bytes, "more rows than bytes: the reader does not advance");
    PCHECK(c, rd.bytePosition() > last, "a row was returned without consuming input, row " << calls);
    last = rd.bytePosition();
    PEQ(c, rd.lineNumber(), (jumanpp::i64)calls, "row number");
    Row r;
    for (int i = 0; i < rd.numFields(); ++i) r.push_back(rd.field(i).str());
    out->push_back(r);
  }
  PEQ(c, rd.byteSize(), (jumanpp::i64)bytes, "byteSize");
  *clean = rd.bytePosition() == rd.byteSize();
}

static void roundtrip(Ctx& c) {
  char sep = c.oneOf({',', '\t', ';', ' ', '|'});
  char quo = c.oneOf({'"', '\'', '`'});
  Table t;
  while (c.more(t.size(), 1, 12, 4)) {
    Row r;
    while (c.more(r.size(), 1, 8, 3)) r.push_back(genField(c, sep, quo));
    t.push_back(r);
  }
  std::string text;
  bool anyQuoted = false, anyEsc = false;
  int eolStyle = c.range(0, 2);
  bool finalNl = c.chance(1, 2);
  for (size_t i = 0; i < t.size(); ++i) {
    bool last = i + 1 == t.size();
    for (size_t j = 0; j < t[i].size(); ++j) {
      auto& f = t[i][j];
      if (j) text += sep;
      bool need = f.find_first_of(std::string("\r\n") + sep + quo) != std::string::npos;
      // a completely empty unterminated last row cannot be represented without quotes
      if (last && !finalNl && t[i].size() == 1 && f.empty()) need = true;
      if (need || c.chance(1, 4)) {
        anyQuoted = true;
        text += quo;
        for (char ch : f) {
          text += ch;
          if (ch == quo) {
            text += quo;
            anyEsc = true;
          }
        }
        text += quo;
      } else {
        text += f;
      }
    }
    if (!last || finalNl) text += (eolStyle == 0 || (eolStyle == 2 && c.chance(1, 2))) ? "\n" : "\r\n";
  }
  c.labelIf(anyEsc, "escaped quotes");
  c.labelIf(!finalNl, "no final newline");
  c.labelIf(!finalNl && t.back().back().empty() && t.back().size() > 1, "ends with separator");
  c.nontrivial(anyQuoted && t.size() > 1);
  c.describe("sep=" + quote(std::string(1, sep)) + " quote=" + std::string(1, quo) + " " + show(t) + " text=" + quote(text.substr(0, 400)));
  CsvReader rd(sep, quo);
  bool file = c.chance(1, 8);
  // keep the text in an exact heap block so that overreads are visible
  std::vector<char> exact(text.begin(), text.end());
  if (file) {
    c.label("from file");
    std::string fn = scratchFile(c, "t.csv");
    writeFile(fn, text);
    auto s = rd.open(fn);
    PCHECK(c, s.isOk(), "open: " << s);
  } else {
    auto s = rd.initFromMemory(StringPiece(exact.data(), exact.data() + exact.size()));
    PCHECK(c, s.isOk(), "init");
  }
  Table got;
  bool clean;
  readAll(c, rd, text.size(), &got, &clean);
  PCHECK(c, got == t, "read back " << show(got) << " expected " << show(t));
  PCHECK(c, clean, "reader did not reach the end of well-formed input");
  // a second pass over the same reader object
  auto s2 = rd.initFromMemory(StringPiece(exact.data(), exact.data() + exact.size()));
  PCHECK(c, s2.isOk(), "reinit");
  Table got2;
  readAll(c, rd, text.size(), &got2, &clean);
  PCHECK(c, got2 == t, "second pass read back " << show(got2) << " expected " << show(t));
}

// Reference reader. Returns rows up to the first malformed one.
// ambiguous: input outside what RFC 4180 + the reader's documentation define
static bool refRead(const std::string& s, Table* rows, bool* ambiguous) {
  size_t i = 0, n = s.size();
  *ambiguous = false;
  while (i < n) {
    Row r;
    for (;;) {
      std::string f;
      if (i < n && s[i] == '"') {
        ++i;
        for (;;) {
          if (i >= n) return false;
          if (s[i] == '"') {
            if (i + 1 < n && s[i + 1] == '"') {
              f += '"';
              i += 2;
              continue;
            }
            ++i;
            break;
          }
          f += s[i++];
        }
        if (i < n && s[i] == '\r' && !(i + 1 < n && s[i + 1] == '\n')) {
          *ambiguous = true;
          return true;
        }
        if (i < n && s[i] != ',' && s[i] != '\n' && s[i] != '\r') return false;
      } else {
        while (i < n && s[i] != ',' && s[i] != '\n') {
          if (s[i] == '"') return false;
          if (s[i] == '\r') {
            if (i + 1 < n && s[i + 1] == '\n') break;
            if (i > 0 && s[i - 1] == '\n') {  // LF CR sequence
              *ambiguous = true;
              return true;
            }
          }
          f += s[i++];
        }
      }
      r.push_back(f);
      if (i >= n) break;
      if (s[i] == ',') {
        ++i;
        continue;
      }
      if (s[i] == '\r') ++i;
      ++i;  // '\n'
      if (i < n && s[i] == '\r') *ambiguous = true;
      break;
    }
    rows->push_back(r);
    if (*ambiguous) return true;
  }
  return true;
}

static void raw(Ctx& c) {
  std::string s;
  int alpha = c.range(0, 2);
  while (c.more(s.size(), 0, 60, 14)) {
    if (alpha == 0)
      s += c.oneOf({'a', ',', '"', '\n', 'b', '"', ',', '\r'});
    else if (alpha == 1)
      s += c.oneOf<std::string>({"a", ",", "\"", "\"\"", "\"b\"", "\n", "\r\n", "\",\"", "\"\n"});
    else
      s += (char)c.choose(256);
  }
  if (c.chance(1, 20)) s += std::string("\"") + std::string(c.range(16000, 40000), 'z') + "\"\"\"";
  Table ref;
  bool amb;
  bool okRef = refRead(s, &ref, &amb);
  c.label(amb ? "ambiguous" : okRef ? "wellformed" : "malformed");
  c.nontrivial(s.size() > 2 && (s.find('"') != std::string::npos || s.find('\n') != std::string::npos));
  c.describe(quote(s.substr(0, 300)));
  std::vector<char> exact(s.begin(), s.end());
  CsvReader rd;
  auto st = rd.initFromMemory(StringPiece(exact.data(), exact.data() + exact.size()));
  PCHECK(c, st.isOk(), "init");
  Table got;
  bool clean;
  readAll(c, rd, s.size(), &got, &clean);
  bool big = false;
  for (auto& r : ref)
    for (auto& f : r) big = big || (f.size() > 8000 && f.find('"') != std::string::npos);
  if (big) return;  // over the size limit of one escaped field
  if (amb) {
    if (!ref.empty()) ref.pop_back();
    PCHECK(c, got.size() >= ref.size(), "rows before an ambiguous one are missing");
    got.resize(ref.size());
    PCHECK(c, got == ref, "got " << show(got) << " expected " << show(ref));
    return;
  }
  PCHECK(c, got == ref, "got " << show(got) << " expected " << show(ref));
  PCHECK(c, clean == okRef, "well-formed=" << okRef << " but reader reached the end: " << clean);
}

int main(int argc, char** argv) {
  CheckDef d;
  d.id = "U01";
  d.assumptions = {"a row is rejected when nextLine() returns false before the end of input",
                   "bare CR and LF CR sequences outside quotes are outside the documented format: only termination is checked there",
                   "fields containing escaped quotes are limited to the reader's 16 KiB buffer"};
  d.facets.push_back({"roundtrip", "random tables written with random quoting/EOL/final newline/separators and read back from memory and file; non-trivial = more than one row and a quoted field", 400000, 8000000, roundtrip});
  d.facets.push_back({"raw", "raw byte strings over a CSV-heavy alphabet compared with a reference reader; non-trivial = has a quote or newline", 800000, 20000000, raw});
  return runMain(argc, argv, d);
}
