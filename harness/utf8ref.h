// reference decoder for structurally correct UTF-8: lead byte with the right
// number of continuation bytes
#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct RefChar {
  char32_t cp;
  std::string bytes;
};
// false when a sequence is broken or truncated
inline bool refDecode(const std::string& s, std::vector<RefChar>* out) {
  out->clear();
  size_t i = 0;
  while (i < s.size()) {
    unsigned c = (unsigned char)s[i];
    size_t n;
    char32_t v;
    if ((c & 0x80) == 0) n = 1, v = c;
    else if ((c & 0xE0) == 0xC0) n = 2, v = c & 0x1F;
    else if ((c & 0xF0) == 0xE0) n = 3, v = c & 0x0F;
    else if ((c & 0xF8) == 0xF0) n = 4, v = c & 0x07;
    else return false;
    if (i + n > s.size()) return false;
    for (size_t k = 1; k < n; ++k) {
      unsigned x = (unsigned char)s[i + k];
      if ((x & 0xC0) != 0x80) return false;
      v = v << 6 | (x & 0x3F);
    }
    out->push_back({v, s.substr(i, n)});
    i += n;
  }
  return true;
}
// well-formed in the sense of the Unicode standard
inline bool refStrict(const std::string& s) {
  std::vector<RefChar> v;
  if (!refDecode(s, &v)) return false;
  for (auto& x : v) {
    size_t n = x.bytes.size();
    if (n == 2 && x.cp < 0x80) return false;
    if (n == 3 && x.cp < 0x800) return false;
    if (n == 4 && x.cp < 0x10000) return false;
    if (x.cp > 0x10ffff || (x.cp >= 0xd800 && x.cp < 0xe000)) return false;
  }
  return true;
}
