// Generator of leak files and an independent reference of what they contain.
#pragma once
#include "db.hpp"
#include <openssl/evp.h>

namespace rd {
static const std::string Seps = ":;\t ";

inline std::string noCR(const std::string &s) { std::string r; for (char c : s) if (c != '\r') r += c; return r; }
inline std::vector<std::string> lines(const std::string &content)
{
  std::vector<std::string> r; std::string cur;
  for (char c : content) if (c == '\n') { r.push_back(cur); cur.clear(); } else cur += c;
  r.push_back(cur);                       // what follows the last newline (possibly nothing)
  return r;
}
// separators that may be chosen: those with the highest number of lines among the first 500 (all tied ones)
inline std::string candidates(const std::vector<std::string> &ls)
{
  size_t n[4] = {0, 0, 0, 0};
  for (size_t i = 0; i < ls.size() && i < 500; ++i)
    for (int s = 0; s < 4; ++s) if (ls[i].find(Seps[size_t(s)]) != std::string::npos) ++n[s];
  const size_t best = *std::max_element(n, n + 4);
  std::string r;
  if (best) for (int s = 0; s < 4; ++s) if (n[s] == best) r += Seps[size_t(s)];
  return r;
}
inline std::string passwordOf(const std::string &line, char sep, bool hasSep)
{
  if (line.empty() || line.size() > 200) return "";
  const std::string l = noCR(line);
  if (!hasSep) return l;
  const size_t p = l.find(sep);
  return p == std::string::npos ? l : l.substr(p + 1);
}
inline std::string md5(const std::string &s)
{
  unsigned char d[16]; unsigned n = 0; EVP_Digest(s.data(), s.size(), d, &n, EVP_md5(), nullptr);
  return std::string(reinterpret_cast<char *>(d), 16);
}
inline bool hexDigit(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline int hexVal(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
inline bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool allHex(const std::string &s) { for (char c : s) if (!hexDigit(c)) return false; return true; }
inline std::string unhex(const std::string &s)
{
  std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(hexVal(s[i]) * 16 + hexVal(s[i + 1])); return r;
}
// $HEX[..] with valid content?
inline bool hexEntry(const std::string &p, std::string *out = nullptr)
{
  if (p.size() < 8 || p.compare(0, 5, "$HEX[") != 0 || p.back() != ']') return false;
  const std::string in = p.substr(5, p.size() - 6);
  if (in.size() % 2 || !allHex(in)) return false;
  if (out) *out = unhex(in);
  return true;
}
inline bool md5Entry(const std::string &p) { return p.size() == 32 && allHex(p); }
// anything that could be taken for an entry somewhere in the line
inline bool looksMd5(const std::string &l) { size_t run = 0; for (char c : l) { run = alnum(c) ? run + 1 : 0; if (run >= 32) return true; } return false; }
inline bool looksHex(const std::string &l)
{
  for (size_t p = l.find("$HEX["); p != std::string::npos; p = l.find("$HEX[", p + 1))
  {
    size_t q = p + 5; while (q < l.size() && alnum(l[q])) ++q;
    if (q < l.size() && l[q] == ']' && q > p + 5) return true;
  }
  return false;
}

struct Style { std::string alphabet; bool encodings; bool nul; };

inline std::string someHex(pbt::Gen &g, size_t n)
{
  std::string s; const int mode = int(g.below(3));
  for (size_t i = 0; i < n; ++i) { char c = "0123456789abcdefABCDEF"[g.below(22)]; if (mode == 1 && c >= 'A' && c <= 'F') c = char(c | 32); if (mode == 2 && c >= 'a') c = char(c & ~32); s += c; }
  return s;
}
inline std::string entry(pbt::Gen &g, bool &marked)     // well-formed or almost well-formed encodings
{
  marked = true;
  switch (g.below(15))
  {
  case 0: case 1: return "$HEX[" + someHex(g, 2 * g.range(1, 12)) + "]";
  case 2: case 3: return someHex(g, 32);
  case 4: return "$HEX[" + someHex(g, 2 * g.range(0, 6) + 1) + "]";
  case 5: { std::string s = someHex(g, 2 * g.range(1, 8)); s[g.below(s.size())] = "gGzZ. $]["[g.below(9)]; return "$HEX[" + s + "]"; }
  case 6: return "$HEX[]";
  case 7: return (g.chance(1, 2) ? "$hex[" : "HEX[") + someHex(g, 2 * g.range(1, 6)) + "]";
  case 8: return "$HEX[" + someHex(g, 2 * g.range(1, 6)) + (g.chance(1, 2) ? "" : "]x");
  case 9: return someHex(g, g.chance(1, 2) ? 31 : 33);
  case 10: { std::string s = someHex(g, 32); s[g.below(32)] = "gGzZ.-_"[g.below(7)]; return s; }
  case 11: return std::string(g.chance(1, 2) ? "x" : "$HEX[") + someHex(g, 32) + (g.chance(1, 2) ? "]" : "y");
  case 12: return "$HEX[" + someHex(g, 64) + "]";
  case 13: { const std::string s = someHex(g, 32); return "$HEX[" + s + "]"; }
  default:                                               // the encoding of something that is an encoding itself
    {
      const std::string s = g.chance(2, 3) ? someHex(g, 32) : "$HEX[" + someHex(g, 2 * g.range(1, 6)) + "]";
      std::string r = "$HEX["; for (char c : s) { r += "0123456789abcdef"[static_cast<unsigned char>(c) >> 4]; r += "0123456789abcdef"[c & 15]; }
      return r + "]";
    }
  }
}
inline std::string word(pbt::Gen &g, const Style &st, size_t max)
{
  std::string r(g.size(max), 'a');
  for (auto &c : r) c = g.chance(1, 30) ? char(1 + g.below(255)) : st.alphabet[g.below(st.alphabet.size())];
  for (auto &c : r) if (c == '\n') c = 'n';
  if (st.nul && g.chance(1, 20) && !r.empty()) r[g.below(r.size())] = '\0';
  return r;
}
inline std::string line(pbt::Gen &g, const Style &st, char sep, bool encodings)
{
  std::string l; bool marked = false;
  switch (g.weighted({8, 3, 2, 1, 1, 2}))
  {
  case 0: l = word(g, st, 12) + sep + (encodings && g.chance(1, 2) ? entry(g, marked) : word(g, st, 24)); break;
  case 1: l = encodings && g.chance(1, 2) ? entry(g, marked) : word(g, st, 24); break;
  case 2: l = word(g, st, 8) + Seps[g.below(4)] + word(g, st, 8) + Seps[g.below(4)] + word(g, st, 8); break;
  case 3: l = ""; break;
  case 4: l = std::string(1, Seps[g.below(4)]); if (g.chance(1, 2)) l = word(g, st, 5) + l; break;
  default:
    l = word(g, st, 10) + sep;
    { const size_t len = g.chance(1, 6) ? g.range(203, 1500) : g.range(196, 203); if (encodings && g.chance(1, 3)) l += entry(g, marked); while (l.size() < len) l += char('a' + l.size() % 26); if (l.size() > len && len >= 196) l.resize(len); }
    break;
  }
  for (auto &c : l) if (c == '\n') c = 'n';
  if (g.chance(1, 5))                          // carriage returns, never so that they alone exceed the length limit
  {
    std::string k = l;
    if (g.chance(2, 3)) k += '\r'; else k.insert(g.below(k.size() + 1), "\r");
    if ((k.size() <= 200) == (l.size() <= 200)) l = k;
  }
  return l;
}
// a whole file; filler lines bring interesting lines around the 500-line border
inline std::string content(pbt::Gen &g, bool encodings, bool nul)
{
  Style st; st.encodings = encodings; st.nul = nul;
  switch (g.below(4))
  {
  case 0: st.alphabet = "abcdefghijklmnopqrstuvwxyzABCDEF0123456789"; break;
  case 1: st.alphabet = "ab:; \t"; break;
  case 2: st.alphabet = "0123456789abcdef$HEX[]:"; break;
  default: st.alphabet = std::string("a\xc3\xa4\xff\x01\r:", 8); if (!nul) st.alphabet = "a\xc3\xa4\xff\x01:"; break;
  }
  // the CR alphabet would make lengths ambiguous; drop it
  st.alphabet.erase(std::remove(st.alphabet.begin(), st.alphabet.end(), '\r'), st.alphabet.end());
  const char sep = Seps[g.below(4)];
  std::vector<std::string> ls;
  auto some = [&](size_t n, bool enc) { for (size_t i = 0; i < n; ++i) ls.push_back(line(g, st, g.chance(4, 5) ? sep : Seps[g.below(4)], enc)); };
  if (g.chance(1, 8))
  {
    // border: one kind of line fills up to about line 500, another kind follows
    const std::string a = g.chance(1, 6) ? std::string("plainword") : std::string("user") + Seps[g.below(4)] + "pass";
    const std::string b = std::string("u") + Seps[g.below(4)] + "p" + (g.chance(1, 2) ? std::string(1, Seps[g.below(4)]) + "q" : "");
    some(g.below(4), false);
    const size_t at = g.range(245, 255) * (g.chance(1, 2) ? 2 : 1) - g.below(3);
    std::vector<std::string> fill{a};
    if (g.chance(1, 2)) for (size_t k = g.range(1, 3); k > 0; --k) fill.push_back(g.chance(1, 2) ? std::string() : g.chance(1, 3) ? std::string(230, 'o') : line(g, st, sep, false));
    while (ls.size() < at) ls.push_back(fill[ls.size() % fill.size()]);
    const size_t more = g.chance(1, 2) ? g.range(0, 6) : g.range(240, 760);
    some(g.below(3), encodings);
    for (size_t i = 0; i < more; ++i) ls.push_back(g.chance(1, 100) ? std::string() : b);
    some(g.below(4), encodings);
  }
  else
  {
    const bool late = g.chance(1, 3);
    some(g.size(40), encodings && !late);
    some(g.below(4), encodings);
  }
  if (g.chance(1, 8)) for (auto &l : ls) if ((l.size() + 1 <= 200) == (l.size() <= 200) && l.find('\r') == std::string::npos) l += '\r';      // from another system
  std::string c;
  for (size_t i = 0; i < ls.size(); ++i) { c += ls[i]; if (i + 1 < ls.size()) c += '\n'; }
  if (!ls.empty() && g.chance(1, 2)) c += '\n';
  if (g.chance(1, 20)) c += '\n';
  return c;
}
} // namespace rd
