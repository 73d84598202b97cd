#pragma once
#include "pbt.hpp"
#include <cmath>
#include <pwned-lib/markovchain.hpp>

namespace mk {
using Chain = pwned::markov::Chain<wchar_t, double>;
using WS = std::wstring;

inline std::string utf8(const WS &w)
{
  std::string s;
  for (wchar_t wc : w)
  {
    const uint32_t c = uint32_t(wc);
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
  }
  return s;
}
inline wchar_t symbol(pbt::Gen &g)
{
  switch (g.below(6))
  {
  case 0: case 1: case 2: return wchar_t('a' + g.below(26));
  case 3: return wchar_t(1 + g.below(0x7f));
  case 4: return wchar_t(0x80 + g.below(0x780));
  default: { static const uint32_t E[] = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}; return wchar_t(g.chance(1, 2) ? E[g.below(12)] : 0x10000 + g.below(0x100000)); }
  }
}
inline std::vector<WS> passwords(pbt::Gen &g, size_t maxN, WS *alphabetOut = nullptr)
{
  WS alphabet; const size_t k = g.range(1, g.chance(1, 4) ? 30 : 5);
  for (size_t i = 0; i < k; ++i) alphabet += symbol(g);
  std::vector<WS> r; const size_t n = g.range(1, g.chance(1, 5) ? maxN : 12);
  const size_t maxLen = g.chance(1, 6) ? 1 : g.chance(1, 8) ? 60 : 8;
  for (size_t i = 0; i < n; ++i)
  {
    if (!r.empty() && g.chance(1, 5)) { r.push_back(r[g.below(r.size())]); continue; }
    WS w; const size_t len = g.range(1, maxLen);
    for (size_t j = 0; j < len; ++j) w += alphabet[g.chance(1, 2) ? 0 : g.below(alphabet.size())];
    r.push_back(w);
  }
  if (alphabetOut) *alphabetOut = alphabet;
  return r;
}
struct Model
{
  std::map<wchar_t, uint64_t> first; uint64_t n = 0;
  std::map<wchar_t, std::map<wchar_t, uint64_t>> next; std::map<wchar_t, uint64_t> sum;
  void train(const WS &w) { ++first[w[0]]; ++n; for (size_t i = 0; i + 1 < w.size(); ++i) { ++next[w[i]][w[i + 1]]; ++sum[w[i]]; } }
  double pFirst(wchar_t c) const { auto i = first.find(c); return i == first.end() ? 0 : double(i->second) / double(n); }
  double pNext(wchar_t a, wchar_t b) const
  {
    auto i = next.find(a); if (i == next.end()) return 0;
    auto j = i->second.find(b); return j == i->second.end() ? 0 : double(j->second) / double(sum.at(a));
  }
  double p(const WS &w) const { double r = pFirst(w[0]); for (size_t i = 0; i + 1 < w.size() && r > 0; ++i) r *= pNext(w[i], w[i + 1]); return r; }
};
inline bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::fabs(b); }
inline std::string show(const WS &w) { return pbt::show(utf8(w)); }
inline std::string show(const std::vector<WS> &v) { std::string s = std::to_string(v.size()) + " passwords"; for (size_t i = 0; i < v.size() && i < 12; ++i) s += " " + show(v[i]); return s; }
inline void trainAll(Chain &c, const std::vector<WS> &v) { for (auto &w : v) pbt::require(c.train(utf8(w)), "training a password is refused"); c.update(); }

// some password to ask for: trained, changed, or unseen
inline WS query(pbt::Gen &g, const std::vector<WS> &v)
{
  WS w = g.pick(v);
  switch (g.below(7))
  {
  case 0: break;
  case 1: w += g.pick(v); break;
  case 2: w[g.below(w.size())] = symbol(g); break;
  case 3: w += symbol(g); break;
  case 4: w.insert(w.begin() + long(g.below(w.size() + 1)), g.pick(v)[0]); break;
  case 5: w.erase(g.below(w.size()), 1); if (w.empty()) w = g.pick(v); break;
  default: { w.clear(); const size_t n = g.range(1, 6); for (size_t i = 0; i < n; ++i) { const WS &x = g.pick(v); w += x[g.below(x.size())]; } }
  }
  return w;
}
} // namespace mk
