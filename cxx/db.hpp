// Generators and model for sorted MD5:count files.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <fstream>
#include <map>
#include <unistd.h>
#include <utility>
#include <vector>

namespace dbgen {
using Key = std::pair<uint64_t, uint64_t>;   // (upper, lower), ordered like the hash text
struct Rec { Key k; uint32_t count; };
using Model = std::map<Key, uint32_t>;

inline uint64_t half(pbt::Gen &g, int shape)
{
  switch (shape)
  {
  case 0: return g.raw64();
  case 1: return g.below(4);
  case 2: return ~uint64_t(0) - g.below(4);
  case 3: return (uint64_t(1) << 63) - 2 + g.below(4);
  case 4: return g.below(256) << 56;
  case 5: return 0x1234567800000000ULL + g.below(1000);
  default: return g.u64();
  }
}
inline Key genKey(pbt::Gen &g, int shapeU, int shapeL) { uint64_t u = half(g, shapeU); uint64_t l = half(g, shapeL); return {u, l}; }
inline uint32_t genCount(pbt::Gen &g)
{
  switch (g.below(5))
  {
  case 0: return 1;
  case 1: return uint32_t(1 + g.below(300));
  case 2: return uint32_t(1) << g.below(32);
  case 3: return 0xffffffffu - uint32_t(g.below(3));
  default: { uint32_t c = uint32_t(g.raw64()); return c ? c : 1; }
  }
}
// neighbour of a key: differs by a little in one half
inline Key near(pbt::Gen &g, Key k)
{
  switch (g.below(8))
  {
  case 0: ++k.second; break;
  case 1: --k.second; break;
  case 2: ++k.first; break;
  case 3: --k.first; break;
  case 4: std::swap(k.first, k.second); break;
  case 5: k.second = ~k.second; break;
  case 6: k.second ^= uint64_t(1) << g.below(64); break;
  default: k.first ^= uint64_t(1) << g.below(64); break;
  }
  return k;
}
inline Model genModel(pbt::Gen &g, size_t maxN, std::string *shape = nullptr)
{
  Model m;
  size_t n;
  switch (g.below(6))
  {
  case 0: n = g.below(4); break;
  case 1: n = g.range(1, 12); break;
  case 2: case 3: n = g.range(2, 60); break;
  case 4: { size_t k = size_t(1) << g.range(1, 6); n = k - 1 + g.below(3); break; }   // around powers of two
  default: n = g.range(1, maxN); break;
  }
  const int su = int(g.weighted({6, 2, 2, 1, 3, 2, 2}));
  const int sl = int(g.weighted({6, 1, 1, 1, 1, 1, 2}));
  const bool oneUpper = g.chance(1, 6);
  const bool neighbours = g.chance(1, 3);
  const Key base = genKey(g, su, sl);
  Key last = base;
  size_t tries = 0;
  while (m.size() < n && tries++ < 3 * n + 10)
  {
    Key k = neighbours && !m.empty() && g.chance(1, 2) ? near(g, last) : genKey(g, su, sl);
    if (oneUpper) k.first = base.first;
    last = k;
    m.emplace(k, genCount(g));
  }
  if (shape) *shape = std::string(oneUpper ? "one-upper" : "free-upper") + "/u" + std::to_string(su) + "l" + std::to_string(sl);
  return m;
}
inline Key genQuery(pbt::Gen &g, const Model &m)
{
  auto nth = [&](size_t i) { auto it = m.begin(); std::advance(it, long(i)); return it->first; };
  if (m.empty()) return g.chance(1, 2) ? genKey(g, 0, 0) : Key{half(g, 6), half(g, 6)};
  switch (g.below(10))
  {
  case 0: case 1: case 2: return nth(g.below(m.size()));
  case 3: return g.chance(1, 2) ? m.begin()->first : m.rbegin()->first;
  case 4: case 5: return near(g, nth(g.below(m.size())));
  case 6: return g.chance(1, 2) ? Key{0, g.below(2)} : Key{~0ULL, ~0ULL - g.below(2)};
  case 7: { Key k = g.chance(1, 2) ? m.begin()->first : m.rbegin()->first; return near(g, k); }
  case 8: { Key a = nth(g.below(m.size())), b = nth(g.below(m.size())); return {a.first, b.second}; }
  default: return genKey(g, 0, 0);
  }
}
inline void put(std::string &s, Key k, uint32_t c)
{
  s.append(reinterpret_cast<const char *>(&k.first), 8);
  s.append(reinterpret_cast<const char *>(&k.second), 8);
  s.append(reinterpret_cast<const char *>(&c), 4);
}
inline std::string image(const Model &m)
{
  std::string s; s.reserve(m.size() * 20);
  for (auto &r : m) put(s, r.first, r.second);
  return s;
}
inline void writeFile(const std::string &path, const std::string &data)
{
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(data.data(), std::streamsize(data.size()));
  f.close();
  if (!f) { perror(path.c_str()); _exit(77); }
}
inline std::string readFile(const std::string &path)
{
  std::ifstream f(path, std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str();
}
inline std::string show(const Key &k) { return pbt::hex(k.first, k.second); }
inline std::string show(const Model &m, size_t max = 6)
{
  std::string s = std::to_string(m.size()) + " records"; size_t i = 0;
  for (auto &r : m) { if (i++ >= max) { s += " .."; break; } s += (i == 1 ? ": " : " ") + show(r.first) + "x" + std::to_string(r.second); }
  return s;
}
// index by definition: entry k = byte position of the first record whose leading bits are k, else all ones
inline std::string indexImage(const Model &m, unsigned bits)
{
  std::vector<uint64_t> e(size_t(1) << bits, ~uint64_t(0));
  uint64_t pos = 0;
  for (auto &r : m) { uint64_t k = r.first.first >> (64 - bits); if (e[k] == ~uint64_t(0)) e[k] = pos; pos += 20; }
  return std::string(reinterpret_cast<const char *>(e.data()), e.size() * 8);
}
} // namespace dbgen
