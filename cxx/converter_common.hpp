// What the converter's output files hold.
#pragma once
#include "cli_sched.hpp"
#include "reader_common.hpp"

inline std::string hashOf(const std::string &p)          // record form: both halves little-endian
{
  std::string h = rd::md5(p), r;
  for (int i = 7; i >= 0; --i) r += h[size_t(i)];
  for (int i = 15; i >= 8; --i) r += h[size_t(i)];
  return r;
}
inline std::map<std::string, uint64_t> counts(const std::map<std::string, std::string> &fs)
{
  std::map<std::string, uint64_t> r;
  for (auto &f : fs)
  {
    if (f.second.size() % 20) pbt::fail("file " + f.first + " ends within a record");
    std::string last;
    for (size_t i = 0; i + 20 <= f.second.size(); i += 20)
    {
      const std::string h = f.second.substr(i, 16); uint32_t n = 0; for (int k = 3; k >= 0; --k) n = n << 8 | uint8_t(f.second[i + 16 + size_t(k)]);
      std::string big; for (int k = 7; k >= 0; --k) big += h[size_t(k)]; for (int k = 15; k >= 8; --k) big += h[size_t(k)];
      if (i && !(last < big)) pbt::fail("file " + f.first + " is not ascending");
      last = big; r[h] += n;
    }
  }
  return r;
}
