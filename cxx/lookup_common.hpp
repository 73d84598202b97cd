#pragma once
#include "db.hpp"
#include <openssl/evp.h>
#include <pwned-lib/passwordinspector.hpp>

namespace lk {
using namespace dbgen;
inline Key md5key(const std::string &s)
{
  unsigned char d[16]; unsigned n = 0;
  EVP_Digest(s.data(), s.size(), d, &n, EVP_md5(), nullptr);
  Key k{0, 0};
  for (int i = 0; i < 8; ++i) { k.first = (k.first << 8) | d[i]; k.second = (k.second << 8) | d[8 + i]; }
  return k;
}
inline void checkAnswer(const pwned::PasswordHashAndCount &r, const Key &q, const Model &m, const std::string &how)
{
  auto it = m.find(q);
  const uint32_t want = it == m.end() ? 0 : it->second;
  if (r.count != want)
    pbt::fail(how + " of " + show(q) + " gives count " + std::to_string(r.count) + ", stored is " + std::to_string(want));
  if (want && (r.hash.quad.upper != q.first || r.hash.quad.lower != q.second))
    pbt::fail(how + " of " + show(q) + " gives hash " + pbt::hex(r.hash.quad.upper, r.hash.quad.lower));
}
} // namespace lk
