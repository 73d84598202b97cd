// C23: hex decoding and bit counting are exact.
#include "pbt.hpp"
#include <pwned-lib/util.hpp>

static int val(unsigned char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
static void run(pbt::Gen &g, pbt::Ctx &c)
{
  std::string seq, result;
  pbt::Describe description(c, [&] { return pbt::show(seq) + " -> " + pbt::show(result); });
  for (int i = 0; i < 256; ++i)
  {
    const int d = pwned::decodeHex(char(i)), w = val((unsigned char)i);
    pbt::require(w >= 0 ? d == w : d < 0, "decodeHex(" + std::to_string(i) + ") = " + std::to_string(d));
  }
  std::string want;
  const size_t n = g.size(g.chance(1, 10) ? 3000 : 80);
  for (size_t i = 0; i < n; ++i)
  {
    const int b = int(g.below(256)); want += char(b);
    const char *set = g.chance(1, 2) ? "0123456789abcdef" : "0123456789ABCDEF";
    seq += set[b >> 4]; seq += g.chance(1, 2) ? "0123456789abcdef"[b & 15] : "0123456789ABCDEF"[b & 15];
  }
  result = g.bytes(10);
  const int kind = int(g.below(3));
  if (kind == 0)
  {
    const bool ok = pwned::hexToCharSeq(seq, result);
    if (!seq.empty()) pbt::require(ok, "digit pairs are reported as failure");
    if (result != want) pbt::fail("decoded bytes differ from " + pbt::show(want));
    c.nontrivial = n >= 2; c.label("digit pairs");
  }
  else if (kind == 1)
  {
    const size_t at = g.below(seq.size() + 1);
    seq.insert(at, 1, "0123456789abcdefABCDEF"[g.below(22)]);
    pbt::require(!pwned::hexToCharSeq(seq, result), "a sequence of odd length is reported as decoded");
    c.nontrivial = n >= 2; c.label("odd length");
  }
  else if (!seq.empty())
  {
    char bad = g.chance(1, 2) ? char(g.below(256)) : "gG/:@`Zz xX+-"[g.below(13)];
    if (val((unsigned char)bad) >= 0) bad = 'g';
    const size_t at = g.below(seq.size());
    seq[at] = bad;
    pbt::require(!pwned::hexToCharSeq(seq, result), "a character that is no digit is reported as decoded");
    c.nontrivial = n >= 2; c.label("character that is no digit");
  }
  for (int i = 0; i < 20; ++i)
  {
    uint64_t v = g.u64(); unsigned w = 0; for (uint64_t x = v; x; x &= x - 1) ++w;
    pbt::require_eq(pwned::popcnt64(v), w, "bit count of " + std::to_string(v));
  }
}
const pbt::Target pbt::target = {"C23",
  "case = a sequence of digit pairs in mixed case (0..3000 bytes), whole, with one digit more or with one wrong character, into a used result; all 256 characters and 20 bit counts per case; non-trivial = at least two bytes",
  run, 300000, 4000000, 20};
