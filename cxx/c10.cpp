// C10: hashes equal the standard MD5 and survive conversion to and from text.
#include "lookup_common.hpp"
#include <pwned-lib/hash.hpp>
#include <iomanip>
using namespace lk;

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  std::string data, text; bool nontrivial = false;
  pbt::Describe description(c, [&] { return "data " + pbt::show(data) + " text " + pbt::show(text); });
  std::ostringstream os;                                     // one stream, whatever formatting state it gets into
  const size_t n = g.range(1, 12);
  for (size_t i = 0; i < n; ++i)
    switch (g.below(4))
    {
    case 0:
    {
      data = g.bytes(g.chance(1, 20) ? 5000 : 150);
      if (g.chance(1, 3)) { const size_t len = g.pick(std::vector<size_t>{0, 1, 55, 56, 57, 63, 64, 65, 119, 120, 128}); data.resize(len, 'x'); }
      const Key k = md5key(data);
      const pwned::Hash h(data);
      pbt::require(h.isValid, "hash of a text is invalid");
      if (h.quad.upper != k.first || h.quad.lower != k.second) pbt::fail("hash is " + pbt::hex(h.quad.upper, h.quad.lower) + ", MD5 is " + show(k));
      pbt::require_eq(h.toString(), show(k), "text of the hash");
      const pwned::Hash b = pwned::Hash::fromHex(h.toString(g.chance(1, 2)));
      pbt::require(b.isValid && b == h, "text of the hash does not give it back");
      nontrivial = true;
      break;
    }
    case 1:
    {
      const Key k = genKey(g, int(g.below(7)), int(g.below(7)));
      const pwned::Hash h(k.first, k.second);
      std::string lower = show(k), upper = lower; for (auto &x : upper) x = char(toupper(x));
      const bool up = g.chance(1, 2);
      pbt::require_eq(h.toString(up), up ? upper : lower, "text of the hash");
      pbt::require_eq(h.toString(), lower, "text of the hash");
      switch (g.below(8))
      {
      case 0: os << std::hex; break;
      case 1: os << std::dec; break;
      case 2: os << std::uppercase; break;
      case 3: os << std::showbase << std::showpos << std::internal; break;
      case 4: os << std::setfill('#') << std::left; break;
      case 5: os << std::setw(int(g.below(32))); break;
      case 6: os << std::oct << std::setprecision(2) << std::scientific; break;
      default: break;
      }
      const size_t at = os.str().size();
      os << h;
      pbt::require_eq(os.str().substr(at), lower, "hash written to a stream");
      os << std::nouppercase;
      const pwned::Hash copy(h); pwned::Hash assigned; assigned = copy;
      pbt::require(copy == h && assigned == h && assigned.isValid, "copy of a hash differs");
      break;
    }
    case 2:                                                 // valid texts
    {
      text.clear(); for (int k = 0; k < 32; ++k) text += "0123456789abcdefABCDEF"[g.below(22)];
      const pwned::Hash h = pwned::Hash::fromHex(text);
      std::string lower = text; for (auto &x : lower) x = char(tolower(x));
      pbt::require(h.isValid, "valid text is refused: " + pbt::show(text));
      pbt::require_eq(pbt::hex(h.quad.upper, h.quad.lower), lower, "hash read from " + text);
      pbt::require_eq(h.toString(), lower, "round trip of " + text);
      nontrivial = true;
      break;
    }
    default:                                                // invalid texts
    {
      text.clear(); const size_t len = g.chance(1, 2) ? 32 : g.pick(std::vector<size_t>{0, 1, 2, 15, 16, 30, 31, 33, 34, 48, 64});
      for (size_t k = 0; k < len; ++k) text += "0123456789abcdefABCDEF"[g.below(22)];
      if (len == 32)
      {
        const size_t bad = g.range(1, 3);
        for (size_t k = 0; k < bad; ++k)
        {
          char x = g.chance(1, 2) ? "gG/:@`[] xX\n-+."[g.below(15)] : char(g.below(256));
          if ((x >= '0' && x <= '9') || (x >= 'a' && x <= 'f') || (x >= 'A' && x <= 'F')) x = 'g';
          text[g.chance(1, 3) ? 31 : g.below(32)] = x;
        }
      }
      const pwned::Hash h = pwned::Hash::fromHex(text);
      pbt::require(!h.isValid, "invalid text gives a valid hash: " + pbt::show(text));
      c.label(len == 32 ? "32 characters, some of them no digits" : "wrong length");
    }
    }
  c.nontrivial = nontrivial;
}
const pbt::Target pbt::target = {"C10",
  "case = up to 12 conversions: byte strings (all MD5 padding lengths, up to 5000 bytes), 128-bit values, valid texts in mixed case, texts with a wrong length or character; one output stream in changing formatting state; non-trivial = at least one MD5 or parse round trip",
  run, 400000, 6000000, 20};
