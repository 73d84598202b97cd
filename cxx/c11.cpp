// C11: hash comparisons form one consistent order.
#include "lookup_common.hpp"
#include <pwned-lib/passwordhashandcount.hpp>
#include <set>
using namespace lk;

static int sign(int x) { return x < 0 ? -1 : x > 0; }
static void pair(const pwned::Hash &a, const pwned::Hash &b)
{
  const std::string ta = pbt::hex(a.quad.upper, a.quad.lower), tb = pbt::hex(b.quad.upper, b.quad.lower);
  const int o = sign(ta.compare(tb));
  const std::string p = ta + " and " + tb + ": ";
  pbt::require_eq(int(a < b), int(o < 0), p + "<");
  pbt::require_eq(int(a > b), int(o > 0), p + ">");
  pbt::require_eq(int(a == b), int(o == 0), p + "==");
  pbt::require_eq(int(a != b), int(o != 0), p + "!=");
  pbt::require_eq(int(a <= b), int(o <= 0), p + "<=");
  pbt::require_eq(int(a >= b), int(o >= 0), p + ">=");
  pbt::require_eq(int(pwned::HashLess()(a, b)), int(o < 0), p + "HashLess");
  const pwned::PHC pa(a, 1), pb(b, 2);
  pbt::require_eq(int(pwned::PasswordHashAndCountLess()(pa, pb)), int(o < 0), p + "record order");
  pbt::require_eq(int(pa == pb), int(o == 0), p + "record equality");
}
static void run(pbt::Gen &g, pbt::Ctx &c)
{
  const size_t n = g.range(2, 14);
  const int su = int(g.below(7)), sl = int(g.below(7));
  std::vector<Key> ks;
  for (size_t i = 0; i < n; ++i)
    switch (g.below(4))
    {
    case 0: ks.push_back(genKey(g, su, sl)); break;
    case 1: ks.push_back(ks.empty() ? genKey(g, su, sl) : near(g, g.pick(ks))); break;
    case 2: ks.push_back(ks.empty() ? genKey(g, su, sl) : g.pick(ks)); break;
    default: ks.push_back(ks.empty() ? genKey(g, su, sl) : Key{g.pick(ks).first, g.pick(ks).second}); break;
    }
  pbt::Describe description(c, [&] { std::string s; for (auto &k : ks) s += show(k) + " "; return s; });
  std::vector<pwned::Hash> hs;
  for (auto &k : ks) hs.push_back(g.chance(1, 2) ? pwned::Hash(k.first, k.second) : pwned::Hash::fromHex(show(k)));
  for (auto &a : hs) for (auto &b : hs) pair(a, b);
  // validity is part of equality
  {
    pwned::Hash inv; inv.quad.upper = ks[0].first; inv.quad.lower = ks[0].second;
    pbt::require(!(inv == hs[0]) && inv != hs[0] && !(hs[0] == inv) && hs[0] != inv, "an invalid hash equals a valid one");
    pwned::Hash inv2(inv);
    pbt::require(inv == inv2 && !(inv != inv2), "copies of an invalid hash differ");
  }
  // sorting does not depend on the order of the input
  std::vector<Key> want = ks; std::sort(want.begin(), want.end());
  for (int round = 0; round < 2; ++round)
  {
    std::vector<pwned::Hash> v = hs;
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.below(i)]);
    std::vector<pwned::PHC> r; for (auto &h : v) r.emplace_back(h, 1);
    if (round) std::sort(v.begin(), v.end()); else std::sort(v.begin(), v.end(), pwned::HashLess());
    std::sort(r.begin(), r.end(), pwned::PasswordHashAndCountLess());
    std::set<pwned::Hash, pwned::HashLess> s(v.begin(), v.end());
    std::map<pwned::Hash, int, pwned::HashLess> m; for (auto &h : v) ++m[h];
    for (size_t i = 0; i < v.size(); ++i)
    {
      pbt::require(v[i].quad.upper == want[i].first && v[i].quad.lower == want[i].second, "sorted hashes are out of order at " + std::to_string(i));
      pbt::require(r[i].hash.quad.upper == want[i].first && r[i].hash.quad.lower == want[i].second, "sorted records are out of order at " + std::to_string(i));
    }
    const size_t distinct = std::set<Key>(ks.begin(), ks.end()).size();
    pbt::require_eq(s.size(), distinct, "size of a set of hashes");
    pbt::require_eq(m.size(), distinct, "size of a map of hashes");
    for (auto &h : hs) pbt::require_eq(size_t(m[h]), size_t(std::count(ks.begin(), ks.end(), Key{h.quad.upper, h.quad.lower})), "count in a map of hashes");
  }
  bool eq = false, sameUpper = false;
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) { if (ks[i] == ks[j]) eq = true; else if (ks[i].first == ks[j].first) sameUpper = true; }
  if (eq) c.label("equal hashes");
  if (sameUpper) c.label("hashes differing in the lower half only");
  c.nontrivial = sameUpper;
}
const pbt::Target pbt::target = {"C11",
  "case = 2..14 hashes (random, neighbours, equal, same upper half, swapped halves); all pairs and all operators against the order of the texts, sort/set/map; non-trivial = two hashes that differ in the lower half only",
  run, 150000, 3000000, 20};
