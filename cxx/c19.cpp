// C19: random generation follows the trained probabilities.
#include "markov_common.hpp"
using namespace mk;

template <class F> static void draws(const std::map<wchar_t, double> &p, F draw, size_t n, const std::string &what)
{
  std::map<wchar_t, size_t> k;
  for (size_t i = 0; i < n; ++i)
  {
    const wchar_t s = draw(); ++k[s];
    if (!p.count(s)) pbt::fail(what + ": symbol " + std::to_string(long(s)) + " never occurs there");
  }
  for (auto &x : p)
  {
    const double f = double(k[x.first]) / double(n), sd = std::sqrt(x.second * (1 - x.second) / double(n));
    // 7 standard deviations plus a margin for rare symbols: a correct generator fails less than once in 10^10 comparisons
    if (std::fabs(f - x.second) > 7 * sd + 12.0 / double(n))
      pbt::fail(what + ": symbol " + std::to_string(long(x.first)) + " drawn with frequency " + std::to_string(f) + ", probability is " + std::to_string(x.second) + " (" + std::to_string(n) + " draws)");
  }
}
static void run(pbt::Gen &g, pbt::Ctx &c)
{
  std::vector<WS> v;
  const bool wide = g.chance(1, 12);
  if (wide)
  { // very many possible symbols, most of them rare
    const size_t k = g.range(65, 400), frequent = g.range(0, 3), base = g.chance(1, 2) ? 0x21 : 0x3b1;
    for (size_t i = 0; i < k; ++i) { const wchar_t s = wchar_t(base + i); v.push_back(g.chance(1, 2) ? WS{L'a', s} : WS{s, L'a', s}); }
    for (size_t i = 0; i < frequent; ++i) v.insert(v.end(), g.range(1, 40), v[g.below(k)]);
    c.label("more than 64 symbols");
  }
  else v = passwords(g, 40);
  pbt::Describe description(c, [&] { return mk::show(v); });
  Model m; for (auto &w : v) m.train(w);
  Chain trained, loaded; trainAll(trained, v);
  const bool useLoaded = g.chance(1, 2);
  if (useLoaded) { std::stringstream s; trained.saveBinary(s); pbt::require(loaded.loadBinary(s) == Chain::OK, "loading fails"); c.label("loaded chain"); }
  Chain &ch = useLoaded ? loaded : trained;
  const size_t n = wide ? 60000 : c.thorough ? 30000 : 6000;
  std::map<wchar_t, double> p; for (auto &f : m.first) p[f.first] = m.pFirst(f.first);
  draws(p, [&] { return ch.randomFirstSymbol(); }, n, "first symbol");
  bool several = p.size() > 1; size_t nodes = 0;
  for (auto &x : m.next)
  {
    if (++nodes > 4) break;
    std::map<wchar_t, double> q; for (auto &s : x.second) q[s.first] = m.pNext(x.first, s.first);
    auto it = ch.nodes().find(x.first); pbt::require(it != ch.nodes().end(), "a symbol has no successors");
    draws(q, [&] { return it->second.randomSuccessor(); }, n, "successor of " + std::to_string(long(x.first)));
    if (q.size() > 1) several = true;
  }
  c.nontrivial = several;
}
const pbt::Target pbt::target = {"C19",
  "case = 1..40 passwords, or some hundreds with 65..400 different symbols (then 60000 draws), trained or saved and loaded; 6000 draws of the first symbol and of the successors of up to four symbols against the observed frequencies at 7 standard deviations; non-trivial = several possible symbols",
  run, 3000, 30000, 60};
