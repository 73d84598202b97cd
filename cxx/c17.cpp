// C17: Markov probabilities equal the observed frequencies.
#include "markov_common.hpp"
using namespace mk;

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  const std::vector<WS> v = passwords(g, c.thorough ? 600 : 150);
  std::string asked;
  pbt::Describe description(c, [&] { return mk::show(v) + "; asked for " + asked; });
  Chain ch; Model m;
  if (g.chance(1, 4))                               // trained in several portions, updated in between
  {
    for (auto &w : v) { pbt::require(ch.train(utf8(w)), "training a password is refused"); m.train(w); if (g.chance(1, 3)) ch.update(); }
    if (g.chance(1, 3)) pbt::require(!ch.train(""), "training an empty password is not refused");
    ch.update(); c.label("updated in between");
  }
  else { trainAll(ch, v); for (auto &w : v) m.train(w); }
  // first symbols
  const auto &f = ch.firstSymbolProbs();
  pbt::require_eq(f.size(), m.first.size(), "number of first symbols");
  for (size_t i = 0; i < f.size(); ++i)
  {
    pbt::require(m.first.count(f[i].first), "first symbol that begins no password");
    pbt::require(close(f[i].second, m.pFirst(f[i].first)), "probability of first symbol " + std::to_string(long(f[i].first)) + " is " + std::to_string(f[i].second) + ", observed " + std::to_string(m.pFirst(f[i].first)));
  }
  // transitions
  pbt::require_eq(ch.nodes().size(), m.next.size(), "number of symbols with successors");
  for (auto &node : ch.nodes())
  {
    auto it = m.next.find(node.first);
    pbt::require(it != m.next.end(), "successors of a symbol that has none");
    pbt::require_eq(node.second.successors().size(), it->second.size(), "number of successors");
    pbt::require_eq(node.second.sortedSuccessors().size(), it->second.size(), "number of sorted successors");
    for (auto &s : it->second)
    {
      const double p = m.pNext(node.first, s.first);
      pbt::require(close(node.second.probability(s.first), p), "probability of a transition is " + std::to_string(node.second.probability(s.first)) + ", observed " + std::to_string(p));
    }
    for (auto &s : node.second.sortedSuccessors()) pbt::require(close(s.second, m.pNext(node.first, s.first)), "probability in the sorted successors differs");
    const wchar_t other = symbol(g);
    if (!it->second.count(other)) pbt::require_eq(node.second.probability(other), 0.0, "probability of an unseen transition");
  }
  // passwords
  const size_t n = g.range(3, 12); bool zero = false, positive = false;
  for (size_t i = 0; i < n; ++i)
  {
    const WS w = query(g, v); asked = mk::show(w);
    const double got = ch.totalProbability(w), want = m.p(w);
    if (want == 0) { zero = true; if (got != 0) pbt::fail("probability is " + std::to_string(got) + ", expected 0"); }
    else { if (want > 0) positive = true; if (!close(got, want)) { std::ostringstream s; s << "probability is " << got << ", expected " << want; pbt::fail(s.str()); } }
  }
  if (m.next.empty()) c.label("one-symbol passwords only");
  if (zero) c.label("unseen password");
  c.nontrivial = zero && positive && !m.next.empty();
}
const pbt::Target pbt::target = {"C17",
  "case = 1..150 passwords over a small random alphabet (1- to 4-byte UTF-8), all first symbols, transitions and 3..12 password probabilities against counts; non-trivial = a seen and an unseen password",
  run, 60000, 1000000, 20};
