// C17, second part: more passwords than a 32-bit number can count. Built for speed; the symbols are counted one by one.
#include "markov_common.hpp"
#include <thread>
using namespace mk;

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  // how often each symbol is counted; the first ones make up more than 2^32 together
  const size_t k = g.range(1, 4);
  std::vector<uint64_t> n; uint64_t left = (1ULL << 32) + g.below(1 << 20);
  for (size_t i = 0; i + 1 < k; ++i) { n.push_back(left / g.range(2, 5)); left -= n.back(); }
  n.push_back(left);
  for (size_t i = g.below(4); i > 0; --i) n.push_back(1 + g.below(1000));
  uint64_t sum = 0; std::string text;
  for (auto x : n) { sum += x; text += std::to_string(x) + " "; }
  pbt::Describe description(c, [&] { return "symbols counted " + text + "times"; });
  Chain first, pairs;
  auto count = [&](auto f) { for (size_t i = 0; i < n.size(); ++i) for (uint64_t j = n[i]; j > 0; --j) f(wchar_t('a' + i)); };
  std::thread other([&] { count([&](wchar_t s) { pairs.addPair(L'x', s); }); });
  count([&](wchar_t s) { first.addFirst(s); });
  other.join();
  first.update(); pairs.update();
  pbt::require_eq(first.firstSymbolProbs().size(), n.size(), "number of first symbols");
  for (auto &p : first.firstSymbolProbs())
  {
    const size_t i = size_t(p.first - L'a');
    pbt::require(i < n.size(), "first symbol that begins no password");
    pbt::require(close(p.second, double(n[i]) / double(sum)), "probability of first symbol " + std::to_string(i) + " is " + std::to_string(p.second) + ", observed " + std::to_string(double(n[i]) / double(sum)));
  }
  pbt::require(pairs.nodes().size() == 1, "number of symbols with successors");
  for (size_t i = 0; i < n.size(); ++i)
  {
    const double p = pairs.nodes().begin()->second.probability(wchar_t('a' + i)), want = double(n[i]) / double(sum);
    pbt::require(close(p, want), "probability of transition " + std::to_string(i) + " is " + std::to_string(p) + ", observed " + std::to_string(want));
  }
  c.label("more than 2^32 symbols"); c.nontrivial = true;
}
const pbt::Target pbt::target = {"C17B",
  "case = more than 2^32 first symbols and transitions, counted one by one; non-trivial = always",
  run, 2, 16, 600};
