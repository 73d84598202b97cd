// C18: saved chains load back identically; damaged files are rejected.
#include "markov_common.hpp"
using namespace mk;

static void same(Chain &a, Chain &b, const std::string &how)
{
  const auto &x = a.firstSymbolProbs(), &y = b.firstSymbolProbs();
  std::map<wchar_t, double> fx(x.begin(), x.end()), fy(y.begin(), y.end());
  pbt::require(x.size() == y.size() && fx == fy, how + ": first symbols differ");
  pbt::require_eq(b.nodes().size(), a.nodes().size(), how + ": number of symbols");
  for (auto &n : a.nodes())
  {
    auto it = b.nodes().find(n.first);
    pbt::require(it != b.nodes().end(), how + ": a symbol is missing");
    pbt::require(it->second.successors() == n.second.successors(), how + ": successors differ");
    std::map<wchar_t, double> sx(n.second.sortedSuccessors().begin(), n.second.sortedSuccessors().end()), sy(it->second.sortedSuccessors().begin(), it->second.sortedSuccessors().end());
    pbt::require(sx == sy && n.second.sortedSuccessors().size() == it->second.sortedSuccessors().size(), how + ": sorted successors differ");
  }
}
static bool premature(Chain::ErrCode e)
{
  return e == Chain::BAD_HEADER_PREMATURE_EOF || e == Chain::BAD_VERSION_PREMATURE_EOF || e == Chain::BAD_SYMBOL_COUNT_PREMATURE_EOF || e == Chain::BAD_SYMBOL_PREMATURE_EOF ||
         e == Chain::BAD_PROBABILITY_PREMATURE_EOF || e == Chain::BAD_NODE_COUNT_PREMATURE_EOF;
}
static void run(pbt::Gen &g, pbt::Ctx &c)
{
  const std::vector<WS> v = passwords(g, 60), other = passwords(g, 20);
  std::string what;
  pbt::Describe description(c, [&] { return mk::show(v) + "; " + what; });
  Chain a; trainAll(a, v);
  std::ostringstream os; a.saveBinary(os);
  const std::string good = os.str();
  Chain b; std::string before = "new chain";
  if (g.chance(1, 2)) { trainAll(b, other); before = "trained chain"; }
  auto load = [&](Chain &ch, const std::string &bytes) { std::istringstream is(bytes); return ch.loadBinary(is); };
  auto desc = [&](Chain::ErrCode e) { std::set<std::string> s; for (int k = 0; k <= int(Chain::BAD_NODE_COUNT_PREMATURE_EOF); ++k) { pbt::require(!a.errString(Chain::ErrCode(k)).empty(), "error without a description"); s.insert(a.errString(Chain::ErrCode(k))); }
    pbt::require_eq(s.size(), size_t(Chain::BAD_NODE_COUNT_PREMATURE_EOF) + 1, "distinct error descriptions"); return a.errString(e); };
  desc(Chain::OK);
  // offsets of the parts of the file, found by walking it
  struct Part { size_t at; int kind; };   // 0 first count, 1 first symbol, 2 first prob, 3 symbol count, 4 symbol, 5 node count, 6 succ symbol, 7 succ prob
  std::vector<Part> parts; std::vector<size_t> symAt;
  {
    size_t p = 5; auto u32 = [&](size_t at) { uint32_t x; memcpy(&x, good.data() + at, 4); return x; };
    pbt::require(good.size() > 9, "nothing was saved");
    parts.push_back({p, 0}); uint32_t n = u32(p); p += 4;
    pbt::require_eq(size_t(n), a.firstSymbolProbs().size(), "saved number of first symbols");
    for (uint32_t i = 0; i < n; ++i) { parts.push_back({p, 1}); p += sizeof(wchar_t); parts.push_back({p, 2}); p += 8; }
    parts.push_back({p, 3}); n = u32(p); p += 4;
    for (uint32_t i = 0; i < n; ++i)
    {
      parts.push_back({p, 4}); symAt.push_back(p); p += sizeof(wchar_t); parts.push_back({p, 5}); uint32_t k = u32(p); p += 4;
      for (uint32_t j = 0; j < k; ++j) { parts.push_back({p, 6}); p += sizeof(wchar_t); parts.push_back({p, 7}); p += 8; }
    }
    pbt::require_eq(p, good.size(), "size of the saved file");
  }
  const size_t tries = g.range(1, 4); bool damaged = false;
  for (size_t t = 0; t < tries; ++t)
  {
    std::string bad = good; Chain::ErrCode e;
    switch (g.below(7))
    {
    case 0: case 1:
    {
      const size_t cut = g.chance(1, 3) ? g.below(std::min<size_t>(good.size(), 16)) : g.chance(1, 3) ? parts[g.below(parts.size())].at : g.below(good.size());
      bad.resize(cut); what = "cut at " + std::to_string(cut) + " of " + std::to_string(good.size());
      e = load(b, bad);
      pbt::require(premature(e), "a truncated file gives " + desc(e));
      c.label("truncated"); break;
    }
    case 2:
      bad[g.below(4)] ^= char(1 + g.below(255)); what = "wrong header"; e = load(b, bad);
      pbt::require(e == Chain::BAD_HEADER, "a wrong header gives " + desc(e)); c.label("wrong header"); break;
    case 3:
      bad[4] ^= char(1 + g.below(255)); what = "wrong version " + std::to_string(int(bad[4])); e = load(b, bad);
      pbt::require(e == Chain::BAD_VERSION, "a wrong version gives " + desc(e)); c.label("wrong version"); break;
    case 4:
    {
      std::vector<size_t> at; for (auto &p : parts) if (p.kind == 2 || p.kind == 7) at.push_back(p.at);
      static const double B[] = {-1, -1e-300, 1.0000001, 2, 1e300, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::quiet_NaN()};
      const double x = B[g.below(9)]; const size_t p = at[g.below(at.size())]; memcpy(&bad[p], &x, 8);
      what = "value " + std::to_string(x) + " at " + std::to_string(p); e = load(b, bad);
      pbt::require(e == Chain::BAD_PROBABILITY, "a value that is no probability gives " + desc(e)); c.label("no probability"); break;
    }
    case 5:
    {
      if (symAt.size() < 2) continue;
      const size_t i = g.below(symAt.size()); size_t j = g.below(symAt.size() - 1); if (j >= i) ++j;
      memcpy(&bad[symAt[i]], good.data() + symAt[j], sizeof(wchar_t)); what = "symbol listed twice"; e = load(b, bad);
      pbt::require(e == Chain::BAD_SYMBOL, "a symbol listed twice gives " + desc(e)); c.label("symbol twice"); break;
    }
    default:
    {
      std::vector<size_t> at; for (auto &p : parts) if (p.kind == 0 || p.kind == 3 || p.kind == 5) at.push_back(p.at);
      const size_t p = at[g.below(at.size())]; uint32_t x; memcpy(&x, good.data() + p, 4);
      uint32_t y = g.chance(1, 2) ? 0xffffffffu - uint32_t(g.below(2)) : g.chance(1, 2) ? 0x7fffffffu : x + 1 + uint32_t(g.below(100000000));
      // a count that asks for more than the file holds must be refused; others only must not do harm
      memcpy(&bad[p], &y, 4); what = "count " + std::to_string(x) + " raised to " + std::to_string(y) + " at " + std::to_string(p);
      e = load(b, bad);
      pbt::require(uint64_t(y) * 8 <= good.size() || e != Chain::OK, "a count beyond the end of the file is accepted"); c.label("raised count"); break;
    }
    }
    damaged = true; before = "chain after a failed load";
    pbt::require(!desc(e).empty(), "no description");
  }
  what = "loading the undamaged file into a " + before;
  const Chain::ErrCode e = load(b, good);
  pbt::require(e == Chain::OK, "loading gives " + desc(e));
  same(a, b, "loaded into a " + before);
  for (int i = 0; i < 6; ++i) { const WS w = query(g, v); const double x = a.totalProbability(w), y = b.totalProbability(w); if (x != y) pbt::fail("probability of " + mk::show(w) + " after loading differs"); }
  std::ostringstream os2; b.saveBinary(os2); Chain d; pbt::require(load(d, os2.str()) == Chain::OK, "saving again does not load"); same(a, d, "saved and loaded twice");
  // whatever the chain was before loading, training it further gives the same as for a new one
  if (g.chance(1, 3))
  {
    Chain f; pbt::require(load(f, good) == Chain::OK, "loading gives an error");
    trainAll(f, other); trainAll(b, other); what = "training further after loading into a " + before;
    same(f, b, what); c.label("trained further");
  }
  bool anyNode = !symAt.empty(); if (!anyNode) c.label("no transitions");
  c.nontrivial = damaged && anyNode;
}
const pbt::Target pbt::target = {"C18",
  "case = a trained chain saved, 1..4 damaged copies (cut at any byte or part, header, version, probability, symbol listed twice, raised counts) loaded one after another into the same new or used chain, then the undamaged file; non-trivial = at least one damaged copy and one transition",
  run, 60000, 1000000, 60};
