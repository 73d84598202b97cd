// C24: identifiers are printed completely and are distinct.
#include "pbt.hpp"
#include <iomanip>
#include <iostream>
#include <pwned-lib/uuid.hpp>
#include <unistd.h>

static std::string print(pbt::Gen &g, std::ostream &base, const pwned::UUID &u)
{
  std::ostringstream os; os.copyfmt(base);
  (void)g;
  os << u;
  return os.str();
}
static std::string expected(const pwned::UUID &u)
{
  std::string h = pbt::hex(u.uuid[0], u.uuid[1]); for (auto &x : h) x = char(toupper(x));
  return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20);
}
static void child() { for (int i = 0; i < 3; ++i) std::cout << pwned::UUID() << "\n"; std::cout.flush(); }
static std::string fresh()
{
  std::string r;
  char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) return ""; exe[n] = 0;
  FILE *f = popen((std::string("'") + exe + "' --child").c_str(), "r"); if (!f) return "";
  char b[256]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k);
  pclose(f);
  return r;
}
static void run(pbt::Gen &g, pbt::Ctx &c)
{
  pwned::UUID u; std::string got;
  pbt::Describe description(c, [&] { return "identifier " + pbt::hex(u.uuid[0], u.uuid[1]) + " printed " + pbt::show(got); });
  if (g.chance(1, 2000))
  {
    c.label("identifiers of two processes");
    std::istringstream a(fresh()), b(fresh()); std::set<std::string> s; std::string l; size_t n = 0;
    while (std::getline(a, l)) { s.insert(l); ++n; }
    while (std::getline(b, l)) { s.insert(l); ++n; }
    pbt::require(n == 6, "no identifiers from a fresh process");
    pbt::require_eq(s.size(), n, "distinct identifiers of two processes");
    return;
  }
  std::ostringstream base;
  switch (g.below(7))
  {
  case 0: base << std::hex << std::showbase; break;
  case 1: base << std::oct << std::nouppercase; break;
  case 2: base << std::setfill('*') << std::left; break;
  case 3: base << std::setw(int(g.below(36))); break;
  case 4: base << std::uppercase << std::showpos << std::internal << std::setfill(' '); break;
  case 5: base << std::dec << std::setfill('0') << std::right << std::setprecision(1) << std::fixed; break;
  default: break;
  }
  const size_t n = g.range(2, 8);
  std::map<std::string, std::pair<uint64_t, uint64_t>> seen;
  for (size_t i = 0; i < n; ++i)
  {
    const int how = int(g.below(4));
    if (how == 0) { u.uuid[0] = g.u64(); u.uuid[1] = g.u64(); }
    else if (how == 1) { u.uuid[g.below(2)] ^= uint64_t(1) << g.below(64); }
    else if (how == 2) { u.uuid[0] = g.below(300); u.uuid[1] = g.below(300); }
    else u = pwned::UUID();
    got = print(g, base, u);
    pbt::require_eq(got, expected(u), "printed identifier");
    const std::pair<uint64_t, uint64_t> v{u.uuid[0], u.uuid[1]};
    auto it = seen.emplace(got, v);
    pbt::require(it.second || it.first->second == v, "different identifiers print alike");
  }
  std::set<std::string> fr; const size_t m = g.range(2, 40);
  for (size_t i = 0; i < m; ++i) { pwned::UUID x; u = x; got = print(g, base, x); fr.insert(got); }
  pbt::require_eq(fr.size(), m, "distinct fresh identifiers");
  pwned::UUID a, b; pbt::require(!(a == b), "two fresh identifiers are equal"); pwned::UUID d(a); pbt::require(d == a, "a copy differs");
  c.nontrivial = true;
}
const pbt::Target pbt::target = {"C24",
  "case = identifiers (boundary values, one bit flipped, small, fresh) printed to streams in seven formatting states, plus 2..40 fresh ones, 1 in 2000 those of two fresh processes; non-trivial = all but the latter",
  run, 240000, 3000000, 30, false, 8, child};
