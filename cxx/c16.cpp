// C16: request targets yield exactly their path, query parameters and fragment.
#include "pbt.hpp"
#include <pwned-server/uri.hpp>

static std::string text(pbt::Gen &g, size_t min, size_t max, const std::string &without)
{
  std::string s; const size_t n = min + g.size(max - min); const int mode = int(g.below(3));
  for (size_t i = 0; i < n; ++i)
  {
    char ch = mode == 0 ? char('a' + g.below(26)) : mode == 1 ? "abc/?:@;,%20+-._~&=#"[g.below(20)] : char(1 + g.below(255));
    if (without.find(ch) != std::string::npos) ch = 'x';
    s += ch;
  }
  return s;
}
static void run(pbt::Gen &g, pbt::Ctx &c)
{
  const bool hasQuery = g.chance(3, 4), hasFrag = g.chance(1, 2);
  const std::string path = (g.chance(5, 6) ? "/" : "") + text(g, 0, 40, "?#");
  std::vector<std::pair<std::string, std::string>> params; std::string q; size_t malformed = 0, n = hasQuery ? g.chance(1, 12) ? g.range(8, 80) : g.range(0, 7) : 0;
  std::vector<std::string> ignored;
  for (size_t i = 0; i < n; ++i)
  {
    if (i) q += '&';
    if (g.chance(1, 4))
    {
      ++malformed;
      switch (g.below(3))
      {
      case 0: break;                                                                   // nothing between two '&'
      case 1: { std::string k = text(g, 1, 10, "&=#"); ignored.push_back(k); q += k; break; }          // no '='
      default: { std::string k = text(g, 1, 6, "&=#"), v = text(g, 0, 6, "&=#"), w = text(g, 0, 6, "&=#"); ignored.push_back(k); q += k + "=" + v + "=" + w; break; }
      }
      continue;
    }
    const std::string k = !params.empty() && g.chance(1, 6) ? params[g.below(params.size())].first : g.chance(1, 4) ? "hash" : text(g, 1, 10, "&=#");
    const std::string v = text(g, g.chance(1, 8) ? 0 : 1, g.chance(1, 10) ? 300 : 40, "&=#");
    params.emplace_back(k, v); q += k + "=" + v;
  }
  const std::string frag = hasFrag ? text(g, 0, 20, "#") : "";
  std::string target = path + (hasQuery ? "?" + q : "") + (hasFrag ? "#" + frag : "");
  if (g.chance(1, 5))
  {
    target = g.chance(1, 2) ? g.bytes(g.chance(1, 10) ? 5000 : 100) : text(g, 0, 100, "");
    pbt::Describe description(c, [&] { return "arbitrary target " + pbt::show(target, 1000); });
    URI u; u.parseTarget(target);
    const size_t p = target.find_first_of("?#");
    pbt::require_eq(u.path(), target.substr(0, p), "path");
    for (auto &kv : u.query()) pbt::require(target.find(kv.first + "=" + kv.second) != std::string::npos, "parameter " + pbt::show(kv.first) + " is not in the target");
    c.label("arbitrary target");
    return;
  }
  pbt::Describe description(c, [&] { return pbt::show(target, 1500); });
  URI u;
  u.parseTarget(target);
  pbt::require_eq(u.path(), path, "path");
  pbt::require_eq(u.fragment(), frag, "fragment");
  const auto &got = u.query();
  for (auto &kv : got)
  {
    bool ok = kv.first.empty();
    for (auto &p : params) if (p == std::pair<std::string, std::string>(kv.first, kv.second)) ok = true;
    pbt::require(ok, "parameter " + pbt::show(kv.first) + " = " + pbt::show(kv.second) + " is not in the target");
  }
  for (auto &p : params) pbt::require(p.second.empty() || got.count(p.first), "parameter " + pbt::show(p.first) + " is missing");
  if (malformed) c.label("parameters that are no key=value");
  if (hasFrag && !hasQuery) c.label("fragment without query");
  if (hasFrag && frag.find('?') != std::string::npos) c.label("'?' in the fragment");
  bool special = false; for (auto &p : params) if (p.first.find_first_of("?/") != std::string::npos || p.second.find_first_of("?/") != std::string::npos) special = true;
  if (special) c.label("'?' or '/' in a parameter");
  if (!hasQuery && !hasFrag) c.label("path only");
  c.nontrivial = params.size() >= 2 || (!params.empty() && (malformed || hasFrag));
}
const pbt::Target pbt::target = {"C16",
  "case = path, up to 80 key=value pairs mixed with malformed parameters, fragment (all bytes but the delimiters), or arbitrary text; non-trivial = at least two parameters, or one with a malformed one or a fragment",
  run, 1500000, 20000000, 20};
