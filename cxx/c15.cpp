// C15: absolute URIs are split into exactly their parts; other texts are reported invalid without failing.
#include "pbt.hpp"
#include <pwned-server/uri.hpp>

static const std::string Unres = "abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789-._~";
static const std::string Sub = "!$'()*+,;";
static std::string chars(pbt::Gen &g, size_t min, size_t max, const std::string &extra)
{
  const std::string a = Unres + extra; std::string s;
  size_t n = min + g.size(max - min);
  const bool plain = g.chance(1, 3);
  for (size_t i = 0; i < n; ++i)
    if (!plain && g.chance(1, 12)) { s += '%'; s += "0123456789ABCDEF"[g.below(16)]; s += "0123456789ABCDEF"[g.below(16)]; }
    else s += plain ? char('a' + g.below(26)) : a[g.below(a.size())];
  return s;
}
static void run(pbt::Gen &g, pbt::Ctx &c)
{
  const size_t big = c.thorough ? 400 : 120;
  std::string scheme = g.chance(1, 2) ? (g.chance(1, 2) ? "http" : "https") : "";
  if (scheme.empty()) { scheme += char('a' + g.below(26)); size_t n = g.below(8); for (size_t i = 0; i < n; ++i) scheme += "abcxyz0159+.-"[g.below(13)]; }
  const bool cred = g.chance(1, 2), hasPort = g.chance(1, 2), hasQuery = g.chance(2, 3), hasFrag = g.chance(1, 2);
  const std::string user = cred ? chars(g, 1, 20, Sub + "&=") : "", pass = cred ? chars(g, g.chance(1, 10) ? 0 : 1, 20, Sub + "&=") : "";
  const std::string host = chars(g, 1, 30, Sub + "&=");
  unsigned port = 0;
  if (hasPort) port = unsigned(g.chance(1, 4) ? g.pick(std::vector<unsigned>{0, 1, 80, 443, 8080, 9999, 32767, 32768, 65534, 65535}) : g.range(1, 65535));
  std::string path;
  if (g.chance(3, 4)) { size_t n = g.range(0, 4); path = "/"; for (size_t i = 0; i < n; ++i) path += chars(g, 0, big / 4, Sub + "&=:@") + (g.chance(1, 2) ? "/" : ""); }
  std::map<std::string, std::string> query; std::string q;
  if (hasQuery)
  {
    size_t n = g.chance(1, 10) ? g.range(6, 40) : g.range(1, 5);
    for (size_t i = 0; i < n; ++i)
    {
      std::string k = chars(g, 1, 8, Sub + ":/?@"), v = chars(g, g.chance(1, 8) ? 0 : 1, g.chance(1, 6) ? big : 20, Sub + ":/?@");
      if (query.count(k)) continue;
      query[k] = v; q += (q.empty() ? "" : "&") + k + "=" + v;
    }
  }
  const std::string frag = hasFrag ? chars(g, 1, 20, Sub + "&=:/?@") : "";
  std::string portText = std::to_string(port);
  if (hasPort && g.chance(1, 12)) portText.insert(0, g.range(1, 3), '0');
  std::string text = scheme + "://" + (cred ? user + ":" + pass + "@" : "") + host + (hasPort ? ":" + portText : "") + path + (hasQuery ? "?" + q : "") + (hasFrag ? "#" + frag : "");
  pbt::Describe description(c, [&] { return pbt::show(text, 1500); });
  const int kind = int(g.weighted({6, 2, 2, 1, 2}));
  if (kind == 0)
  {
    URI u(text);
    pbt::require(u.isValid(), "URI is reported invalid");
    pbt::require_eq(u.scheme(), scheme, "scheme");
    pbt::require_eq(u.username(), user, "user");
    pbt::require_eq(u.password(), pass, "password");
    pbt::require_eq(u.host(), host, "host");
    if (hasPort) pbt::require_eq(unsigned(u.port()), port, "port");
    else if (scheme == "http") pbt::require_eq(unsigned(u.port()), 80u, "default port");
    else if (scheme == "https") pbt::require_eq(unsigned(u.port()), 443u, "default port");
    pbt::require_eq(u.path(), path, "path");
    pbt::require_eq(u.query().size(), query.size(), "number of query parameters");
    for (auto &kv : query) { auto it = u.query().find(kv.first); pbt::require(it != u.query().end(), "query parameter " + pbt::show(kv.first) + " is missing"); pbt::require_eq(it->second, kv.second, "query parameter " + kv.first); }
    pbt::require_eq(u.fragment(), frag, "fragment");
    URI v; v.parse(text);
    pbt::require(v.isValid() && v.host() == host && v.query() == query, "parse() and the constructor differ");
    c.nontrivial = int(cred) + int(hasPort) + int(hasQuery) + int(hasFrag) + int(path.size() > 1) >= 2;
    c.label("valid");
    if (cred) c.label("credentials"); if (hasPort) c.label("port"); if (hasQuery) c.label("query"); if (hasFrag) c.label("fragment"); if (path.empty()) c.label("no path");
  }
  else if (kind == 1)                                         // an illegal character anywhere
  {
    const size_t at = g.below(text.size() + 1);
    if (at > 0 && text[at - 1] == '%') return;
    text.insert(at, 1, " <>\"\\^`{|}\n\t\x7f\x01\x80\xff"[g.below(16)]);
    URI u(text);
    pbt::require(!u.isValid(), "a text with an illegal character is reported as valid URI");
    c.nontrivial = true; c.label("illegal character");
  }
  else if (kind == 2)                                         // port beyond 65535
  {
    std::string p = g.chance(1, 2) ? std::to_string(g.pick(std::vector<uint64_t>{65536, 65537, 65616, 70000, 99999, 100000, 131072 + 80, 4294967296ULL, 4294967376ULL, 18446744073709551615ULL})) : "";
    if (p.empty()) { p = std::to_string(g.range(66, 99)); size_t n = g.range(3, 40); for (size_t i = 0; i < n; ++i) p += char('0' + g.below(10)); }
    text = scheme + "://" + (cred ? user + ":" + pass + "@" : "") + host + ":" + p + path + (hasQuery ? "?" + q : "") + (hasFrag ? "#" + frag : "");
    URI u(text);
    pbt::require(!u.isValid(), "port " + p + " is reported valid");
    c.nontrivial = true; c.label("port too large");
  }
  else if (kind == 3)                                         // no scheme
  {
    text.clear(); size_t n = g.size(60); for (size_t i = 0; i < n; ++i) text += (Unres + "/?#@&=")[g.below(Unres.size() + 6)];
    URI u(text);
    pbt::require(!u.isValid(), "a text without scheme is reported as valid URI");
    c.label("no scheme");
  }
  else                                                        // anything at all must not fail
  {
    switch (g.below(3))
    {
    case 0: text = g.bytes(200); break;
    case 1: { size_t n = g.range(1, 4); for (size_t i = 0; i < n; ++i) { size_t at = g.below(text.size() + 1); if (g.chance(1, 2)) text.insert(at, 1, ":/?#[]@&=%"[g.below(10)]); else if (at < text.size()) text.erase(at, 1 + g.below(5)); } break; }
    default: text.clear(); { size_t n = g.size(80); for (size_t i = 0; i < n; ++i) text += std::string("http://a:@?#&=%1")[g.below(16)]; }
    }
    URI u(text); (void)u.isValid(); u.query(); (void)u.port();
    c.label("arbitrary text");
  }
}
const pbt::Target pbt::target = {"C15",
  "case = a URI assembled from generated parts (all allowed characters, %XX, ports 0..65535, up to 40 parameters, optional parts), or one made invalid by an illegal character, a port above 65535 or a missing scheme, or arbitrary text; non-trivial = a valid URI with at least two optional parts, or an invalid one",
  run, 400000, 4000000, 30};
