// C09: $HEX[] and MD5 entries are evaluated when, and only when, asked.
#include "reader_common.hpp"
#include <pwned-lib/userpasswordreader.hpp>
using namespace rd;

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  std::string text = content(g, true, false);
  const bool fh = g.chance(1, 3), fm = g.chance(1, 3), ah = g.chance(1, 2), am = g.chance(1, 2);
  std::vector<pwned::UserPasswordReaderOptions> opts;
  if (fh) opts.push_back(pwned::forceEvaluateHexEncodedPasswords);
  if (am) opts.push_back(pwned::autoEvaluateMD5Hashes);
  if (fm) opts.push_back(pwned::forceEvaluateMD5Hashes);
  if (ah) opts.push_back(pwned::autoEvaluateHexEncodedPasswords);
  for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[g.below(i)]);
  const std::vector<std::string> ls = lines(text);
  const std::string cand = candidates(ls);
  pbt::Describe description(c, [&] { return std::string(fh ? "forced-hex " : "") + (fm ? "forced-md5 " : "") + (ah ? "auto-hex " : "") + (am ? "auto-md5 " : "") + std::to_string(ls.size()) + " lines " + pbt::show(text, 600); });
  std::istringstream in(text);
  pwned::UserPasswordReader r(in, opts);
  std::vector<std::string> got; size_t calls = 0;
  while (!r.eof())
  {
    pbt::require(++calls <= ls.size() + 2, "end of file is not reported");
    const pwned::Hash h = r.nextPasswordHash();
    if (h.isValid) { std::string t; for (int k = 0; k < 16; ++k) t += char((k < 8 ? h.quad.upper : h.quad.lower) >> (8 * (7 - k % 8))); got.push_back(t); }
  }
  bool ok = false, ambiguous = false; std::string why; bool decoded = false, malformed = false, detected = false;
  for (char sep : cand.empty() ? std::string(1, '?') : cand)
  {
    bool mustHex = false, mayHex = false, mustMd5 = false, mayMd5 = false;
    for (size_t i = 0; i < ls.size() && i < 500; ++i)
    {
      const std::string l = noCR(ls[i]);
      if (cand.empty() || l.find(sep) == std::string::npos || ls[i].size() > 200) continue;
      const std::string p = passwordOf(ls[i], sep, true);
      std::string bare = ls[i]; while (!bare.empty() && bare.back() == '\r') bare.pop_back();      // carriage returns at the end of the line are no obstacle
      const bool inside = bare.find('\r') != std::string::npos;
      if (hexEntry(p) && !inside) mustHex = true;
      if (md5Entry(p) && !inside) mustMd5 = true;
      if (looksHex(l) || looksHex(ls[i])) mayHex = true;
      if (looksMd5(l) || looksMd5(ls[i])) mayMd5 = true;
    }
    if (ah && mustHex) detected = true;
    if (am && mustMd5) detected = true;
    for (int eh = 0; eh < 2; ++eh)
      for (int em = 0; em < 2; ++em)
      {
        if (eh && !fh && !(ah && mayHex)) continue;
        if (!eh && (fh || (ah && mustHex))) continue;
        if (em && !fm && !(am && mayMd5)) continue;
        if (!em && (fm || (am && mustMd5))) continue;
        std::vector<std::string> want;
        for (auto &l : ls)
        {
          const std::string p = passwordOf(l, sep, !cand.empty());
          if (p.empty()) continue;
          std::string plain;
          if (em && md5Entry(p)) { want.push_back(unhex(p)); decoded = true; }
          else if (eh && hexEntry(p, &plain)) { want.push_back(md5(plain)); decoded = true; }
          else { want.push_back(md5(p)); if (p.find("$HEX[") != std::string::npos || p.size() == 32) malformed = true; }
        }
        if (ok) { ambiguous = true; continue; }
        if (want == got) { ok = true; continue; }
        size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
        size_t k = 0, n = 0; while (n < ls.size()) { if (!passwordOf(ls[n], sep, !cand.empty()).empty()) { if (k == i) break; ++k; } ++n; }
        why += "; expected with hex " + std::string(eh ? "on" : "off") + ", md5 " + (em ? "on" : "off") + ", separator " + pbt::show(std::string(1, sep)) + ": entry " + std::to_string(i) +
               (n < ls.size() ? " (line " + std::to_string(n + 1) + " " + pbt::show(ls[n]) + ")" : "") + " differs";
      }
  }
  if (!ok) pbt::fail("hashes differ" + why);
  if (fh || fm) c.label("forced");
  if (ah || am) c.label("automatic");
  if (!fh && !fm && !ah && !am) c.label("no modes");
  if (detected) c.label("automatic detection must switch on");
  if (ambiguous) c.label("several readings possible");
  if (decoded) c.label("encoded entries decoded");
  if (malformed) c.label("malformed or unevaluated encodings");
  if (ls.size() > 500) c.label("more than 500 lines");
  c.nontrivial = got.size() >= 2 && (decoded || malformed);
}
const pbt::Target pbt::target = {"C09",
  "case = a generated leak file with well-formed and slightly malformed $HEX[] and MD5 entries, and any subset of the four modes; non-trivial = at least two passwords, one of them an encoding or almost one",
  run, 40000, 600000, 30};
