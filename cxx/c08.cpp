// C08: each line of a leak file yields the right password.
#include "reader_common.hpp"
#include <pwned-lib/userpasswordreader.hpp>
using namespace rd;

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  const std::string text = content(g, false, true);
  const bool fromFile = g.chance(1, 4), hashes = g.chance(1, 3);
  const std::vector<std::string> ls = lines(text);
  const std::string cand = candidates(ls);
  pbt::Describe description(c, [&] { return std::to_string(ls.size()) + " lines, " + (hashes ? "hashes of " : "") + pbt::show(text, 600); });
  std::istringstream ss(text); std::ifstream fs;
  if (fromFile) { dbgen::writeFile(c.scratch + "/leak", text); fs.open(c.scratch + "/leak", std::ios::binary); }
  std::istream &in = fromFile ? static_cast<std::istream &>(fs) : ss;
  pwned::UserPasswordReader r(in, {});
  std::vector<std::string> got; size_t calls = 0;
  while (!r.eof())
  {
    pbt::require(!r.bad(), "reader turned bad");
    pbt::require(++calls <= ls.size() + 2, "end of file is not reported");
    if (hashes)
    {
      const pwned::Hash h = r.nextPasswordHash();
      if (h.isValid) { std::string t; for (int k = 0; k < 16; ++k) t += char((k < 8 ? h.quad.upper : h.quad.lower) >> (8 * (7 - k % 8))); got.push_back(t); }
    }
    else { const std::string p = r.nextPassword(); if (!p.empty()) got.push_back(p); }
  }
  const std::string tryAll = cand.empty() ? std::string(1, '?') : cand;
  bool ok = false; std::string why;
  for (char sep : tryAll)
  {
    std::vector<std::string> want;
    for (auto &l : ls) { const std::string p = passwordOf(l, sep, !cand.empty()); if (!p.empty()) want.push_back(hashes ? md5(p) : p); }
    if (want == got) { ok = true; 
      for (int k = 0; k < 2; ++k)     // single lines, too
      {
        const std::string &l = ls[g.below(ls.size())]; 
        if (l.size() <= 200 && !l.empty()) { const std::string p = passwordOf(l, sep, !cand.empty()); const std::string q = r.extractPassword(l); if (p != q) pbt::fail("line " + pbt::show(l) + " gives " + pbt::show(q) + ", expected " + pbt::show(p)); }
      }
      break; }
    size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
    why += "; separator " + pbt::show(std::string(1, sep)) + ": password no. " + std::to_string(i) + " is " + (i < got.size() ? pbt::show(got[i]) : "missing") +
           ", expected " + (i < want.size() ? pbt::show(want[i]) : "none");
  }
  if (!ok) pbt::fail("passwords differ" + why);
  if (ls.size() > 500) c.label("more than 500 lines");
  if (cand.size() > 1) c.label("tied separators");
  if (cand.empty()) c.label("no separator");
  bool longLine = false, cr = false, edge = false;
  for (auto &l : ls) { if (l.size() > 200) longLine = true; if (l.size() >= 199 && l.size() <= 202) edge = true; if (l.find('\r') != std::string::npos) cr = true; }
  if (longLine) c.label("line longer than 200");
  if (edge) c.label("line of 199..202");
  if (cr) c.label("carriage returns");
  if (text.find('\0') != std::string::npos) c.label("NUL bytes");
  if (!text.empty() && text.back() != '\n') c.label("no final newline");
  c.nontrivial = got.size() >= 2 && !cand.empty();
}
const pbt::Target pbt::target = {"C08",
  "case = a generated leak file (all four separators, several per line, ties, CRs, NULs, lines of 0/1/199..203/1500 bytes, separator change around line 500) read to its end; non-trivial = at least two passwords and one separator",
  run, 60000, 1000000, 30};
