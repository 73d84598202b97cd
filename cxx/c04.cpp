// C04/C03 under all thread schedules: conversion output never replaces other data and never collides.
#include "converter_common.hpp"

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  const std::string base = c.scratch + "/v", in = base + "/in", out = base + "/out";
  cli::removeTree(base); cli::mkdirs(base); cli::mkdirs(in); cli::mkdirs(out);
  std::vector<std::string> names; std::map<std::string, std::string> contents; std::map<std::string, uint64_t> want; std::ostringstream d;
  const size_t dirs = g.range(1, 3);
  for (size_t k = 0; k < dirs; ++k)
  {
    const std::string sub = in + "/d" + std::to_string(k); cli::mkdirs(sub);
    const size_t n = g.range(1, 3);
    for (size_t f = 0; f < n; ++f)
    {
      const std::string name = sub + "/" + g.pick(std::vector<std::string>{"a", "b", "a-0001", "a.b", "a"}) + ".txt";
      if (contents.count(name)) continue;
      std::string s; const size_t m = g.below(9);
      for (size_t i = 0; i < m; ++i) { const std::string p = std::string(1, char('a' + g.below(6))) + (g.chance(1, 4) ? "x" : ""); s += "u:" + p + "\n"; }
      names.push_back(name); contents[name] = s; cli::write(name, s); d << " " << name.substr(in.size() + 1) << "(" << m << ")";
    }
  }
  const bool scan = g.chance(1, 3);
  std::vector<std::string> args;
  if (scan) { args.push_back("-S"); args.push_back(in); }
  else for (auto &x : names) { args.push_back("-I"); args.push_back(x); }
  const std::string threads = g.pick(std::vector<std::string>{"4", "20000", "8000"});
  for (std::string a : {std::string("--ram"), std::string("1"), std::string("-T"), threads, std::string("-D"), out}) args.push_back(a);
  std::map<std::string, std::string> before;
  const size_t pre = g.below(5);
  for (size_t k = 0; k < pre; ++k)
  {
    const std::string n = g.pick(std::vector<std::string>{"a-0001.md5", "a-0001-0001.md5", "a-0002.md5", "b-0001.md5", "a-0001-0002.md5", "a-0002-0002.md5", "other.md5", "a.b-0001.md5"});
    before[n] = g.chance(1, 4) ? "" : "kept " + std::to_string(k); cli::write(out + "/" + n, before[n]);
  }
  if (g.chance(1, 40))                               // a crowded directory: many results of the same base name
  {
    const size_t crowd = g.range(1, 700);
    for (size_t k = 1; k <= crowd; ++k)
    {
      char n[32]; snprintf(n, sizeof n, "a-0001-%04zx.md5", k);
      before[n] = std::to_string(k); cli::write(out + "/" + n, before[n]);
    }
    if (!before.count("a-0001.md5")) { before["a-0001.md5"] = "kept"; cli::write(out + "/a-0001.md5", "kept"); }
    c.label("crowded destination");
  }
  const size_t runs = g.range(1, 2); const uint64_t firstSeed = g.raw64();
  const std::string shown = "inputs" + d.str() + ", " + threads + " threads for 1 MB, " + std::to_string(before.size()) + " files already there, " + std::to_string(runs) + " runs" + (scan ? ", from a directory" : "");
  pbt::Describe description(c, [&] { return shown; });
  for (auto &x : contents) for (auto &l : rd::lines(x.second)) if (!l.empty()) ++want[hashOf(l.substr(2))];
  int rc = 0;
  for (size_t r = 1; r <= runs; ++r)
  {
    if (r < runs) { pbt::Gen first; first.seedFrom(firstSeed); cli::run(first, base, args, {}, rc); }
    else cli::run(g, base, args, {}, rc);
    pbt::require_eq(rc, 0, "exit status");
    for (auto &x : contents) { std::ifstream f(x.first, std::ios::binary); std::ostringstream s; s << f.rdbuf(); if (s.str() != x.second) pbt::fail("input " + x.first + " was changed"); }
    auto after = cli::files(out);
    for (auto &x : before)
    {
      if (!after.count(x.first)) pbt::fail("file " + x.first + " that was there before is gone");
      if (after[x.first] != x.second) pbt::fail("file " + x.first + " that was there before was changed");
    }
    auto fresh = after; for (auto &x : before) fresh.erase(x.first);
    if (counts(fresh) != want) pbt::fail("run " + std::to_string(r) + ": the counts in the new files differ from those of the inputs (results lost or overwritten)");
    before = after;
  }
  std::map<std::string, int> stems; for (auto &x : names) ++stems[x.substr(x.rfind('/'))];
  bool shared = false; for (auto &x : stems) if (x.second > 1) shared = true;
  if (shared) c.label("same base name");
  if (pre) c.label("files already there");
  if (runs > 1) c.label("repeated run");
  c.nontrivial = (shared || pre || runs > 1) && !want.empty();
  cli::removeTree(base);
}
const pbt::Target pbt::target = {"C04",
  "converter as a whole program, every thread switch decided by the tape: case = 1..9 small text files in 1..3 directories with often equal base names, memory for 1..many lines, files already in the destination, one or two runs; non-trivial = equal base names, files already there or a repeated run, with at least one password",
  run, 7000, 120000, 60};
