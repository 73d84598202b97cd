// C21 (merger): pausing and cancelling the merger at any moment.
#include "cli_sched.hpp"
#include "reader_common.hpp"

static std::string rec(const dbgen::Key &k, uint32_t c)
{
  std::string s;
  for (int i = 0; i < 8; ++i) s += char(k.first >> (8 * i));
  for (int i = 0; i < 8; ++i) s += char(k.second >> (8 * i));
  for (int i = 0; i < 4; ++i) s += char(c >> (8 * i));
  return s;
}
static void run(pbt::Gen &g, pbt::Ctx &c)
{
  const std::string base = c.scratch + "/m", in = base + "/in", tmp = base + "/tmp", out = base + "/out";
  cli::removeTree(base); cli::mkdirs(base); cli::mkdirs(in); cli::mkdirs(out);
  const size_t nFiles = g.range(1, 6);
  dbgen::Model sum; std::ostringstream d;
  std::map<std::string, std::string> inputs; std::vector<std::string> args;
  for (size_t f = 0; f < nFiles; ++f)
  {
    dbgen::Model m; const size_t n = g.below(10);
    for (size_t i = 0; i < n; ++i) m[{g.below(4) << 62, g.below(5)}] = uint32_t(1 + g.below(1000));
    std::string bytes; for (auto &x : m) { bytes += rec(x.first, x.second); sum[x.first] += x.second; }
    inputs["f" + std::to_string(f) + ".md5"] = bytes; d << (f ? "," : "") << m.size();
    cli::write(in + "/f" + std::to_string(f) + ".md5", bytes);
  }
  std::string expected; for (auto &x : sum) expected += rec(x.first, x.second);
  const bool scan = g.chance(1, 3), exists = g.chance(1, 4), quit = g.chance(1, 2);
  if (scan) { args.push_back("-S"); args.push_back(in); }
  else for (auto &x : inputs) { args.push_back("-I"); args.push_back(in + "/" + x.first); }
  const int atOnce = int(g.range(2, 4));
  for (std::string a : {std::string("-O"), out + "/all.md5", std::string("-T"), tmp, std::string("-n"), std::to_string(atOnce)}) args.push_back(a);
  std::string text; cli::Keys keys = cli::script(g, 'p', quit, text);
  const std::string old = "an older result\n";
  if (exists) { cli::write(out + "/all.md5", old); keys.insert(keys.begin(), {0, 'y'}); }
  const std::string shown = "files of " + d.str() + " records, " + std::to_string(atOnce) + " at once" + (scan ? ", from a directory" : "") + (exists ? ", destination exists" : "") + "; keys" + text;
  pbt::Describe description(c, [&] { return shown; });
  int rc = 0;
  const size_t read = cli::run(g, base, args, keys, rc);
  const bool quitRead = quit && read == keys.size();
  pbt::require_eq(rc, 0, "exit status");
  if (cli::files(in) != inputs) pbt::fail("an input file was changed");
  for (auto &x : cli::files(tmp)) pbt::fail("an intermediate file is left: " + x.first);
  auto o = cli::files(out);
  std::string got = o.count("all.md5") ? o["all.md5"] : "(none)";
  o.erase("all.md5"); if (!o.empty()) pbt::fail("unexpected file " + o.begin()->first);
  if (!quitRead)
  {
    if (got == "(none)" && sum.empty() && scan) got = "";      // nothing found in the directory
    if (!(scan && sum.empty() && got == old)) pbt::require_eq(pbt::show(got, 2000), pbt::show(expected, 2000), "merged file after pausing and resuming");
    c.label("undisturbed or resumed");
  }
  else
  {
    if (exists && got == old) c.label("cancelled before the last pass");
    else if (got == "(none)") c.label("cancelled before the last pass");
    else
    {
      if (expected.compare(0, got.size(), got) != 0 || got.size() % 20) pbt::fail("a cancelled merge left a file that is no beginning of the result: " + pbt::show(got, 2000) + " result: " + pbt::show(expected, 2000));
      c.label(got == expected ? "cancelled, complete" : "cancelled in the last pass");
    }
  }
  c.nontrivial = read > size_t(exists);
  cli::removeTree(base);
}
const pbt::Target pbt::target = {"C21",
  "merger as a whole program: case = 1..6 files of up to 10 records, files at once, keys p, other, q at moments and under thread switches decided by the tape; non-trivial = the program read a key while it ran",
  run, 8000, 150000, 60};
