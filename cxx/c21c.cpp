// C21 (converter): pausing and cancelling the converter at any moment.
#include "converter_common.hpp"

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  const std::string base = c.scratch + "/c", in = base + "/in", out = base + "/out", out2 = base + "/out2";
  cli::removeTree(base); cli::mkdirs(base); cli::mkdirs(in); cli::mkdirs(out); cli::mkdirs(out2);
  const size_t nFiles = g.range(1, 5); std::map<std::string, std::string> inputs; std::map<std::string, uint64_t> want; std::ostringstream d;
  std::vector<std::string> args;
  const bool scan = g.chance(1, 3);
  for (size_t f = 0; f < nFiles; ++f)
  {
    std::string s; const size_t n = g.below(14);
    for (size_t i = 0; i < n; ++i) { const std::string p = std::string(1, char('a' + g.below(6))) + (g.chance(1, 4) ? "x" : ""); s += "u:" + p + "\n"; ++want[hashOf(p)]; }
    inputs["f" + std::to_string(f) + ".txt"] = s; cli::write(in + "/f" + std::to_string(f) + ".txt", s); d << (f ? "," : "") << n;
  }
  if (scan) { args.push_back("-S"); args.push_back(in); } else for (auto &x : inputs) { args.push_back("-I"); args.push_back(in + "/" + x.first); }
  const bool quit = g.chance(1, 2);
  const std::string threads = g.pick(std::vector<std::string>{"4", "20000", "8000", "3000"});
  args.push_back("--ram"); args.push_back("1"); args.push_back("-T"); args.push_back(threads); args.push_back("-D");
  std::string text; cli::Keys keys = cli::script(g, ' ', quit, text);
  const std::string shown = "files of " + d.str() + " lines, " + threads + " threads for 1 MB" + (scan ? ", from a directory" : "") + "; keys" + text;
  pbt::Describe description(c, [&] { return shown; });
  int rc = 0; size_t read = 0; std::map<std::string, std::string> got, full;
  std::vector<std::string> a = args; a.push_back(out);
  if (quit)
  {                                         // first an undisturbed run, with no switches taken from the tape
    std::vector<std::string> b = args; b.push_back(out2);
    pbt::Gen plain; plain.replay(nullptr, 0);
    cli::run(plain, base, b, {}, rc);
    pbt::require_eq(rc, 0, "exit status of the undisturbed run"); full = cli::files(out2);
  }
  read = cli::run(g, base, a, keys, rc);
  pbt::require_eq(rc, 0, "exit status");
  got = cli::files(out);
  if (cli::files(in) != inputs) pbt::fail("an input file was changed");
  auto sum = counts(got);
  if (!(quit && read == keys.size()))
  {
    if (sum != want) pbt::fail("the counts differ from those of the input after pausing and resuming");
    c.label("undisturbed or resumed");
  }
  else
  {
    std::multiset<std::string> all; for (auto &x : full) all.insert(x.second);
    for (auto &x : got)
    {
      auto i = all.find(x.second);
      if (i == all.end()) pbt::fail("a cancelled conversion left file " + x.first + " (" + std::to_string(x.second.size()) + " bytes), which a complete one does not write");
      all.erase(i);
    }
    c.label(got.empty() ? "cancelled, nothing written" : all.empty() ? "cancelled, all written" : "cancelled, some files written");
  }
  c.nontrivial = read > 0;
  cli::removeTree(base);
}
const pbt::Target pbt::target = {"C21",
  "converter as a whole program: case = 1..5 text files of up to 13 lines, memory for 1..many lines, keys space, other, q at moments and under thread switches decided by the tape; non-trivial = the program read a key while it ran",
  run, 5000, 100000, 60};
