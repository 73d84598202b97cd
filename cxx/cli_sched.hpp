// Runs a whole program (its main renamed) under the scheduler, in a process of its own, with scripted keys.
#pragma once
#include "sched.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// main of the program, compiled with -Dmain=program_main, in either of its usual forms
extern "C" int mainConst(int, const char **) asm("_Z12program_mainiPPKc") __attribute__((weak));
extern "C" int mainPlain(int, const char **) asm("_Z12program_mainiPPc") __attribute__((weak));

namespace cli {
typedef std::vector<std::pair<uint64_t, int>> Keys;

inline void mkdirs(const std::string &d) { mkdir(d.c_str(), 0700); }
inline void removeTree(const std::string &d)
{
  if (DIR *p = opendir(d.c_str()))
  {
    while (dirent *e = readdir(p))
    {
      const std::string n = e->d_name; if (n == "." || n == "..") continue;
      const std::string f = d + "/" + n; struct stat st;
      if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeTree(f); else unlink(f.c_str());
    }
    closedir(p); rmdir(d.c_str());
  }
}
inline std::map<std::string, std::string> files(const std::string &d)
{
  std::map<std::string, std::string> r;
  if (DIR *p = opendir(d.c_str()))
  {
    while (dirent *e = readdir(p))
    {
      const std::string n = e->d_name; if (n == "." || n == "..") continue;
      std::ifstream f(d + "/" + n, std::ios::binary); std::ostringstream s; s << f.rdbuf(); r[n] = s.str();
    }
    closedir(p);
  }
  return r;
}
inline void write(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }

static std::string dieFile;
inline void reportDeath(const std::string &m) { write(dieFile, m); _exit(43); }

// returns how many keys were read
inline size_t run(pbt::Gen &g, const std::string &scratch, const std::vector<std::string> &args, const Keys &keys, int &rc)
{
  dieFile = scratch + "/died"; unlink(dieFile.c_str());
  const std::string countFile = scratch + "/keys"; unlink(countFile.c_str());
  const pid_t pid = fork();
  if (pid == 0)
  {
    const int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1);
    sched::onDie = reportDeath;
    std::vector<const char *> argv{"program"}; for (auto &a : args) argv.push_back(a.c_str());
    argv.push_back(nullptr);
    sched::begin(g);
    sched::script(keys);
    int r;
    try { r = (mainConst ? mainConst : mainPlain)(int(argv.size()) - 1, argv.data()); }
    catch (const std::exception &e) { sched::Quiet q; reportDeath(std::string("the program ends with an exception: ") + e.what()); }
    sched::Quiet q;
    write(countFile, std::to_string(sched::keysRead()));
    _exit(r & 0xff);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  if (WIFSIGNALED(st)) pbt::fail(std::string("the program is killed by signal ") + strsignal(WTERMSIG(st)));
  if (WEXITSTATUS(st) == 43) { std::ifstream f(dieFile); std::ostringstream s; s << f.rdbuf(); if (!s.str().empty()) pbt::fail(s.str()); }
  rc = WEXITSTATUS(st);
  std::ifstream f(countFile); size_t k = 0; f >> k;
  return k;
}
// pause/resume keys at random moments, possibly ending with 'q'; a paused program is always resumed later
inline Keys script(pbt::Gen &g, char toggle, bool quit, std::string &text)
{
  Keys k; std::ostringstream d;
  const size_t n = g.range(quit ? 0 : 1, 5);
  auto gap = [&]() -> uint64_t { static const uint64_t S[] = {8, 40, 200, 1000, 5000}; return g.below(S[g.below(5)]); };
  for (size_t i = 0; i < n; ++i) { const char c = g.chance(1, 8) ? 'x' : toggle; k.push_back({gap(), c}); d << " " << (c == ' ' ? "space" : std::string(1, c)) << "+" << k.back().first; }
  if (quit) { k.push_back({gap(), 'q'}); d << " q+" << k.back().first; }
  else for (int i = 0; i < 200; ++i) k.push_back({300 + 10 * uint64_t(i), toggle});
  text = d.str();
  return k;
}
} // namespace cli
