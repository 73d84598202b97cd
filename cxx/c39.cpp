// C39: memory sizes are those the system reports.
// Whatever the code opens as /proc/meminfo is a generated file instead.
#include "pbt.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <pwned-lib/util.hpp>

static std::string substitute;
static const char *other(const char *p) { return !substitute.empty() && p && strcmp(p, "/proc/meminfo") == 0 ? substitute.c_str() : p; }
typedef FILE *(*fopen_t)(const char *, const char *);
extern "C" FILE *fopen(const char *p, const char *m) { static const fopen_t real = fopen_t(dlsym(RTLD_NEXT, "fopen")); return real(other(p), m); }
extern "C" FILE *fopen64(const char *p, const char *m) { static const fopen_t real = fopen_t(dlsym(RTLD_NEXT, "fopen64")); return real(other(p), m); }
extern "C" int open(const char *p, int f, ...) { va_list a; va_start(a, f); const int m = f & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); return int(syscall(SYS_openat, AT_FDCWD, other(p), f, m)); }
extern "C" int open64(const char *p, int f, ...) { va_list a; va_start(a, f); const int m = f & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); return int(syscall(SYS_openat, AT_FDCWD, other(p), f | O_LARGEFILE, m)); }

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  std::string text;
  pbt::Describe description(c, [&] { return "meminfo " + pbt::show(text); });
  static const char *const units[] = {"kB", "kB", "kB", "MB", "GB", "B"};
  static const uint64_t factor[] = {1024, 1024, 1024, 1024 * 1024, 1024ULL * 1024 * 1024, 1};
  static const char *const others[] = {"MemFree", "Buffers", "Cached", "SwapCached", "Active", "Inactive", "Active(anon)", "SwapTotal", "SwapFree", "Shmem", "HugePages_Total", "Hugepagesize", "VmallocChunk", "CommitLimit", "Committed_AS", "Slab", "DirectMap4k", "Percpu"};
  struct Field { const char *name; bool there; uint64_t value; };
  Field f[] = {{"MemTotal", true, 0}, {"MemAvailable", !g.chance(1, 8), 0}, {"VmallocTotal", !g.chance(1, 8), 0}, {"VmallocUsed", !g.chance(1, 8), 0}};
  if (!f[2].there) f[3].there = false;                     // used of nothing
  std::vector<std::string> lines;
  const auto line = [&](const std::string &name, uint64_t n, const char *unit) {
    std::string num = std::to_string(n), l = name + ":";
    const size_t pad = g.chance(1, 4) ? 1 + g.below(3) : name.size() + num.size() < 23 ? 24 - name.size() - num.size() : 1;
    l += std::string(pad, g.chance(1, 10) ? '\t' : ' ') + num;
    if (*unit) l += std::string(" ") + unit;
    lines.push_back(l);
  };
  for (int k = 0; k < 4; ++k)
  {
    if (!f[k].there) continue;
    const size_t u = g.below(6);
    uint64_t limit = (~uint64_t(0) >> 1) / factor[u];
    if (k & 1) limit = std::min(limit, f[k - 1].value / factor[u]);   // available of total, used of total
    uint64_t n = g.u64() % (limit + 1);
    if (g.chance(1, 2)) n = std::min(limit, g.below(1 << 26));
    f[k].value = n * factor[u];
    line(f[k].name, n, units[u]);
  }
  for (uint64_t k = g.below(12); k; --k) { const char *n = others[g.below(sizeof others / sizeof *others)]; line(n, g.below(1 << 30), n[0] == 'H' && n[4] == 'P' ? "" : "kB"); }
  for (size_t k = lines.size(); k > 1; --k) std::swap(lines[k - 1], lines[g.below(k)]);
  for (const std::string &l : lines) text += l + "\n";
  if (!text.empty() && g.chance(1, 6)) text.pop_back();
  char name[64];
  snprintf(name, sizeof name, "/dev/shm/c39.%d", int(getpid()));
  const bool gone = g.chance(1, 20);
  if (!gone)
  {
    const int fd = int(syscall(SYS_openat, AT_FDCWD, name, O_CREAT | O_WRONLY | O_TRUNC, 0600));
    if (fd < 0 || write(fd, text.data(), text.size()) != ssize_t(text.size())) { close(fd); pbt::require(false, "cannot write the scratch file"); }
    close(fd);
  }
  substitute = gone ? "/nonexistent/meminfo" : name;
  alignas(pwned::MemoryStat) unsigned char where[sizeof(pwned::MemoryStat)];
  memset(where, 0x5a, sizeof where);                       // what has been there before
  pwned::MemoryStat &m = *new (where) pwned::MemoryStat;
  pwned::getMemoryStat(m);
  substitute.clear();
  unlink(name);
  if (gone) { c.label("nothing reported"); for (Field &x : f) x.value = 0; }
  pbt::require_eq(m.phys.total, f[0].value, "physical memory");
  pbt::require_eq(m.phys.avail, f[1].value, "available memory");
  pbt::require_eq(m.phys.used, f[0].value - f[1].value, "used memory");
  pbt::require_eq(m.virt.total, f[2].value, "virtual memory");
  pbt::require_eq(m.virt.used, f[3].value, "used virtual memory");
  pbt::require_eq(m.virt.avail, f[2].value - f[3].value, "available virtual memory");
  pbt::require_eq(m.phys.app, uint64_t(0), "memory of the program (unknown)");
  for (const Field &x : f) if (!x.there) c.label(std::string("no ") + x.name);
  c.nontrivial = !gone && lines.size() >= 4;
}
const pbt::Target pbt::target = {"C39",
  "case = contents of /proc/meminfo: the four fields that matter (some left out) with any value and unit, in any order among other fields, or no file at all; read into memory with earlier contents; non-trivial = at least four fields",
  run, 8000, 200000, 20};
