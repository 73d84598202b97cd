// Linked into the programs for C35: accesses to files whose path begins with VFAULT_PATH fail or are odd, according to VFAULT_MODE.
//   read, write  fail (EIO, ENOSPC) from byte VFAULT_AT on; with VFAULT_ONCE only the first time
//   open         opening fails (EACCES)
//   short        reads return fewer bytes than asked for, or are interrupted
//   kill         the process is killed at the VFAULT_AT-th change of a file or directory (counting from 0); of a write, VFAULT_TORN per mille are still done
//   pause        the process stops itself before each of the changes VFAULT_AT ("3,7,20") of a file or directory
//   count        the number of changes is written to VFAULT_MARK at the end
// A file VFAULT_MARK is made when a fault has been injected.
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <atomic>

static const char *mode() { static const char *m = [] { const char *e = getenv("VFAULT_MODE"); return e ? e : ""; }(); return m; }
static const char *prefix() { static const char *p = getenv("VFAULT_PATH"); return p; }
static int64_t at() { static const int64_t a = [] { const char *e = getenv("VFAULT_AT"); return e ? atoll(e) : 0LL; }(); return a; }
static bool once() { static const bool o = getenv("VFAULT_ONCE") != nullptr; return o; }
static std::atomic<int> hits{0};

static bool is(const char *m) { return strcmp(mode(), m) == 0; }
static bool matches(const char *path) { return prefix() && path && strncmp(path, prefix(), strlen(prefix())) == 0; }
static bool matches(int fd)
{
  if (!prefix()) return false;
  char link[64], path[PATH_MAX];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  const ssize_t n = syscall(SYS_readlink, link, path, sizeof path - 1);
  if (n <= 0) return false;
  path[n] = 0;
  return matches(path);
}
static bool hit()
{
  if (hits++ && once()) return false;
  if (const char *m = getenv("VFAULT_MARK"))
  {
    const int fd = int(syscall(SYS_openat, AT_FDCWD, m, O_CREAT | O_WRONLY, 0600));
    if (fd >= 0) syscall(SYS_close, fd);
  }
  return true;
}
// a change of the file system, of which a write of n bytes is about to be made; returns how many of them are
static std::atomic<int64_t> changes{0};
static size_t change(bool concerned, size_t n, bool *kill)
{
  *kill = false;
  if (!concerned || (!is("kill") && !is("count") && !is("pause"))) return n;
  const int64_t k = changes++;
  if (is("pause"))
  {
    for (const char *p = getenv("VFAULT_AT"); p && *p; ++p)
    {
      char *e; const long long x = strtoll(p, &e, 10);
      if (x == k) { raise(SIGSTOP); break; }
      p = e; if (!*p) break;
    }
    return n;
  }
  if (!is("kill") || k != at()) return n;
  *kill = true;
  const char *t = getenv("VFAULT_TORN");
  return n * size_t(t ? atoll(t) : 0) / 1000;
}
static void die()
{
  hit();
  raise(SIGKILL);
}
__attribute__((destructor)) static void report()
{
  if (!is("count")) return;
  if (const char *m = getenv("VFAULT_MARK"))
  {
    const int fd = int(syscall(SYS_openat, AT_FDCWD, m, O_CREAT | O_WRONLY | O_TRUNC, 0600));
    char b[32];
    const int n = snprintf(b, sizeof b, "%lld", (long long)changes);
    if (fd >= 0) { syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); }
  }
}
// bytes that may be transferred now, or -1 for failure
static ssize_t allowed(int fd, size_t n, const char *m)
{
  if (!is(m) || !n || !matches(fd)) return ssize_t(n);
  const int64_t pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
  if (pos < 0 || pos + int64_t(n) <= at()) return ssize_t(n);
  if (pos >= at()) return hit() ? -1 : ssize_t(n);
  return ssize_t(at() - pos);
}

extern "C" ssize_t read(int fd, void *p, size_t n)
{
  ssize_t k = allowed(fd, n, "read");
  if (k < 0) { errno = EIO; return -1; }
  if (is("short") && n > 1 && matches(fd))
  {
    static std::atomic<uint32_t> x{1};
    const uint32_t r = (x += 2654435761u) >> 7;
    if (r % 5 == 0) { hit(); errno = EINTR; return -1; }
    if (r % 2) { hit(); k = ssize_t(1 + r % 1500 % n); }
  }
  return syscall(SYS_read, fd, p, size_t(k));
}
extern "C" ssize_t write(int fd, const void *p, size_t n)
{
  const ssize_t k = allowed(fd, n, "write");
  if (k < 0) { errno = ENOSPC; return -1; }
  bool kill;
  const size_t c = change((is("kill") || is("count") || is("pause")) && matches(fd), size_t(k), &kill);
  const ssize_t r = c || !kill ? syscall(SYS_write, fd, p, c) : 0;
  if (kill) die();
  return r;
}
extern "C" ssize_t writev(int fd, const iovec *v, int c)
{
  size_t n = 0;
  for (int i = 0; i < c; ++i) n += v[i].iov_len;
  const ssize_t k = allowed(fd, n, "write");
  if (k < 0) { errno = ENOSPC; return -1; }
  bool kill;
  const size_t d = change((is("kill") || is("count") || is("pause")) && matches(fd), n, &kill);
  if (kill)
  {
    size_t left = d;
    for (int i = 0; i < c && left; ++i)
    {
      const size_t part = v[i].iov_len < left ? v[i].iov_len : left;
      syscall(SYS_write, fd, v[i].iov_base, part);
      left -= part;
    }
    die();
  }
  if (size_t(k) == n) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; ++i)
    if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len < size_t(k) ? v[i].iov_len : size_t(k));
  return 0;
}
typedef FILE *(*open_t)(const char *, const char *);
static void step(const char *path)
{
  bool kill;
  change((is("kill") || is("count") || is("pause")) && matches(path), 0, &kill);
  if (kill) die();
}
static void opening(const char *path, const char *m)
{
  if (strpbrk(m, "wa+")) step(path);
}
extern "C" int unlink(const char *p) { step(p); return int(syscall(SYS_unlink, p)); }
extern "C" int unlinkat(int d, const char *p, int f) { step(p); return int(syscall(SYS_unlinkat, d, p, f)); }
extern "C" int rmdir(const char *p) { step(p); return int(syscall(SYS_rmdir, p)); }
extern "C" int mkdir(const char *p, mode_t m) { step(p); return int(syscall(SYS_mkdir, p, m)); }
extern "C" int rename(const char *a, const char *b) { step(b); return int(syscall(SYS_rename, a, b)); }
extern "C" int truncate(const char *p, off_t n) { step(p); return int(syscall(SYS_truncate, p, n)); }
extern "C" int remove(const char *p) { step(p); const int r = int(syscall(SYS_unlink, p)); return r && errno == EISDIR ? int(syscall(SYS_rmdir, p)) : r; }
extern "C" FILE *fopen(const char *path, const char *m)
{
  if (is("open") && matches(path) && hit()) { errno = EACCES; return nullptr; }
  opening(path, m);
  static const open_t real = open_t(dlsym(RTLD_NEXT, "fopen"));
  return real(path, m);
}
extern "C" FILE *fopen64(const char *path, const char *m)
{
  if (is("open") && matches(path) && hit()) { errno = EACCES; return nullptr; }
  opening(path, m);
  static const open_t real = open_t(dlsym(RTLD_NEXT, "fopen64"));
  return real(path, m);
}
