// Linked into the server for C14: time that runs faster (VSHIM_WARP) and file accesses that take a moment (VSHIM_DELAY),
// so that timeouts and overlapping requests happen within a test's patience.
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <unistd.h>

static int64_t factor() { static const int64_t f = [] { const char *e = getenv("VSHIM_WARP"); int64_t v = e ? atoll(e) : 1; return v > 0 ? v : 1; }(); return f; }
static int64_t delay() { static const int64_t f = [] { const char *e = getenv("VSHIM_DELAY"); return e ? atoll(e) : 0; }(); return f; }
static int64_t raw(clockid_t c) { timespec t; syscall(SYS_clock_gettime, c, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
static int64_t origin() { static const int64_t o = raw(CLOCK_MONOTONIC); return o; }

extern "C" int clock_gettime(clockid_t c, timespec *t) noexcept
{
  if (c != CLOCK_MONOTONIC || factor() == 1)
    return int(syscall(SYS_clock_gettime, c, t));
  const int64_t o = origin(), n = o + (raw(c) - o) * factor();
  t->tv_sec = n / 1000000000LL; t->tv_nsec = n % 1000000000LL;
  return 0;
}

extern "C" int timerfd_settime(int fd, int flags, const itimerspec *v, itimerspec *old) noexcept
{
  itimerspec s = *v;
  if (factor() != 1 && !(flags & TFD_TIMER_ABSTIME))
  {
    const int64_t n = s.it_value.tv_sec * 1000000000LL + s.it_value.tv_nsec;
    const int64_t m = n / factor() + (n > 0 ? 1 : 0);
    s.it_value.tv_sec = m / 1000000000LL; s.it_value.tv_nsec = m % 1000000000LL;
  }
  return int(syscall(SYS_timerfd_settime, fd, flags, &s, old));
}

static void pauseFor(int fd)
{
  if (!delay())
    return;
  struct stat st;
  if (fstat(fd, &st) || !S_ISREG(st.st_mode))
    return;
  static std::atomic<uint32_t> x{1};
  const uint32_t r = (x += 2654435761u);
  timespec t{0, long((r >> 8) % uint32_t(delay()) * 1000)};
  syscall(SYS_nanosleep, &t, nullptr);
}

extern "C" ssize_t read(int fd, void *p, size_t n)
{
  pauseFor(fd);
  const ssize_t r = syscall(SYS_read, fd, p, n);
  return r;
}
extern "C" ssize_t readv(int fd, const iovec *v, int n)
{
  pauseFor(fd);
  return syscall(SYS_readv, fd, v, n);
}
