// Linked into a program, makes its steady clock run VSPEED times as fast, and its timers expire accordingly.
#include <cstdlib>
#include <ctime>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <unistd.h>
static const long long speed = [] { const char *e = getenv("VSPEED"); return e && atoll(e) > 0 ? atoll(e) : 1LL; }();
extern "C" int clock_gettime(clockid_t id, struct timespec *t)
{
  const long r = syscall(SYS_clock_gettime, id, t);
  if (r != 0 || (id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_COARSE)) return int(r);
  static const long long start = t->tv_sec * 1000000000LL + t->tv_nsec;
  const long long now = start + (t->tv_sec * 1000000000LL + t->tv_nsec - start) * speed;
  t->tv_sec = now / 1000000000LL;
  t->tv_nsec = now % 1000000000LL;
  return 0;
}
extern "C" int timerfd_settime(int fd, int flags, const struct itimerspec *t, struct itimerspec *old)
{
  struct itimerspec u = *t;
  if (!(flags & TFD_TIMER_ABSTIME))
  {
    long long ns = (u.it_value.tv_sec * 1000000000LL + u.it_value.tv_nsec);
    if (ns > 0) ns = ns / speed + 1;
    u.it_value.tv_sec = ns / 1000000000LL;
    u.it_value.tv_nsec = ns % 1000000000LL;
  }
  return int(syscall(SYS_timerfd_settime, fd, flags, &u, old));
}
