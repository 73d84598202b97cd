#include "sched.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <sys/stat.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>



namespace sched {
unsigned fakeProcessors = 3;
static void defaultDie(const std::string &m) { pbt::failNow(m); }
void (*onDie)(const std::string &) = defaultDie;

namespace {
enum St { Run, OnMutex, OnCond, OnJoin, OnPred, OnTimer, OnQuiet, OnGuard, OnInput, Done };
struct Th
{
  int id = 0; sem_t sem; St st = Run; void *obj = nullptr; Th *target = nullptr;
  std::function<bool()> pred; const char *what = ""; uint64_t wake = 0;
  pthread_t h{}; void *(*fn)(void *) = nullptr; void *arg = nullptr; void *mutexAfter = nullptr; bool timed = false, timedOut = false;
};
bool active = false, inside = false;       // inside: the scheduler itself runs, its own accesses are no points
std::vector<Th *> th;
thread_local Th *self = nullptr;
std::unordered_map<void *, Th *> owner;
std::unordered_map<void *, Th *> guards;
pbt::Gen *gen = nullptr;
std::function<std::string()> describe;
uint64_t step = 0, gap = 0, scale = 16, lastSwitch = 0;
bool fine = false;
unsigned spuriousOneIn = 0;
std::vector<std::pair<uint64_t, int>> keys; size_t keyPos = 0; int pushedBack = -1; bool polled = false;
const uint64_t Limit = 4000000;

struct Inside { bool b; Inside() : b(inside) { inside = true; } ~Inside() { inside = b; } };

bool runnable(Th *t)
{
  switch (t->st)
  {
  case Run: return true;
  case OnMutex: return owner.find(t->obj) == owner.end();
  case OnJoin: return t->target->st == Done;
  case OnPred: return t->pred();
  case OnTimer: return step >= t->wake;
  case OnGuard: return guards.find(t->obj) == guards.end();
  case OnCond: case OnQuiet: case OnInput: case Done: return false;
  }
  return false;
}
std::string stateOf()
{
  std::ostringstream s;
  static const char *N[] = {"runs", "waits for a mutex", "waits for a condition", "waits for the end of thread", "waits until", "sleeps", "waits for quiet", "waits for an initialisation", "waits for input", "ended"};
  for (auto t : th)
  {
    s << "; thread " << t->id << " " << N[t->st];
    if (t->st == OnJoin) s << " " << t->target->id;
    if (t->st == OnPred) s << " " << t->what;
    if (t->st == OnMutex) { auto i = owner.find(t->obj); if (i != owner.end()) s << " held by " << i->second->id; }
  }
  return s.str();
}
void newGap() { gap = scale + 1 - gen->below(scale); }
Th *pickNext()
{
  std::vector<Th *> r;
  for (auto t : th) if (runnable(t)) r.push_back(t);
  if (r.empty())
  {
    Th *best = nullptr;                    // nobody can go on: time passes until the next sleeper wakes
    for (auto t : th) if (t->st == OnTimer && (!best || t->wake < best->wake)) best = t;
    if (!best) for (auto t : th) if (t->st == OnCond && t->timed) { best = t; best->timedOut = true; }
    if (!best) for (auto t : th) if (t->st == OnQuiet) best = t;
    if (!best) die("deadlock: no thread can go on" + stateOf());
    r.push_back(best);
  }
  Th *t = r.size() == 1 ? r[0] : r[gen->below(r.size())];
  return t;
}
void handOver(Th *t)                       // t is going to run instead of the caller
{
  if (t->timedOut && t->st == OnCond) { /* pthread_cond_timedwait of t goes on */ }
  t->st = Run;
}
void block()                               // the caller has set its own state
{
  Th *t = pickNext();
  handOver(t);
  if (t == self) return;
  sem_post(&t->sem);
  while (sem_wait(&self->sem) != 0) {}
}
void point()
{
  if (!active || inside || !self) return;
  Inside i;
  if (++step > Limit) die("does not end within " + std::to_string(Limit) + " scheduling points" + stateOf());
  if (--gap > 0) return;
  newGap();
  std::vector<Th *> r;
  for (auto t : th) if (t != self && runnable(t)) r.push_back(t);
  if (r.empty()) return;
  Th *t = r[gen->below(r.size())];
  handOver(t);
  sem_post(&t->sem);
  while (sem_wait(&self->sem) != 0) {}
}
void *trampoline(void *p)
{
  Th *t = static_cast<Th *>(p);
  while (sem_wait(&t->sem) != 0) {}
  self = t;
  inside = false;
  void *r = t->fn(t->arg);
  inside = true;
  t->st = Done;
  Th *n = pickNext();
  handOver(n);
  self = nullptr;
  // the next thread sets `inside` for itself when it leaves the scheduler
  sem_post(&n->sem);
  return r;
}
template <class F> F real(const char *name)
{
  void *p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "no %s\n", name); abort(); }
  return reinterpret_cast<F>(p);
}
bool on() { return active && self && !inside; }
void lockVirtual(void *m)
{
  while (owner.find(m) != owner.end()) { self->st = OnMutex; self->obj = m; block(); }
  owner[m] = self;
}
} // namespace

[[noreturn]] void die(const std::string &msg)
{
  active = false; inside = true;
  std::string m = msg;
  if (describe) m += "\n  case: " + describe();
  onDie(m);
  _exit(42);
}
uint64_t steps() { return step; }
size_t keysRead() { return keyPos; }
Quiet::Quiet() : before(inside) { inside = true; }
void Quiet::release() { inside = before; }
void begin(pbt::Gen &g, std::function<std::string()> d)
{
  gen = &g; describe = std::move(d);
  for (auto t : th) { sem_destroy(&t->sem); delete t; }
  th.clear(); owner.clear(); guards.clear(); keys.clear(); keyPos = 0; pushedBack = -1; polled = false; step = 0;
  static const uint64_t S[] = {1000, 200, 50, 12, 4};
  scale = S[g.below(5)];
  fine = g.chance(1, 4); if (fine) scale *= 20;
  spuriousOneIn = g.chance(1, 4) ? 6 : 0;
  newGap();
  Th *t = new Th; sem_init(&t->sem, 0, 0); t->h = pthread_self(); th.push_back(t);
  self = t; inside = false; active = true;
}
void end()
{
  waitUntil([] { for (auto t : th) if (t != self && t->st != Done) return false; return true; }, "all threads have ended");
  active = false;
}
void yield() { point(); }
void waitUntil(std::function<bool()> pred, const char *what)
{
  Inside i;
  if (pred()) return;
  self->pred = std::move(pred); self->what = what; self->st = OnPred;
  block();
}
void quiesce()
{
  Inside i;
  self->st = OnQuiet;
  block();
}
void script(std::vector<std::pair<uint64_t, int>> k) { Inside i; keys = std::move(k); keyPos = 0; }

static int readKey()
{
  Inside i;
  if (pushedBack >= 0) { const int k = pushedBack; pushedBack = -1; return k; }
  if (keyPos >= keys.size()) { self->st = OnInput; block(); }
  if (!polled) { self->st = OnTimer; self->wake = step + keys[keyPos].first; block(); }
  polled = false;
  return keys[keyPos++].second;
}
} // namespace sched

using namespace sched;
extern "C" {
int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
  static auto f = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
  if (!on()) return f(h, a, fn, arg);
  point();
  Inside i;
  Th *t = new Th; t->id = int(th.size()); sem_init(&t->sem, 0, 0); t->fn = fn; t->arg = arg;
  th.push_back(t);
  if (f(&t->h, a, trampoline, t)) { fprintf(stderr, "cannot create a thread\n"); abort(); }
  *h = t->h;
  inside = false; point(); inside = true;
  return 0;
}
int pthread_join(pthread_t h, void **r)
{
  static auto f = real<int (*)(pthread_t, void **)>("pthread_join");
  if (!on()) return f(h, r);
  point();
  Inside i;
  for (size_t k = th.size(); k-- > 1;) if (Th *t = th[k]; pthread_equal(t->h, h))
  {
    if (t->st != Done) { self->st = OnJoin; self->target = t; block(); self->target = nullptr; }
    return f(h, r);
  }
  return f(h, r);
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
  static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  if (!on()) return f(m);
  point();
  Inside i; lockVirtual(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
  static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  if (!on()) return f(m);
  point();
  Inside i; if (owner.find(m) != owner.end()) return EBUSY;
  owner[m] = self;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  if (!on()) return f(m);
  { Inside i; owner.erase(m); }
  point();
  return 0;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
  point();
  Inside i;
  owner.erase(m);
  self->timed = timed; self->timedOut = false;
  if (!(spuriousOneIn && gen->below(spuriousOneIn) == spuriousOneIn - 1))
  {
    self->st = OnCond; self->obj = c;
    block();
  }
  const bool to = self->timedOut; self->timed = self->timedOut = false;
  lockVirtual(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
  return on() ? condWait(c, m, false) : f(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
  static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait");
  return on() ? condWait(c, m, true) : f(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t)
{
  static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait");
  return on() ? condWait(c, m, true) : f(c, m, k, t);
}
static void wake(pthread_cond_t *c, bool all)
{
  point();
  Inside i;
  std::vector<Th *> w;
  for (auto t : th) if (t->st == OnCond && t->obj == c) w.push_back(t);
  if (w.empty()) return;
  if (!all) { Th *t = w[gen->below(w.size())]; t->st = Run; return; }
  for (auto t : w) t->st = Run;
}
int pthread_cond_signal(pthread_cond_t *c)
{
  static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
  if (!on()) return f(c);
  wake(c, false); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
  static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
  if (!on()) return f(c);
  wake(c, true); return 0;
}
static void nap(uint64_t points) { Inside i; self->st = OnTimer; self->wake = step + points; block(); }
int sched_yield()
{
  static auto f = real<int (*)()>("sched_yield");
  if (!on()) return f();
  point(); nap(2); return 0;
}
int nanosleep(const struct timespec *t, struct timespec *r)
{
  static auto f = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep");
  if (!on()) return f(t, r);
  point(); nap(50); return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec *t, struct timespec *r)
{
  static auto f = real<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep");
  if (!on()) return f(k, fl, t, r);
  point(); nap(50); return 0;
}
int usleep(useconds_t u)
{
  static auto f = real<int (*)(useconds_t)>("usleep");
  if (!on()) return f(u);
  point(); nap(50); return 0;
}
int getc(FILE *s)
{
  static auto f = real<int (*)(FILE *)>("getc");
  if (!on() || s != stdin) return f(s);
  point(); return readKey();
}
int fgetc(FILE *s)
{
  static auto f = real<int (*)(FILE *)>("fgetc");
  if (!on() || s != stdin) return f(s);
  point(); return readKey();
}
int _IO_getc(FILE *s) { return getc(s); }
int getchar()
{
  static auto f = real<int (*)()>("getchar");
  if (!on()) return f();
  point(); return readKey();
}
int ungetc(int ch, FILE *s)
{
  static auto f = real<int (*)(int, FILE *)>("ungetc");
  if (!on() || s != stdin) return f(ch, s);
  pushedBack = ch; return ch;
}
int poll(struct pollfd *fds, nfds_t n, int timeout)
{
  static auto f = real<int (*)(struct pollfd *, nfds_t, int)>("poll");
  if (!on() || n != 1 || fds->fd != 0) return f(fds, n, timeout);
  point();
  Inside i;
  fds->revents = POLLIN;
  if (pushedBack >= 0) return 1;
  if (timeout >= 0)
  {
    if (keyPos < keys.size() && !polled) { polled = true; }
    nap(50); fds->revents = keyPos < keys.size() ? POLLIN : 0; return keyPos < keys.size() ? 1 : 0;
  }
  if (keyPos >= keys.size()) { self->st = OnInput; block(); }
  if (!polled) { self->st = OnTimer; self->wake = step + keys[keyPos].first; block(); polled = true; }
  return 1;
}
int get_nprocs() { return int(fakeProcessors); }
int get_nprocs_conf() { return int(fakeProcessors); }
long sysconf(int n)
{
  static auto f = real<long (*)(int)>("sysconf");
  if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return long(fakeProcessors);
  return f(n);
}
// file operations other threads or programs could come between
#define FILEOP(ret, name, params, args) ret name params { static auto f = real<ret (*) params>(#name); point(); return f args; }
FILEOP(int, stat, (const char *p, struct stat *s), (p, s))
FILEOP(int, lstat, (const char *p, struct stat *s), (p, s))
FILEOP(int, stat64, (const char *p, struct stat64 *s), (p, s))
FILEOP(int, statx, (int d, const char *p, int fl, unsigned m, struct statx *s), (d, p, fl, m, s))
FILEOP(int, access, (const char *p, int m), (p, m))
FILEOP(FILE *, fopen, (const char *p, const char *m), (p, m))
FILEOP(FILE *, fopen64, (const char *p, const char *m), (p, m))
FILEOP(int, unlink, (const char *p), (p))
FILEOP(int, remove, (const char *p), (p))
FILEOP(int, rename, (const char *a, const char *b), (a, b))
FILEOP(ssize_t, write, (int fd, const void *b, size_t n), (fd, b, n))
// initialisation of local statics: the real ones would block outside the scheduler
int __cxa_guard_acquire(long long int *g)
{
  char *done = reinterpret_cast<char *>(g);
  if (!on()) { if (*done) return 0; return 1; }   // before and after a case there is one thread only
  Inside i;
  for (;;)
  {
    if (*done) return 0;
    if (guards.find(g) == guards.end()) { guards[g] = self; return 1; }
    self->st = OnGuard; self->obj = g; block();
  }
}
void __cxa_guard_release(long long int *g) { *reinterpret_cast<char *>(g) = 1; if (active) { Inside i; guards.erase(g); } }
void __cxa_guard_abort(long long int *g) { if (active) { Inside i; guards.erase(g); } }

// what -fsanitize=thread instrumentation calls
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
static inline void plain() { if (fine) point(); }
#define RW(n) void __tsan_read##n(void *) { plain(); } void __tsan_write##n(void *) { plain(); } \
  void __tsan_unaligned_read##n(void *) { plain(); } void __tsan_unaligned_write##n(void *) { plain(); } \
  void __tsan_volatile_read##n(void *) { point(); } void __tsan_volatile_write##n(void *) { point(); } \
  void __tsan_unaligned_volatile_read##n(void *) { point(); } void __tsan_unaligned_volatile_write##n(void *) { point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *, unsigned long) { plain(); }
void __tsan_write_range(void *, unsigned long) { plain(); }
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T *p, int) { point(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T *p, T v, int) { point(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { point(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { point(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { point(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { point(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { point(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { point(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int) { point(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { point(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { point(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int) { point(); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}
