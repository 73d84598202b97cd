// Choice-sequence property-based testing engine.
//
// Every random decision of a case is one number on a tape.  A tape replays the case exactly, and
// shrinking works on the tape (delete spans, zero, halve, decrement), so it shrinks whatever the
// target builds from it.  Cases run in forked workers; the tape lives in shared memory, so a crash
// (signal, sanitizer abort) or a hang is attributed to its case and shrunk like any failure.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }
inline void require(bool ok, const std::string &m) { if (!ok) throw Failure{m}; }
template <class A, class B>
inline void require_eq(const A &a, const B &b, const std::string &what)
{
  if (!(a == b)) { std::ostringstream s; s << what << ": got " << a << ", expected " << b; throw Failure{s.str()}; }
}

[[noreturn]] void failNow(const std::string &m);   // for failures that cannot be thrown

std::string show(const std::string &bytes, size_t max = 200);
std::string hex(uint64_t hi, uint64_t lo);

class Gen
{
public:
  // source: either an RNG (recording) or a tape / byte string (replaying)
  void seedFrom(uint64_t s) { state = s * 0x9E3779B97F4A7C15ULL + 0xD1B54A32D192ED03ULL; useTape = false; n = 0; }
  void replay(const uint64_t *t, size_t len) { src = t; srcLen = len; useTape = true; n = 0; }
  uint64_t below(uint64_t m)              // uniform in [0,m)
  {
    if (m <= 1) return 0;
    uint64_t v;
    if (useTape) v = n < srcLen ? (src[n] < m ? src[n] : src[n] % m) : 0;
    else v = next() % m;
    record(v);
    return v;
  }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }   // 0 on the tape = false
  uint64_t raw64()
  {
    uint64_t v = useTape ? (n < srcLen ? src[n] : 0) : next();
    record(v);
    return v;
  }
  uint64_t u64();                           // mixture: small, near powers of two, patterns, uniform
  uint32_t u32() { return uint32_t(u64()); }
  size_t size(size_t max);                  // skewed towards small, reaches max
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  size_t weighted(const std::vector<unsigned> &w);
  std::string bytes(size_t max);
  std::string text(size_t max, const std::string &alphabet);

  uint64_t *out = nullptr; size_t outCap = 0; volatile uint64_t *outLen = nullptr;   // where the tape is recorded
private:
  const uint64_t *src = nullptr; size_t srcLen = 0; bool useTape = false; size_t n = 0; uint64_t state = 0;
  uint64_t next()
  {
    uint64_t z = (state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  void record(uint64_t v)
  {
    if (out && n < outCap) { out[n] = v; if (outLen) *outLen = n + 1; }
    ++n;
  }
};

struct Ctx
{
  bool nontrivial = false;
  std::vector<std::string> labels;
  bool wantSample = false;                  // ask Describe to render the case even if it passes
  std::string description;
  std::string scratch;                      // per-worker scratch directory, emptied by the target if used
  bool thorough = false;
  void label(const std::string &l) { labels.push_back(l); }
};

// Renders the case when the scope is left: on failure, or when a sample is wanted.
// Declare it after the variables it refers to.
class Describe
{
  Ctx &c; std::function<std::string()> f; int before;
public:
  Describe(Ctx &ctx, std::function<std::string()> fn) : c(ctx), f(std::move(fn)), before(std::uncaught_exceptions()) {}
  ~Describe() { if (c.wantSample || std::uncaught_exceptions() > before) c.description = f(); }
};

struct Target
{
  const char *id;
  const char *rule;
  void (*run)(Gen &, Ctx &);
  uint64_t quickCases, thoroughCases;
  int hangSeconds = 60;
  bool schedule = false;                    // outcome may depend on thread timing
  int workers = 8;
  void (*child)() = nullptr;                // run by "--child" in a fresh process
};

extern const Target target;                 // defined by each harness
} // namespace pbt
