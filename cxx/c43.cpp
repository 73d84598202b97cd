// C43: a lookup needs only logarithmically many reads, as reported and as made.
#include "lookup_common.hpp"
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace lk;

static uint64_t reads = 0;
extern "C" ssize_t read(int fd, void *b, size_t n) { ++reads; return syscall(SYS_read, fd, b, n); }
extern "C" ssize_t readv(int fd, const struct iovec *v, int n) { ++reads; return syscall(SYS_readv, fd, v, n); }
extern "C" ssize_t pread(int fd, void *b, size_t n, off_t o) { ++reads; return syscall(SYS_pread64, fd, b, n, o); }
extern "C" ssize_t pread64(int fd, void *b, size_t n, off64_t o) { ++reads; return syscall(SYS_pread64, fd, b, n, o); }

static unsigned lg(uint64_t n) { unsigned r = 0; while (n >>= 1) ++r; return r; }        // floor, 0 for 0 and 1
static uint64_t steps(uint64_t n) { return n ? lg(n) + 1 : 0; }

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  Model m = genModel(g, c.thorough ? 6000 : 1500);
  const std::string path = c.scratch + "/db", ipath = c.scratch + "/idx";
  uint64_t hole = 0;
  if (g.chance(1, 12))
  {
    m.erase(Key{0, 0});
    const uint64_t sizes[] = {1000, 1ULL << 20, 1ULL << 27, 1ULL << 31, 1ULL << 33};
    hole = sizes[g.below(5)] + g.below(5);
  }
  const bool indexed = !hole && g.chance(1, 2);
  const unsigned bits = unsigned(g.range(1, 12));
  const std::string img = image(m);
  writeFile(path, hole ? "" : img);
  if (hole)
  {
    std::fstream f(path, std::ios::in | std::ios::out | std::ios::binary);
    f.seekp(std::streamoff(hole * 20)); f.write(img.data(), std::streamsize(img.size())); f.close();
    if (!f) { int rc = truncate(path.c_str(), 0); (void)rc; hole = 0; writeFile(path, img); }
    if (hole && img.empty()) { int rc = truncate(path.c_str(), off_t(hole * 20)); (void)rc; }
  }
  if (indexed) writeFile(ipath, indexImage(m, bits));
  const uint64_t n = m.size() + hole;
  // first record at or after the start of each bucket, and whether it has any
  std::vector<uint64_t> count(size_t(1) << bits);
  for (auto &r : m) ++count[r.first.first >> (64 - bits)];
  std::string history;
  pbt::Describe description(c, [&] { return show(m) + (hole ? " after " + std::to_string(hole) + " zero records" : "") + (indexed ? "; " + std::to_string(bits) + " bits" : std::string()) + "; queries" + history; });
  bool deep = false;
  {
    pwned::PasswordInspector insp = indexed ? pwned::PasswordInspector(path, ipath) : pwned::PasswordInspector(path);
    const size_t nq = g.range(1, 25);
    for (size_t i = 0; i < nq; ++i)
    {
      Key q = genQuery(g, m);
      if (indexed && g.chance(1, 3)) q.first = (g.below(uint64_t(1) << bits) << (64 - bits)) | (q.first >> bits);
      if (hole && q == Key{0, 0}) q.second = 1;
      const bool smart = g.chance(1, 3);
      history += (smart ? " smart:" : " ") + show(q);
      const pwned::Hash h(q.first, q.second);
      uint64_t limit = steps(n);
      if (indexed)
      {
        // the records of the bucket (or of the nearest one before it that has any) up to the first one of the next that has any
        const uint64_t k = q.first >> (64 - bits);
        uint64_t lo = k, hi = k + 1, entries = 2;
        while (lo > 0 && !count[lo]) { --lo; ++entries; }
        while (hi < count.size() && !count[hi]) { ++hi; ++entries; }
        limit = steps(std::min<uint64_t>(count[lo] + 1, n)) + entries;
      }
      if (smart) limit += 2 + 2 * (lg(n) + 2);
      int told = -1;
      reads = 0;
      if (n == 0 && smart) continue;
      const auto r = smart ? insp.smart_binsearch(h, &told) : insp.binsearch(h, &told);
      const uint64_t made = reads;
      checkAnswer(r, q, m, "lookup");
      pbt::require(told >= 0 && uint64_t(told) <= limit, "lookup of " + show(q) + " in " + std::to_string(n) + " records takes " + std::to_string(told) + " reads, " + std::to_string(limit) + " are enough");
      pbt::require(made <= 3 * limit + 3, "lookup of " + show(q) + " in " + std::to_string(n) + " records reads the file " + std::to_string(made) + " times; it reports " + std::to_string(told) + " reads");
      if (limit >= 6) deep = true;
    }
  }
  unlink(path.c_str()); if (indexed) unlink(ipath.c_str());
  c.label(indexed ? "with an index" : hole ? "millions of records" : "plain");
  c.nontrivial = deep;
}
const pbt::Target pbt::target = {"C43",
  "case = sorted file (up to 1500 records, or up to 2^33 mostly empty ones), index of 1..12 bits or none, up to 25 plain or interpolating lookups; reads reported and reads made on the file counted; non-trivial = a lookup among at least 32 records",
  run, 60000, 1200000, 20};
