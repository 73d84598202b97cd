// C05: every lookup on every sorted file gives the stored count or 0, whatever was looked up before.
#include "lookup_common.hpp"
#include <memory>
using namespace lk;

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  std::string shape;
  Model m = genModel(g, c.thorough ? 4000 : 1200, &shape);
  std::vector<std::string> pwds;
  if (g.chance(1, 3))
  {
    size_t n = g.range(1, 8);
    for (size_t i = 0; i < n; ++i) { std::string p = g.bytes(24); pwds.push_back(p); if (g.chance(2, 3)) m[md5key(p)] = genCount(g); }
  }
  const std::string path = c.scratch + "/db";
  uint64_t hole = 0;                                     // all-zero records before the real ones
  if (g.chance(1, 40))
  {
    m.erase(Key{0, 0});
    // around 2^31 and 2^32 bytes and records
    const uint64_t sizes[] = {1ULL << 31, 1ULL << 32, 3ULL << 31, 5ULL << 32, 100000, 20ULL << 30, 20ULL << 31, 20ULL << 32, 100ULL << 32};
    hole = sizes[g.below(9)] / 20 + g.below(5);
  }
  const std::string img = image(m);
  if (hole)
  {
    writeFile(path, "");
    std::fstream f(path, std::ios::in | std::ios::out | std::ios::binary);
    f.seekp(std::streamoff(hole * 20)); f.write(img.data(), std::streamsize(img.size())); f.close();
    if (!f) { truncate(path.c_str(), 0); hole = 0; writeFile(path, img); c.label("file system too small for the sparse file"); }
    if (hole && img.empty()) { int rc = truncate(path.c_str(), off_t(hole * 20)); (void)rc; }
  }
  else writeFile(path, img);
  size_t nq = g.range(1, 30);
  std::string history;
  bool beyond = false, afterBeyond = false, hit = false, miss = false;
  pbt::Describe description(c, [&] { return show(m) + (hole ? " after " + std::to_string(hole) + " zero records" : "") + "; queries" + history; });
  {
    pwned::PasswordInspector insp(path);
    pbt::require(insp.isOpen(), "inspector is not open");
    pbt::require_eq(uint64_t(insp.size()), uint64_t(m.size() + hole), "number of records");
    for (size_t i = 0; i < nq; ++i)
    {
      if (!pwds.empty() && g.chance(1, 3))
      {
        const std::string &p = g.pick(pwds);
        const Key k = md5key(p);
        if (k == Key{0, 0}) continue;
        history += " pwd:" + pbt::show(p, 20);
        checkAnswer(insp.lookup(p), k, m, "lookup of password " + pbt::show(p));
        continue;
      }
      Key q = genQuery(g, m);
      if (hole && q == Key{0, 0}) q.second = 1;
      history += " " + show(q);
      const bool found = m.count(q);
      (found ? hit : miss) = true;
      if (beyond) afterBeyond = true;
      if (!m.empty() && q > m.rbegin()->first) beyond = true;
      int reads = -1;
      checkAnswer(g.chance(1, 2) ? insp.binsearch(q.first == 0 && q.second == 0 ? pwned::Hash(0, 0) : pwned::Hash(q.first, q.second), &reads)
                                 : insp.binsearch(pwned::Hash(q.first, q.second)), q, m, "lookup");
    }
  }
  unlink(path.c_str());
  if (beyond) c.label("query beyond the last record");
  if (afterBeyond) c.label("query after one beyond the last record");
  if (hole) c.label(hole > (1ULL << 32) ? "more than 2^32 records" : hole > (1ULL << 31) ? "more than 2^31 records" : hole * 20 > (1ULL << 32) ? "file beyond 4 GB" : hole * 20 >= (1ULL << 31) ? "file beyond 2 GB" : "zero records first");
  if (m.empty()) c.label("empty file");
  if (m.size() == 1) c.label("one record");
  if (shape[0] == 'o') c.label("all records share the upper half");
  if (!pwds.empty()) c.label("password lookups");
  c.nontrivial = m.size() >= 2 && hit && miss;
}
const pbt::Target pbt::target = {"C05",
  "case = sorted file (0..1200 records; uniform, clustered, one-upper-half, boundary values; 1 in 40 a sparse file up to 430 GB) and up to 30 lookups on one object; non-trivial = at least 2 records, at least one hit and one miss",
  run, 160000, 3000000, 20};
