// C06 (library part): with an index by definition every answer equals the model and the unindexed answer.
#include "lookup_common.hpp"
using namespace lk;

// Wide keys: all records and all queries lie in the last 64 buckets, so that only these entries of a (sparse) index file matter.
static void writeWideIndex(const std::string &path, const Model &m, unsigned bits)
{
  std::vector<uint64_t> last(64, ~uint64_t(0));
  const uint64_t base = (uint64_t(1) << bits) - 64;
  uint64_t pos = 0;
  for (auto &r : m) { uint64_t &e = last[(r.first.first >> (64 - bits)) - base]; e = std::min(e, pos); pos += 20; }
  FILE *f = fopen(path.c_str(), "wb");
  if (!f || fseeko(f, off_t(base * 8), SEEK_SET) || fwrite(last.data(), 8, 64, f) != 64 || fclose(f)) { fprintf(stderr, "cannot write %s\n", path.c_str()); abort(); }
}

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  Model m = genModel(g, 400);
  const bool wide = g.chance(1, 12);
  const unsigned bits = unsigned(wide ? g.range(15, 40) : g.chance(1, 16) ? g.range(11, 14) : g.range(1, 10));
  const auto toTop = [bits](uint64_t first) { return ((~uint64_t(63)) << (64 - bits)) | (first & 63) << (64 - bits) | first >> bits; };
  if (wide)
  {
    Model n; n[{toTop(0), 0}] = 1;          // the first of the 64 buckets holds a record
    for (auto &r : m) n[{toTop(r.first.first ^ r.first.first >> 58), r.first.second}] = r.second;
    m.swap(n);
  }
  else if (g.chance(1, 4) && !m.empty())          // squeeze into few buckets so that leading/trailing/middle ones are empty
  {
    Model n; const uint64_t keep = g.below(uint64_t(1) << bits);
    for (auto &r : m) n[{(r.first.first >> bits) | ((keep ^ (r.first.second & 1)) << (64 - bits)), r.first.second}] = r.second;
    m.swap(n);
  }
  const std::string path = c.scratch + "/db", ipath = c.scratch + "/idx";
  writeFile(path, image(m));
  if (wide) writeWideIndex(ipath, m, bits); else writeFile(ipath, indexImage(m, bits));
  const size_t nq = g.range(1, 30);
  std::string history; bool hit = false, miss = false, emptyBucket = false;
  pbt::Describe description(c, [&] { return show(m) + "; " + std::to_string(bits) + " bits; queries" + history; });
  const uint64_t from = wide ? (uint64_t(1) << bits) - 64 : 0;
  std::vector<bool> used(wide ? 64 : size_t(1) << bits);
  for (auto &r : m) used[(r.first.first >> (64 - bits)) - from] = true;
  {
    pwned::PasswordInspector insp(path, ipath), plain(path);
    for (size_t i = 0; i < nq; ++i)
    {
      Key q = genQuery(g, m);
      if (wide)
      {
        if (g.chance(1, 3)) q.first = toTop(g.raw64());
        if (q.first >> (64 - bits) < from) q.first = toTop(q.first);
      }
      else if (g.chance(1, 3)) q.first = (g.below(uint64_t(1) << bits) << (64 - bits)) | (q.first >> bits);
      history += " " + show(q);
      (m.count(q) ? hit : miss) = true;
      if (!used[(q.first >> (64 - bits)) - from]) emptyBucket = true;
      const pwned::Hash h(q.first, q.second);
      const auto r = insp.binsearch(h);
      checkAnswer(r, q, m, "indexed lookup");
      pbt::require_eq(r.count, plain.binsearch(h).count, "indexed versus plain lookup of " + show(q));
    }
  }
  unlink(path.c_str()); unlink(ipath.c_str());
  if (emptyBucket) c.label("query in an empty bucket");
  if (wide) c.label("15 to 40 bits");
  if (!used.front()) c.label("first bucket empty");
  if (!used.back()) c.label("last bucket empty");
  if (m.empty()) c.label("empty file");
  if (bits > 10) c.label("more than 10 bits");
  c.nontrivial = m.size() >= 2 && hit && miss && emptyBucket;
}
const pbt::Target pbt::target = {"C06",
  "case = sorted file, key width 1..14 (or 15..40, all in the last 64 entries) and up to 30 lookups through an index built by definition; non-trivial = hit, miss and a query in an empty bucket",
  run, 16000, 300000, 20};
