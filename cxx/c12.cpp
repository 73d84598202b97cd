// C12: records and hashes are read and written without loss; incomplete ones are reported.
#include "lookup_common.hpp"
#include <pwned-lib/passwordhashandcount.hpp>
using namespace lk;

// a stream of `records` records, each a function of its number; far larger than any file the checks could write
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
static Rec virtualRec(uint64_t i) { return {Key(mix(i), mix(~i)), uint32_t(mix(i * 3 + 1))}; }
struct VirtualFile : std::streambuf
{
  uint64_t size, pos = 0; std::string buf;
  explicit VirtualFile(uint64_t size) : size(size) {}
  int_type underflow() override
  {
    if (gptr() && gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (pos >= size) return traits_type::eof();
    buf.clear(); const Rec r = virtualRec(pos / 20); put(buf, r.k, r.count);
    buf = buf.substr(pos % 20, std::min<uint64_t>(20 - pos % 20, size - pos));
    pos += buf.size();
    setg(&buf[0], &buf[0], &buf[0] + buf.size());
    return traits_type::to_int_type(buf[0]);
  }
  pos_type seekoff(off_type off, std::ios::seekdir dir, std::ios::openmode) override
  {
    const uint64_t here = pos - uint64_t(egptr() - gptr());
    const off_type to = off + off_type(dir == std::ios::beg ? 0 : dir == std::ios::end ? size : here);
    if (to < 0) return pos_type(off_type(-1));
    pos = uint64_t(to); setg(nullptr, nullptr, nullptr);
    return pos_type(to);
  }
  pos_type seekpos(pos_type p, std::ios::openmode m) override { return seekoff(off_type(p), std::ios::beg, m); }
};
static void runLarge(pbt::Gen &g, pbt::Ctx &c)
{
  const uint64_t n = g.pick(std::vector<uint64_t>{1ULL << 27, 107374183, 214748365, 429496730, 1ULL << 31, 1ULL << 32, 1ULL << 40, 5000000000ULL}) + g.below(50);
  VirtualFile vf(n * 20); std::istream f(&vf);
  std::string history;
  pbt::Describe description(c, [&] { return "a file of " + std::to_string(n) + " records; read" + history; });
  pwned::PasswordHashAndCount p;
  for (size_t j = g.range(1, 20); j > 0; --j)
  {
    const uint64_t border = g.pick(std::vector<uint64_t>{n - 1, n / 2, 107374182, 214748364, 0});
    uint64_t i = g.chance(1, 2) ? g.below(n) : std::min<uint64_t>(n - 1, border + g.below(5) - std::min<uint64_t>(border, 2));
    history += " " + std::to_string(i);
    const Rec r = virtualRec(i);
    if (g.chance(1, 4))
    {
      pwned::Hash h;
      pbt::require(h.read(f, std::streamoff(i * 20)), "hash at record " + std::to_string(i) + " reported incomplete");
      pbt::require(h.quad.upper == r.k.first && h.quad.lower == r.k.second, "hash at record " + std::to_string(i) + " differs");
      continue;
    }
    pbt::require(p.read(f, std::streamoff(i * 20)), "record " + std::to_string(i) + " reported incomplete");
    pbt::require(p.hash.quad.upper == r.k.first && p.hash.quad.lower == r.k.second && p.count == r.count, "record " + std::to_string(i) + " read by position differs");
  }
  c.label("file of several GB"); c.nontrivial = true;
}

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  if (g.chance(1, 6)) return runLarge(g, c);
  std::vector<Rec> rs;
  const size_t n = g.size(c.thorough ? 3000 : 400);
  for (size_t i = 0; i < n; ++i) { Key k = genKey(g, int(g.below(7)), int(g.below(7))); uint32_t cnt = g.chance(1, 10) ? 0 : genCount(g); rs.push_back({k, cnt}); }
  const std::string path = c.scratch + "/records";
  std::string history;
  pbt::Describe description(c, [&] { return std::to_string(n) + " records; " + history; });
  {
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    for (auto &r : rs) pwned::PasswordHashAndCount(pwned::Hash(r.k.first, r.k.second), r.count).dump(f);
  }
  std::string img; for (auto &r : rs) put(img, r.k, r.count);
  pbt::require_eq(uint64_t(pwned::PasswordHashAndCount::size), uint64_t(20), "size of a record");
  const std::string written = readFile(path);
  pbt::require_eq(written.size(), n * 20, "bytes written");
  if (written != img) pbt::fail("bytes written differ from the records");
  size_t cut = img.size();
  if (g.chance(1, 2) && n) { cut = g.chance(1, 2) ? img.size() - g.range(1, 19) : g.below(img.size() + 1); if (truncate(path.c_str(), off_t(cut))) pbt::fail("truncate"); }
  const size_t whole = cut / 20;
  history = "cut at " + std::to_string(cut) + ";";
  auto same = [&](const pwned::PasswordHashAndCount &p, size_t i, const char *how) {
    if (p.hash.quad.upper != rs[i].k.first || p.hash.quad.lower != rs[i].k.second || p.count != rs[i].count)
      pbt::fail(std::string(how) + " of record " + std::to_string(i) + " gives " + pbt::hex(p.hash.quad.upper, p.hash.quad.lower) + " x " + std::to_string(p.count) + ", written was " + show(rs[i].k) + " x " + std::to_string(rs[i].count));
  };
  bool incomplete = false;
  {
    std::ifstream f(path, std::ios::binary); pwned::PasswordHashAndCount p; size_t i = 0;
    while (p.read(f)) { pbt::require(i < whole, "a record is read beyond the last complete one"); same(p, i, "sequential reading"); ++i; pbt::require(i <= n, "endless reading"); }
    pbt::require_eq(i, whole, "records read");
    pbt::require(!p.read(f), "reading goes on after its end");
  }
  {
    std::ifstream f(path, std::ios::binary); pwned::PasswordHashAndCount reused;
    const size_t k = g.range(1, 20);
    for (size_t j = 0; j < k; ++j)
    {
      const size_t i = g.below(n + 2);
      history += " " + std::to_string(i);
      f.clear();
      if (g.chance(1, 4))
      {
        pwned::Hash h; const bool complete = i * 20 + 16 <= cut;
        pbt::require_eq(h.read(f, std::streamoff(i * 20)), complete, "hash at record " + std::to_string(i) + " reported complete");
        if (complete) pbt::require(h.quad.upper == rs[i].k.first && h.quad.lower == rs[i].k.second, "hash at record " + std::to_string(i) + " differs");
        else incomplete = true;
        continue;
      }
      pwned::PasswordHashAndCount fresh; pwned::PasswordHashAndCount &p = g.chance(1, 2) ? fresh : reused;
      const bool complete = i < whole;
      if (!complete) incomplete = true;
      pbt::require_eq(p.read(f, std::streamoff(i * 20)), complete, "record " + std::to_string(i) + " reported complete");
      if (complete)
      {
        same(p, i, "reading by position");
        if (i + 1 < whole && g.chance(1, 2)) { pbt::require(p.read(f), "next record is not read"); same(p, i + 1, "reading on"); }
      }
    }
  }
  unlink(path.c_str());
  if (cut % 20) c.label(cut % 20 < 16 ? "cut inside a hash" : "cut inside a count");
  if (incomplete) c.label("incomplete record or hash read");
  c.nontrivial = n >= 2;
}
const pbt::Target pbt::target = {"C12",
  "case = up to 400 records written, the file cut or not at any byte, read sequentially and at random positions; or records of a virtual file of 2 GB and more read by position; non-trivial = at least two records",
  run, 60000, 1000000, 20};
