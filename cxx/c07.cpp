// C07: the interpolating search agrees with the model and the plain search in any interleaving.
#include "lookup_common.hpp"
using namespace lk;

static void run(pbt::Gen &g, pbt::Ctx &c)
{
  std::string shape;
  Model m = genModel(g, c.thorough ? 6000 : 1500, &shape);
  const std::string path = c.scratch + "/db";
  writeFile(path, image(m));
  const size_t nq = g.range(1, 25);
  std::string history; bool hit = false, miss = false, mixed = false;
  pbt::Describe description(c, [&] { return show(m) + "; searches" + history; });
  {
    pwned::PasswordInspector insp(path);
    pwned::PasswordInspector plain(path);
    for (size_t i = 0; i < nq; ++i)
    {
      const Key q = genQuery(g, m);
      const pwned::Hash h(q.first, q.second);
      (m.count(q) ? hit : miss) = true;
      if (g.chance(1, 4)) { history += " plain:" + show(q); mixed = true; checkAnswer(insp.binsearch(h), q, m, "plain search"); continue; }
      history += " " + show(q);
      int reads = -1;
      const auto r = insp.smart_binsearch(h, &reads);
      checkAnswer(r, q, m, "interpolating search");
      const auto p = plain.binsearch(h);
      pbt::require_eq(r.count, p.count, "interpolating versus plain search of " + show(q));
    }
  }
  unlink(path.c_str());
  if (m.size() < 3) c.label("fewer than 3 records");
  if (shape[0] == 'o') c.label("all records share the upper half");
  if (mixed) c.label("plain and interpolating searches interleaved");
  if (m.size() > 500) c.label("more than 500 records");
  c.nontrivial = m.size() >= 2 && hit && miss;
}
const pbt::Target pbt::target = {"C07",
  "case = sorted file and up to 25 interleaved interpolating/plain searches on one object, compared with a map and a second plain object; non-trivial = at least 2 records, at least one hit and one miss",
  run, 160000, 3000000, 20};
