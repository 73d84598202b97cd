// C22: sizes, durations, formatted text and progress are displayed correctly.
#include "pbt.hpp"
#include <cmath>
#include <iostream>
#include <pwned-lib/util.hpp>
#include <pwned-merger-cli/progressbar.hpp>

static void sizes(pbt::Gen &g, pbt::Ctx &c)
{
  static const char *const U[] = {"B", "KB", "MB", "GB", "TB"};
  uint64_t v = g.u64();
  if (g.chance(1, 3)) { const unsigned k = unsigned(g.range(1, 4)); v = (uint64_t(1) << (10 * k)) * g.range(1, 1024) + g.below(2001) - 1000; }
  v &= ~uint64_t(0) >> 1;
  std::string s;
  pbt::Describe description(c, [&] { return "size " + std::to_string(v) + " -> " + pbt::show(s); });
  s = pwned::readableSize(v);
  int unit = 0; for (int k = 1; k <= 4; ++k) if (v > (uint64_t(1) << (10 * k))) unit = k;
  const size_t sp = s.find(' ');
  pbt::require(sp != std::string::npos, "no unit in the size");
  const std::string num = s.substr(0, sp), u = s.substr(sp + 1);
  if (unit < 4 || v > (uint64_t(1) << 40)) pbt::require_eq(u, std::string(U[unit]), "unit");
  if (unit == 0) { pbt::require_eq(num, std::to_string(v), "number"); return; }
  const size_t dot = num.find('.');
  pbt::require(dot != std::string::npos && dot > 0 && num.size() == dot + 2 && num.find_first_not_of("0123456789.") == std::string::npos, "not one decimal place");
  const long double shown = (long double)std::stoull(num.substr(0, dot)) + (num[dot + 1] - '0') / 10.0L, exact = (long double)v / (long double)(uint64_t(1) << (10 * unit));
  pbt::require(std::fabs(shown - exact) <= 0.05L + exact * 1e-14L, "number is not the value in that unit");
  c.nontrivial = true; c.label(std::string("size in ") + U[unit]);
}
static void times(pbt::Gen &g, pbt::Ctx &c)
{
  double t;
  switch (g.below(6))
  {
  case 0: t = double(g.below(600000)) / 10000.0; break;
  case 1: t = double(g.below(200000)) + double(g.below(10000)) / 10000.0; break;
  case 2: t = double(g.pick(std::vector<uint64_t>{60, 3600, 86400}) * g.range(1, 60)) + (double(g.below(41)) - 20) / 20.0; break;
  case 3: t = double(g.pick(std::vector<uint64_t>{59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401})) + double(g.below(1000)) / 1000.0; break;
  case 4: t = double(g.below(10000000000ULL)); break;
  default: t = double(g.below(100000)) / 1e7; break;
  }
  std::string s;
  pbt::Describe description(c, [&] { char b[64]; snprintf(b, sizeof b, "%.9f", t); return std::string("duration ") + b + " -> " + pbt::show(s); });
  s = pwned::readableTime(t);
  double total = 0; const char *p = s.c_str(); const std::string units = "dhms"; size_t at = 0; bool parts = false; bool decimals = false;
  while (*p)
  {
    char *e; const double x = strtod(p, &e);
    pbt::require(e != p && x >= 0, "part without a number");
    for (const char *q = p; q < e; ++q) if (*q == '.') decimals = true;
    const size_t k = units.find(*e, at);
    pbt::require(*e && k != std::string::npos, "unknown or misplaced unit");
    static const double f[] = {86400, 3600, 60, 1}, lim[] = {1e18, 24, 60, 60};
    if (at > 0 || k > 0) { const bool sixty = k == 3 && at == 0 && t < 60 && x == 60; pbt::require(x < lim[k] || sixty, "part is not below its limit"); }
    total += x * f[k]; at = k + 1; parts = true; p = e + 1; if (*p == ' ') ++p;
  }
  pbt::require(parts, "empty");
  if (t < 59.9999)
    pbt::require(std::fabs(total - t) <= 0.0000501 && decimals, "duration below a minute differs");
  else if (t < 60)
    pbt::require(std::fabs(total - t) <= 0.0001501, "duration differs");
  else
  {
    pbt::require(std::fabs(total - t) <= 0.5 + 1e-6, "duration is not the rounded value");
    c.nontrivial = true; c.label(t >= 86400 ? "days" : t >= 3600 ? "hours" : "minutes");
  }
}
static void formats(pbt::Gen &g, pbt::Ctx &c)
{
  std::string fmt, want, got, arg;
  pbt::Describe description(c, [&] { return "format " + pbt::show(fmt) + " -> " + pbt::show(got) + ", expected " + pbt::show(want); });
  auto lit = [&] { std::string s = g.text(g.chance(1, 10) ? 500 : 12, "abc %[]\t\xc3\xa4"); std::string r; for (char x : s) { r += x; if (x == '%') r += '%'; } return r; };
  static std::vector<char> buf(1 << 17);
  const std::string a = lit(), b = lit(), d = lit();
  arg = g.text(g.chance(1, 8) ? 40000 : g.chance(1, 2) ? 200 : 12, "xyz%sd");
  const int i = int(g.u64()); const unsigned long ul = g.u64(); const double f = double(int64_t(g.u64())) / double(1 + g.below(1000));
  const int w = int(g.below(g.chance(1, 5) ? 3000 : 30));
#define BOTH(...) do { snprintf(buf.data(), buf.size(), fmt.c_str(), ##__VA_ARGS__); want = buf.data(); got = pwned::string_format(fmt, ##__VA_ARGS__); } while (0)
  switch (g.below(9))
  {
  case 0: fmt = a; { snprintf(buf.data(), buf.size(), fmt.c_str(), 0); want = buf.data(); got = pwned::string_format(fmt); } break;
  case 1: fmt = a + "%s" + b; BOTH(arg.c_str()); break;
  case 2: fmt = a + "%d" + b; BOTH(i); break;
  case 3: fmt = a + "%s%d" + b + "%lu" + d; BOTH(arg.c_str(), i, ul); break;
  case 4: fmt = a + "%.3f" + b; BOTH(f); break;
  case 5: fmt = a + "%*d" + b; BOTH(w, i); break;
  case 6: fmt = "%s"; BOTH(arg.c_str()); break;
  case 7: fmt = a + "%016lx" + b + "%5.1f" + d; BOTH(ul, f); break;
  default: fmt = a + "%s" + b + "%s" + d; BOTH(arg.c_str(), a.c_str()); break;
  }
#undef BOTH
  if (got != want) pbt::fail("formatted text differs");
  if (want.size() > 2 * fmt.size()) { c.nontrivial = true; c.label("text longer than twice its format"); }
  c.label("format");
}
static void bars(pbt::Gen &g, pbt::Ctx &c)
{
  const int width = int(g.range(1, 120));
  const uint64_t hi = g.chance(1, 12) ? 0 : g.chance(1, 2) ? g.range(1, 2000) : g.range(1, uint64_t(1) << 45);
  ProgressBar bar(width, g.chance(1, 2) ? hi : 7); bar.setHi(hi);
  std::string history, out; size_t len = 0; const size_t n = g.range(1, 10);
  pbt::Describe description(c, [&] { return "bar of width " + std::to_string(width) + " up to " + std::to_string(hi) + ":" + history + " -> " + pbt::show(out); });
  for (size_t k = 0; k < n; ++k)
  {
    const uint64_t v = hi == 0 ? 0 : g.chance(1, 5) ? hi : g.chance(1, 5) ? 0 : g.chance(1, 4) ? hi - g.below(std::min<uint64_t>(hi, 3) + 1) : g.below(hi + 1);
    history += " " + std::to_string(v);
    std::ostringstream os; auto *old = std::cout.rdbuf(os.rdbuf());
    try { if (g.chance(1, 2)) bar.update(v); else bar(v); } catch (...) { std::cout.rdbuf(old); throw; }
    std::cout.rdbuf(old);
    out = os.str();
    const size_t b = out.find('['), e = out.find(']');
    pbt::require(b != std::string::npos && e != std::string::npos && out[0] == '\r', "no bar");
    pbt::require_eq(e - b - 1, size_t(width), "width of the bar");
    const std::string in = out.substr(b + 1, e - b - 1);
    size_t filled = 0; while (filled < in.size() && in[filled] == '=') ++filled;
    pbt::require(in.find_first_not_of(' ', filled) == std::string::npos, "bar is not filled from the left");
    if (k == 0) len = out.size();
    pbt::require_eq(out.size(), len, "length of the line compared with the one before");
    if (hi)
    {
      const double share = double(v) / double(hi);
      pbt::require(std::fabs(double(filled) - share * width) <= 1.0001, "filled share does not match");
      if (v == hi) pbt::require_eq(filled, size_t(width), "filled share at the end");
      if (v == 0) pbt::require_eq(filled, size_t(0), "filled share at the beginning");
      const double pc = strtod(out.c_str() + e + 1, nullptr);
      pbt::require(out.find('%', e) != std::string::npos && std::fabs(pc - 100 * share) <= 0.0502, "percentage does not match");
      c.nontrivial = true;
    }
  }
  c.label(hi ? "progress bar" : "progress bar without an end value");
}
static void run(pbt::Gen &g, pbt::Ctx &c)
{
  switch (g.below(4)) { case 0: sizes(g, c); break; case 1: times(g, c); break; case 2: formats(g, c); break; default: bars(g, c); }
}
const pbt::Target pbt::target = {"C22",
  "case = a size (all magnitudes, around unit borders), a duration (around 60 s, 1 h, 1 d, halves), a format with arguments (output up to 40000 bytes) or a progress bar with a sequence of values; non-trivial = size above 1 KB, duration from a minute, text longer than twice its format, bar with an end value",
  run, 2000000, 20000000, 20};
