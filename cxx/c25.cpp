// C25: terminal settings are changed only as asked and restored.
#include "pbt.hpp"
#include <fcntl.h>
#include <memory>
#include <pwned-lib/util.hpp>
#include <stdlib.h>
#include <termios.h>
#include <unistd.h>

static int master = -1;
static void terminal()
{
  if (master >= 0) return;
  master = posix_openpt(O_RDWR | O_NOCTTY);
  if (master < 0 || grantpt(master) || unlockpt(master)) { perror("pty"); _exit(77); }
  int s = open(ptsname(master), O_RDWR | O_NOCTTY);
  if (s < 0 || dup2(s, 0) < 0) { perror("pty slave"); _exit(77); }
}
static termios get() { termios t; memset(&t, 0, sizeof t); if (tcgetattr(0, &t)) { perror("tcgetattr"); _exit(77); } return t; }
static std::string diff(const termios &a, const termios &b, tcflag_t lmask = ~tcflag_t(0))
{
  std::ostringstream s;
  if (a.c_iflag != b.c_iflag) s << " c_iflag";
  if (a.c_oflag != b.c_oflag) s << " c_oflag";
  if (a.c_cflag != b.c_cflag) s << " c_cflag";
  if ((a.c_lflag ^ b.c_lflag) & lmask)
  {
    s << " c_lflag:";
    static const struct { tcflag_t f; const char *n; } N[] = {{ECHO, "ECHO"}, {ICANON, "ICANON"}, {ISIG, "ISIG"}, {ECHOE, "ECHOE"}, {ECHOK, "ECHOK"}, {ECHONL, "ECHONL"}, {NOFLSH, "NOFLSH"}, {TOSTOP, "TOSTOP"}, {IEXTEN, "IEXTEN"}};
    for (auto &x : N) if ((a.c_lflag ^ b.c_lflag) & lmask & x.f) s << ' ' << x.n;
  }
  if (memcmp(a.c_cc, b.c_cc, sizeof a.c_cc)) s << " c_cc";
  return s.str();
}
static void run(pbt::Gen &g, pbt::Ctx &c)
{
  terminal();
  std::string history;
  pbt::Describe description(c, [&] { return history; });
  termios t = get();
  static const tcflag_t L[] = {ECHO, ICANON, ISIG, ECHOE, ECHOK, ECHONL, NOFLSH, TOSTOP, IEXTEN};
  t.c_lflag = 0; for (auto f : L) if (g.chance(1, 2)) t.c_lflag |= f;
  static const tcflag_t I[] = {IGNBRK, BRKINT, ISTRIP, INLCR, IGNCR, ICRNL, IXON, IXOFF};
  t.c_iflag = 0; for (auto f : I) if (g.chance(1, 3)) t.c_iflag |= f;
  static const tcflag_t O[] = {OPOST, ONLCR, OCRNL, ONOCR};
  t.c_oflag = 0; for (auto f : O) if (g.chance(1, 3)) t.c_oflag |= f;
  t.c_cc[VMIN] = cc_t(g.below(4)); t.c_cc[VTIME] = cc_t(g.below(4)); t.c_cc[VINTR] = cc_t(1 + g.below(30));
  if (tcsetattr(0, TCSANOW, &t)) { perror("tcsetattr"); _exit(77); }
  const termios initial = get();
  { std::ostringstream s; s << "lflag " << std::oct << initial.c_lflag << " iflag " << initial.c_iflag << ";"; history = s.str(); }
  termios cur = initial;
  std::vector<std::pair<std::unique_ptr<pwned::TermIO>, termios>> stack;
  const size_t n = g.range(1, 14); bool toggled = false, nested = false;
  for (size_t k = 0; k < n; ++k)
  {
    const termios before = get();
    pbt::require_eq(diff(before, cur), std::string(), "settings changed between two calls");
    tcflag_t changed = 0, set = 0; std::string name;
    const int op = stack.empty() ? (g.chance(1, 3) ? 6 + int(g.below(2)) : 4) : int(g.weighted({3, 3, 3, 3, 1, 2, 1, 1}));
    switch (op)
    {
    case 0: name = "disableEcho"; stack.back().first->disableEcho(); changed = ECHO | ICANON; break;
    case 1: name = "enableEcho"; stack.back().first->enableEcho(); changed = set = ECHO | ICANON; break;
    case 2: name = "disableBreak"; stack.back().first->disableBreak(); changed = ISIG; break;
    case 3: name = "enableBreak"; stack.back().first->enableBreak(); changed = set = ISIG; break;
    case 4: name = "begin"; nested = !stack.empty(); stack.emplace_back(std::unique_ptr<pwned::TermIO>(new pwned::TermIO), before); break;
    case 5:
    {
      name = "end"; const termios want = stack.back().second; history += " end"; stack.pop_back();
      const termios now = get();
      pbt::require_eq(diff(now, want), std::string(), "settings after the helper ended differ from those before it in");
      cur = now; continue;
    }
    case 6: name = "setStdinEcho(false)"; pwned::setStdinEcho(false); changed = ECHO; break;
    default: name = "setStdinEcho(true)"; pwned::setStdinEcho(true); changed = set = ECHO; break;
    }
    history += " " + name;
    const termios now = get();
    pbt::require_eq(diff(now, before, ~changed), std::string(), name + " changed");
    tcflag_t check = changed;
    // line editing that was off before need not be switched on together with echo
    if ((set & ICANON) && !(initial.c_lflag & ICANON)) check &= ~tcflag_t(ICANON);
    if ((now.c_lflag & check) != (set & check)) pbt::fail(name + " did not " + (set ? "set" : "clear") + " its modes");
    if (changed) toggled = true;
    cur = now;
  }
  while (!stack.empty())
  {
    const termios want = stack.back().second; history += " end"; stack.pop_back();
    const termios now = get();
    pbt::require_eq(diff(now, want), std::string(), "settings after the helper ended differ from those before it in");
  }
  if (nested) c.label("nested helpers");
  c.nontrivial = toggled;
}
const pbt::Target pbt::target = {"C25",
  "case = random initial settings of a pseudo terminal (input, output, local modes, control characters) and up to 14 calls of the terminal helper, nested or not, and of setStdinEcho; all settings compared after every call; non-trivial = at least one mode switched",
  run, 800000, 8000000, 20};
