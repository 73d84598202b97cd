#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace pbt {

std::string show(const std::string &b, size_t max)
{
  std::string r = "\"";
  for (size_t i = 0; i < b.size() && i < max; ++i)
  {
    unsigned char c = (unsigned char)b[i];
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c >= 32 && c < 127) r += char(c);
    else { char t[8]; snprintf(t, sizeof t, "\\x%02x", c); r += t; }
  }
  r += '"';
  if (b.size() > max) r += "...(" + std::to_string(b.size()) + " bytes)";
  return r;
}
std::string hex(uint64_t hi, uint64_t lo)
{
  char t[40]; snprintf(t, sizeof t, "%016llx%016llx", (unsigned long long)hi, (unsigned long long)lo); return t;
}

uint64_t Gen::u64()
{
  switch (below(8))
  {
  case 0: return below(8);
  case 1: return below(1000);
  case 2: { uint64_t k = below(64); uint64_t d = below(5); return (uint64_t(1) << k) + d - 2; }
  case 3: return ~uint64_t(0) - below(8);
  case 4: return uint64_t(1) << below(64);
  case 5: { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = (v << 8) | uint64_t((unsigned char)"\x00\xff\x80\x7f\x01\x0a\x0d\x20"[below(8)]); return v; }
  default: return raw64();
  }
}
size_t Gen::size(size_t max)
{
  switch (below(8))
  {
  case 0: case 1: case 2: return size_t(below(std::min<uint64_t>(max, 4) + 1));
  case 3: case 4: case 5: return size_t(below(std::min<uint64_t>(max, 20) + 1));
  case 6: return size_t(below(std::min<uint64_t>(max, 100) + 1));
  default: return size_t(below(max + 1));
  }
}
size_t Gen::weighted(const std::vector<unsigned> &w)
{
  unsigned s = 0; for (unsigned x : w) s += x;
  uint64_t v = below(s);
  for (size_t i = 0; i < w.size(); ++i) { if (v < w[i]) return i; v -= w[i]; }
  return 0;
}
std::string Gen::bytes(size_t max)
{
  std::string r(size(max), '\0');
  for (auto &c : r) c = char(below(256));
  return r;
}
std::string Gen::text(size_t max, const std::string &a)
{
  std::string r(size(max), '\0');
  for (auto &c : r) c = a[below(a.size())];
  return r;
}

namespace {
constexpr size_t TapeCap = 1 << 17;
struct Shared
{
  volatile uint64_t caseIdx;
  volatile uint64_t done;                   // cases completed
  volatile uint64_t tapeLen;
  volatile uint64_t failed;                 // 1: failure message valid
  char msg[8192];
  uint64_t tape[TapeCap];
};
enum { ExitFail = 41, ExitOk = 0 };

struct Outcome { bool failed = false; std::string msg; };

Shared *mapShared()
{
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shared *)p;
}
std::string scratchBase;
std::string workDir(int w) { return scratchBase + "/w" + std::to_string(w); }

uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31);
}

Shared *current = nullptr;

void runOne(Gen &g, Ctx &c, Shared *sh)
{
  current = sh;
  try { target.run(g, c); }
  catch (const Failure &f)
  {
    const std::string &d = c.description;
    std::string m = f.msg + (d.empty() ? "" : "\n  case: " + d);
    strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
    sh->failed = 1;
  }
  catch (const std::exception &e)
  {
    const std::string &d = c.description;
    std::string m = std::string("unexpected exception: ") + e.what() + (d.empty() ? "" : "\n  case: " + d);
    strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
    sh->failed = 1;
  }
}

std::string statusText(int st)
{
  std::ostringstream s;
  if (WIFSIGNALED(st)) s << "killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
  else s << "exited with code " << WEXITSTATUS(st) << " (sanitizer report or abort)";
  return s.str();
}

// run one tape in a child; hang = no end within the limit
Outcome tryTape(const std::vector<uint64_t> &tape, Shared *sh, std::vector<uint64_t> *used, bool thorough, const std::string &errFile, double limit)
{
  sh->failed = 0; sh->tapeLen = 0; sh->msg[0] = 0;
  pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    int fd = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); }
    int nul = open("/dev/null", O_WRONLY); if (nul >= 0) dup2(nul, 1);
    Gen g; g.replay(tape.data(), tape.size()); g.out = sh->tape; g.outCap = TapeCap; g.outLen = &sh->tapeLen;
    Ctx c; c.scratch = workDir(99); c.thorough = thorough;
    runOne(g, c, sh);
    _exit(sh->failed ? ExitFail : ExitOk);
  }
  int st = 0; double waited = 0; bool hang = false;
  while (waitpid(pid, &st, WNOHANG) == 0)
  {
    usleep(waited < 0.05 ? 500 : 5000); waited += waited < 0.05 ? 0.0005 : 0.005;
    if (waited > limit) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
  }
  kill(-pid, SIGKILL);
  Outcome o;
  if (hang) { o.failed = true; o.msg = "does not terminate (no end within " + std::to_string(int(limit)) + " s)"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == ExitOk) {}
  else if (WIFEXITED(st) && WEXITSTATUS(st) == ExitFail) { o.failed = true; o.msg = sh->msg; }
  else
  {
    o.failed = true; o.msg = "process " + statusText(st);
    std::ifstream e(errFile); std::string line; int k = 0;
    while (std::getline(e, line) && k < 14) if (!line.empty()) { o.msg += "\n  | " + line; ++k; }
  }
  if (used) used->assign(sh->tape, sh->tape + std::min<uint64_t>(uint64_t(sh->tapeLen), TapeCap));
  return o;
}

std::string jstr(const std::string &s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; }
    else r += char(c);
  }
  return r + "\"";
}
struct Stats
{
  uint64_t evals = 0, nontriv = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};
} // namespace

[[noreturn]] void failNow(const std::string &m)    // fails the case and ends the process, whatever other threads are doing
{
  if (current) { strncpy(current->msg, m.c_str(), sizeof(current->msg) - 1); current->failed = 1; }
  else fprintf(stderr, "%s\n", m.c_str());
  _exit(ExitFail);
}

static double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static void workerMain(int w, int W, uint64_t from, uint64_t seed, uint64_t cases, Shared *sh, const std::string &statFile, bool thorough)
{
  Stats st;
  for (uint64_t i = from; i < cases; i += uint64_t(W))
  {
    sh->caseIdx = i; sh->tapeLen = 0; sh->failed = 0;
    Gen g; g.out = sh->tape; g.outCap = TapeCap; g.outLen = &sh->tapeLen;
    g.seedFrom(mix(seed, i));
    Ctx c; c.scratch = workDir(w); c.thorough = thorough; c.wantSample = st.samples.size() < 2 && (st.evals % 5) == 1;
    runOne(g, c, sh);
    ++st.evals;
    if (sh->failed) break;
    if (c.nontrivial)
    {
      ++st.nontriv;
      uint64_t h = 1469598103934665603ULL;
      for (uint64_t k = 0; k < sh->tapeLen && k < TapeCap; ++k) h = mix(h, sh->tape[k]);
      st.distinct.insert(h);
      if (st.samples.size() < 2 && !c.description.empty() && c.wantSample) st.samples.push_back(c.description);
    }
    for (auto &l : c.labels) ++st.labels[l];
    sh->done = sh->done + 1;
  }
  std::ofstream o(statFile);
  o << st.evals << "\n" << st.labels.size() << "\n";
  for (auto &l : st.labels) o << l.second << " " << l.first << "\n";
  o << st.distinct.size() << "\n";
  for (auto h : st.distinct) o << h << "\n";
  o << st.samples.size() << "\n";
  for (auto &s : st.samples) { o << s.size() << "\n" << s << "\n"; }
  o.close();
  _exit(sh->failed ? ExitFail : ExitOk);
}

// the cases start, start+W, .. idx of one worker in a child of their own; failed = the last one fails
static Outcome tryHistory(uint64_t seed, uint64_t start, int W, uint64_t idx, Shared *sh, bool thorough, const std::string &errFile, double limit)
{
  sh->failed = 0; sh->tapeLen = 0; sh->msg[0] = 0; sh->caseIdx = start;
  pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    int fd = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY); if (nul >= 0) dup2(nul, 1);
    workerMain(99, W, start, seed, idx + 1, sh, errFile + ".stat", thorough);
  }
  int st = 0; double t = now(); bool hang = false;
  while (waitpid(pid, &st, WNOHANG) == 0)
  {
    usleep(5000);
    if (now() - t > limit) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
  }
  Outcome o;
  if (hang) { o.failed = true; o.msg = "does not terminate"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == ExitOk) {}
  else if (WIFEXITED(st) && WEXITSTATUS(st) == ExitFail) { o.failed = true; o.msg = sh->msg; }
  else { o.failed = true; o.msg = "process " + statusText(st); }
  if (sh->caseIdx != idx && !hang) o.failed = false;
  return o;
}

int main_(int argc, char **argv)
{
  uint64_t seed = 1, cases = 0; bool thorough = false; std::string outJson, replayFile, replayOut; int W = target.workers;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--child") { if (target.child) target.child(); return 0; }
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier") thorough = val() == "thorough";
    else if (a == "--out") outJson = val();
    else if (a == "--replay") replayFile = val();
    else if (a == "--replay-out") replayOut = val();
    else if (a == "--workers") W = atoi(val().c_str());
  }
  if (!cases) cases = thorough ? target.thoroughCases : target.quickCases;
  char tmpl[] = "/tmp/pbt.XXXXXX";
  const char *tb = mkdtemp(tmpl);
  if (!tb) { perror("mkdtemp"); return 2; }
  scratchBase = tb;
  for (int w = 0; w < W; ++w) mkdir(workDir(w).c_str(), 0700);
  mkdir(workDir(99).c_str(), 0700);
  auto cleanup = [&] { std::string cmd = "rm -rf -- '" + scratchBase + "'"; int rc = system(cmd.c_str()); (void)rc; };
  const std::string errFile = scratchBase + "/err";
  Shared *scr = mapShared();
  const double hang = target.hangSeconds;

  if (!replayFile.empty())
  {
    std::ifstream f(replayFile); std::string line; std::vector<uint64_t> tape;
    while (std::getline(f, line))
      if (line.compare(0, 8, "history ") == 0)
      {
        std::istringstream hs(line.substr(8)); uint64_t sd = 0, a = 0, i = 0; int ww = 1; hs >> sd >> a >> ww >> i;
        Outcome o = tryHistory(sd, a, ww, i, scr, thorough, errFile, hang + 300);
        std::cout << (o.failed ? "FAILS: " + o.msg : std::string("holds")) << std::endl; cleanup(); return o.failed ? 1 : 0;
      }
      else if (line.compare(0, 5, "tape ") == 0) { std::istringstream s(line.substr(5)); uint64_t v; while (s >> v) tape.push_back(v); }
    const int tries = target.schedule ? 20 : 1;
    for (int k = 0; k < tries; ++k)
    {
      Outcome o = tryTape(tape, scr, nullptr, thorough, errFile, hang);
      if (o.failed) { std::cout << "FAILS: " << o.msg << std::endl; cleanup(); return 1; }
    }
    std::cout << "holds" << std::endl; cleanup(); return 0;
  }

  const double t0 = now();
  struct Found { int w; uint64_t start, idx; std::vector<uint64_t> tape; std::string msg; };
  std::vector<Shared *> sh;
  for (int w = 0; w < W; ++w) sh.push_back(mapShared());
  std::vector<uint64_t> next(W); for (int w = 0; w < W; ++w) next[w] = uint64_t(w);
  Stats total;
  int violations = 0, unconfirmed = 0; std::string verdict;
  for (int round = 0; round < 8 && !violations; ++round)
  {
  std::vector<pid_t> pids(W, -1); std::vector<bool> alive(W, false);
  const std::vector<uint64_t> start = next;
  auto statFile = [&](int w) { return scratchBase + "/stat" + std::to_string(round) + "." + std::to_string(w); };
  auto errOf = [&](int w) { return scratchBase + "/err" + std::to_string(round) + "." + std::to_string(w); };
  int left = 0;
  for (int w = 0; w < W; ++w)
  {
    if (next[w] >= cases) continue;
    sh[w]->done = 0; sh[w]->caseIdx = next[w];
    pid_t p = fork();
    if (p == 0)
    {
      setpgid(0, 0);
      int fd = open(errOf(w).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600); if (fd >= 0) dup2(fd, 2);
      int nul = open("/dev/null", O_WRONLY); if (nul >= 0) dup2(nul, 1);
      workerMain(w, W, next[w], seed, cases, sh[w], statFile(w), thorough);
    }
    pids[w] = p; alive[w] = true; ++left;
  }
  if (left == 0) break;
  std::vector<Found> found;
  std::vector<uint64_t> lastDone(W, ~0ULL); std::vector<double> lastT(W, now());
  while (left > 0)
  {
    for (int w = 0; w < W; ++w)
    {
      if (!alive[w]) continue;
      int st = 0; pid_t r = waitpid(pids[w], &st, WNOHANG);
      bool hung = false;
      if (r == 0)
      {
        if (sh[w]->done != lastDone[w]) { lastDone[w] = sh[w]->done; lastT[w] = now(); }
        else if (now() - lastT[w] > hang + 30) hung = true;
        if (!hung) continue;
        kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0);
      }
      alive[w] = false; --left;
      kill(-pids[w], SIGKILL);
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == ExitOk) { next[w] = cases; continue; }
      Found f; f.w = w; f.start = start[w]; f.idx = sh[w]->caseIdx;
      f.tape.assign(sh[w]->tape, sh[w]->tape + std::min<uint64_t>(uint64_t(sh[w]->tapeLen), TapeCap));
      f.msg = hung ? "no progress" : (WIFEXITED(st) && WEXITSTATUS(st) == ExitFail) ? std::string(sh[w]->msg) : "process " + statusText(st);
      if (!hung && !(WIFEXITED(st) && WEXITSTATUS(st) == ExitFail))
      {
        std::ifstream e(errOf(w)); std::string line; int k = 0;
        while (std::getline(e, line) && k < 14) if (!line.empty()) { f.msg += "\n  | " + line; ++k; }
      }
      next[w] = f.idx + uint64_t(W);
      found.push_back(f);
      for (int v = 0; v < W; ++v)            // stop the others; they go on here if this failure is not confirmed
        if (alive[v])
        {
          kill(-pids[v], SIGKILL); kill(pids[v], SIGKILL); int s2; waitpid(pids[v], &s2, 0);
          alive[v] = false; --left; next[v] = sh[v]->caseIdx;
        }
    }
    usleep(2000);
  }

  // collect statistics
  for (int w = 0; w < W; ++w)
  {
    if (pids[w] < 0) continue;
    std::ifstream f(statFile(w));
    uint64_t n;
    if (!(f >> n)) { total.evals += sh[w]->done; continue; }
    total.evals += n; uint64_t k; f >> k;
    for (uint64_t i = 0; i < k; ++i) { uint64_t c; std::string l; f >> c; f.get(); std::getline(f, l); total.labels[l] += c; }
    f >> k; for (uint64_t i = 0; i < k; ++i) { uint64_t h; f >> h; total.distinct.insert(h); }
    f >> k; for (uint64_t i = 0; i < k; ++i) { size_t z; f >> z; f.get(); std::string s(z, '\0'); f.read(&s[0], std::streamsize(z)); f.get(); if (total.samples.size() < 8) total.samples.push_back(s); }
  }

  std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.idx < b.idx; });
  for (auto &f : found)
  {
    // confirm
    int again = 0; const int tries = target.schedule ? 20 : 3; std::string msg = f.msg;
    for (int k = 0; k < tries; ++k)
    {
      Outcome o = tryTape(f.tape, scr, nullptr, thorough, errFile, hang);
      if (o.failed) { ++again; msg = o.msg; if (target.schedule) break; }
    }
    bool confirmed = target.schedule ? again > 0 : again == 3;
    if (!confirmed && !target.schedule)      // does it need the cases run before it in the same process?
    {
      int hist = 0;
      for (int k = 0; k < 3; ++k) { Outcome o = tryHistory(seed, f.start, W, f.idx, scr, thorough, errFile, hang + now() - t0); if (o.failed) { ++hist; msg = o.msg; } }
      if (hist == 3)
      {
        ++violations; verdict = "depends on earlier use in the same process: " + msg;
        if (!replayOut.empty())
        {
          std::ofstream o(replayOut);
          o << "# property " << target.id << "\n";
          std::istringstream ls(verdict); std::string line; while (std::getline(ls, line)) o << "# " << line << "\n";
          o << "history " << seed << ' ' << f.start << ' ' << W << ' ' << f.idx << "\n";
        }
        break;
      }
    }
    if (!confirmed) { ++unconfirmed; std::cout << "UNCONFIRMED case " << f.idx << " (" << again << "/" << tries << "): " << f.msg << std::endl; continue; }
    // shrink
    std::vector<uint64_t> best = f.tape; const bool isHang = msg.compare(0, 18, "does not terminate") == 0;
    int budget = target.schedule ? 150 : isHang ? 30 : 1500; const double tEnd = now() + (isHang ? 90 : 60);
    auto attempt = [&](std::vector<uint64_t> cand) -> bool {
      if (budget-- <= 0 || now() > tEnd) return false;
      std::vector<uint64_t> used; 
      Outcome o = tryTape(cand, scr, &used, thorough, errFile, isHang ? 10 : hang);
      if (o.failed)
      {
        if (used.size() < cand.size()) cand = used;
        if (cand.size() < best.size() || cand < best) { best = cand; msg = o.msg; return true; }
      }
      return false;
    };
    bool progress = true;
    while (progress && budget > 0 && now() < tEnd)
    {
      progress = false;
      for (size_t span = std::max<size_t>(best.size() / 2, 1); span >= 1 && budget > 0; span /= 2)
      {
        for (size_t i = 0; i + span <= best.size() && budget > 0;)
        {
          auto c = best; c.erase(c.begin() + long(i), c.begin() + long(i + span));
          if (attempt(c)) progress = true; else i += span;
        }
      }
      for (size_t i = 0; i < best.size() && budget > 0; ++i)
      {
        if (best[i] == 0) continue;
        auto c = best; c[i] = 0; if (attempt(c)) { progress = true; continue; }
        c = best; c[i] /= 2; if (i < best.size() && attempt(c)) { progress = true; continue; }
        if (i < best.size() && best[i] > 0) { c = best; --c[i]; if (attempt(c)) progress = true; }
      }
    }
    ++violations; verdict = msg;
    if (!replayOut.empty())
    {
      std::ofstream o(replayOut);
      o << "# property " << target.id << "\n# seed " << seed << " case " << f.idx << "\n";
      std::istringstream ls(msg); std::string line; while (std::getline(ls, line)) o << "# " << line << "\n";
      o << "tape";
      for (auto v : best) o << ' ' << v;
      o << "\n";
    }
    break;
  }
  }
  if (!outJson.empty())
  {
    std::ofstream o(outJson);
    o << "{\"evaluations\":" << total.evals << ",\"distinct_nontrivial\":" << total.distinct.size()
      << ",\"rule\":" << jstr(target.rule) << ",\"classes\":{";
    bool first = true;
    for (auto &l : total.labels) { o << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
    o << "},\"samples\":["; first = true;
    for (auto &s : total.samples) { o << (first ? "" : ",") << jstr(s.substr(0, 1500)); first = false; }
    o << "],\"wall_s\":" << (now() - t0) << ",\"unconfirmed\":" << unconfirmed << ",\"violations\":" << violations << ",\"verdict\":" << jstr(verdict) << "}\n";
  }
  cleanup();
  std::cout << target.id << ": " << total.evals << " cases, " << total.distinct.size() << " distinct non-trivial, "
            << (now() - t0) << " s" << std::endl;
  if (violations) { std::cout << "FAILS: " << verdict << std::endl; return 1; }
  return 0;
}
} // namespace pbt

#ifdef PBT_FUZZER
// Coverage-guided front end: bytes -> tape -> the same target; a failure aborts, its tape is in the artifact.
static std::vector<uint64_t> decode(const uint8_t *d, size_t n)
{
  std::vector<uint64_t> t;
  for (size_t i = 0; i < n;)
  {
    uint8_t b = d[i++];
    if (b < 0xf0) t.push_back(b);
    else { uint64_t v = 0; unsigned k = (b & 7u) + 1u; for (unsigned j = 0; j < k && i < n; ++j) v = (v << 8) | d[i++]; t.push_back(v); }
  }
  return t;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
  static std::string dir;
  if (dir.empty()) { char t[] = "/tmp/pbtfuzz.XXXXXX"; dir = mkdtemp(t); atexit([] { std::string c = "rm -rf -- '" + dir + "'"; int rc = system(c.c_str()); (void)rc; }); }
  auto tape = decode(d, n);
  pbt::Gen g; g.replay(tape.data(), tape.size());
  pbt::Ctx c; c.scratch = dir;
  auto die = [&](const std::string &m) {
    fprintf(stderr, "FUZZFAIL %s\ntape", m.c_str());
    for (auto v : tape) fprintf(stderr, " %llu", (unsigned long long)v);
    fprintf(stderr, "\n");
    if (const char *f = getenv("PBT_FUZZ_TAPE")) { std::ofstream o(f); o << "# " << m << "\ntape"; for (auto v : tape) o << ' ' << v; o << "\n"; }
    abort();
  };
  try { pbt::target.run(g, c); }
  catch (const pbt::Failure &f) { die(f.msg); }
  catch (const std::exception &e) { die(e.what()); }
  return 0;
}
#else
int main(int argc, char **argv) { return pbt::main_(argc, argv); }
#endif
