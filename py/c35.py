"""C35: what could not be read or written is reported."""
from common import *
import build, resource, shutil, subprocess, signal
import http_client as hc
from pyrun import SAN_ENV
PROGRAMS = []
NAMES = ["merger", "converter", "index", "be2le", "testset", "extractor", "markov-generator", "markov-lookup", "lookup", "benchmark", "server"]
CASES = {"quick": 3000, "thorough": 60000}
RULE = ("case = program, small workload, fault: a limit of the size of files at any byte, reads or writes of a chosen file (or all files of the working directory) failing from any byte on, once or for good, a file that cannot be opened, "
        "a missing or unsuitable path, or (harmless) short and interrupted reads; compared with the same run without fault; non-trivial = the fault made the program fail, or a harmless one did strike")

def prepare():
    return {k[:-6]: v for k, v in build.build({n + "-fault": (build.PROGRAMS[n]() + [build.VERIF + "/cxx/fault.cpp"], build.BASE + build.SAN, build.LIBS + ["-ldl"]) for n in NAMES}).items()}

def strategy(tier):
    size = st.one_of(st.integers(0, 40), st.integers(100, 3000))
    db = st.tuples(size, st.integers(0, 999)).map(list)
    prog = st.sampled_from(["merger", "merger", "converter", "converter", "index", "be2le", "testset", "extractor", "extractor", "markov-generator", "markov-lookup", "lookup", "benchmark", "server"])
    where = st.one_of(st.integers(0, 1200), st.sampled_from([0, 1000, 999]))           # per mille of the file's size
    fault = st.one_of(
        st.tuples(st.just("limit"), where, st.integers(-21, 21)),
        st.tuples(st.just("write"), st.integers(0, 9), where, st.booleans()),
        st.tuples(st.just("read"), st.integers(0, 9), where, st.booleans()),
        st.tuples(st.just("open"), st.integers(0, 9), st.sampled_from(["in", "out"])),
        st.tuples(st.just("path"), st.integers(0, 9), st.sampled_from(["missing", "directory", "parent"])),
        st.tuples(st.just("short"), st.integers(0, 9))).map(list)
    return st.fixed_dictionaries({"prog": prog, "dbs": st.lists(db, min_size=1, max_size=6), "opt": st.integers(0, 7), "fault": fault})

def words(n, seed):
    r = random.Random("w%d/%d" % (n, seed))
    return b"".join(b"user%d:%s\n" % (i, bytes(r.choice(b"abcde123\xc3\xbc"[:8]) for _ in range(r.randint(1, 9)))) for i in range(n))

def records(n, seed, unsorted=False):
    return file_of(bulk(n, seed, 0, 1 << 31))

class Job:
    """a program's inputs, arguments and outputs"""
    def __init__(self, env, case):
        self.env, self.prog, self.opt = env, case["prog"], case["opt"]
        self.inputs, self.outdir, self.stdin, self.keep = [], "o", b"", False
        self.outfile = None
        p, o, w = env.path, self.opt, env.write
        os.makedirs(p("o"), exist_ok=True); os.makedirs(p("t"), exist_ok=True); os.makedirs(p("cwd"), exist_ok=True)
        dbs = case["dbs"]
        g = self.prog
        if g in ("merger", "converter", "extractor"):
            data = [records(n, s) if g == "merger" else words(n, s) for n, s in dbs]
            if g == "merger": data = [d for d in data if d] or [records(3, 1)]
            ext = ".md5" if g == "merger" else ".txt"
            self.inputs = [w("i/f%d%s" % (k, ext), d) for k, d in enumerate(data)]
        elif g in ("markov-generator",):
            self.inputs = [w("i/f", words(*dbs[0]))]
        elif g == "markov-lookup":
            w("i/f.txt", words(dbs[0][0] + 1, dbs[0][1]))
            r = env.run("markov-generator", ["-I", p("i/f.txt"), "-O", p("i/model")])
            self.inputs = [p("i/model")]
            self.stdin = b"abc\n1\naa\n"
        else:
            d = bulk(dbs[0][0], dbs[0][1], 0, 1 << 31)
            pws = [b"pw%d" % i for i in range(12)]
            for i, x in enumerate(pws[:8]): d[md5(x)] = 5 + i
            self.db = d
            self.inputs = [w("i/db", file_of(d))]
            if g in ("lookup", "benchmark", "server") and o & 1:
                env.run("index", ["-I", p("i/db"), "-O", p("i/index"), "-B", 3 + o])
                self.inputs.append(p("i/index"))
            if g == "lookup": self.stdin = b"".join(x + b"\n" for x in pws)
            if g == "benchmark":
                keys = sorted(d)
                self.inputs.append(w("i/test", dump([(k, 1) for k in keys[::max(1, len(keys) // 30)] + [5, 1 << 127]])))
        if g == "merger":
            self.outfile = "o/out.md5"; self.keep = True
            self.make = lambda i, out: (["-S", p("i")] if i == self.inputs and o & 1 else [x for f in i for x in ("-I", f)]) + ["-O", out, "-T", p("t"), "-n", 2 + o // 4]
        elif g == "converter":
            self.keep = True; self.outfile = "o"
            self.make = lambda i, out: (["-S", p("i")] if i == self.inputs and o & 1 else [x for f in i for x in ("-I", f)]) + ["-D", out, "-T", 1 + o // 2, "--ram", 1]
        elif g == "index":
            self.outfile = "o/index"; self.make = lambda i, out: ["-I", i[0], "-O", out, "-B", 1 + o * 2]
        elif g == "be2le":
            self.outfile = "o/le"; self.make = lambda i, out: [i[0], out]
        elif g == "testset":
            self.outfile = "o/test"; self.make = lambda i, out: ["-I", i[0], "-O", out, "-N", [1, 7, 100, 400][o % 4]] + (["--non-existent"] if o & 4 else []) + (["--test-urls"] if o & 1 else [])
        elif g == "extractor":
            self.outfile = "o/out"; self.make = lambda i, out: ["-S", p("i"), "-O", out] + (["-C"] if o & 1 else []) + (["--ignore-ready"] if o & 2 else [])
        elif g == "markov-generator":
            self.outfile = "o/model"; self.make = lambda i, out: ["-I", i[0], "-O", out] + ["-v"] * (o & 1)
        elif g == "markov-lookup": self.make = lambda i, out: [i[0]]
        elif g == "lookup": self.make = lambda i, out: ["-I", i[0]] + (["-X", i[1]] if o & 1 else [])
        elif g == "benchmark":
            self.make = lambda i, out: ["-I", i[0], "-S", i[-1], "-n", 2] + (["-X", i[1]] if o & 1 else ["-A", "binsearch" if o & 2 else "smart"])
    def out(self):
        return self.env.path(self.outfile) if self.outfile else None
    def results(self, res):
        """what the program delivered"""
        r = dict(tree(self.env.path("o")))
        for k, v in tree(self.env.path("cwd")).items(): r["cwd/" + k] = v
        t = res[1]
        if self.prog == "lookup": r["answers"] = re.findall(rb"Found \d+ times|Not found", t)
        elif self.prog == "markov-lookup": r["answers"] = re.findall(rb"p = \S+", t)
        elif self.prog == "benchmark": r["answers"] = re.findall(rb"^Found: \d+|^Not found: \d+", t, re.M)
        elif self.prog == "markov-generator": r["answers"] = [t[t.rfind(b"\n{\n"):]] if b"\n{\n" in t else []
        return r
    def reset(self):
        for d in ("o", "t", "cwd"):
            shutil.rmtree(self.env.path(d)); os.makedirs(self.env.path(d))
    def launch(self, inputs, out, fsize=None, fault=None):
        e = dict(SAN_ENV); e["TMPDIR"] = self.env.path("t"); e.update(fault or {})
        limit = (lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))) if fsize is not None else None
        args = [self.env.progs[self.prog]] + [str(a) for a in self.make(inputs, out)]
        rd, wr = os.pipe()
        if self.stdin: os.write(wr, self.stdin)
        if not self.keep: os.close(wr); wr = -1
        # nothing but the program's own files is subject to the limit: its output goes to pipes
        p = subprocess.Popen(args, stdin=rd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=self.env.path("cwd"), start_new_session=True, preexec_fn=limit, restore_signals=False)
        os.close(rd)
        slow = False
        try:
            out_, err = p.communicate(timeout=40)
        except subprocess.TimeoutExpired:
            slow = True
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            if slow: out_, err = p.communicate()
            p.wait()
            if wr >= 0: os.close(wr)
        what = self.prog + " " + " ".join(args[1:])
        text = err.decode("utf-8", "replace")
        if slow: raise Fail("%s: does not end within 40 s" % what[:400])
        if p.returncode == 99 or "AddressSanitizer" in text or "runtime error:" in text: raise Fail("%s: sanitizer report\n%s" % (what[:400], text[:1500]))
        if p.returncode < 0: raise Fail("%s: killed by signal %d\n%s" % (what[:400], -p.returncode, text[-800:]))
        return p.returncode, out_, text

def check(case, env):
    if case["prog"] == "server": return server(case, env)
    j = Job(env, case)
    kind = case["fault"][0]
    before = tree(env.path("i"))
    ref = j.launch(j.inputs, j.out())
    good = j.results(ref)
    require(ref[0] == 0 or (j.prog == "markov-lookup"), "without fault: exit status %d\n%s" % (ref[0], ref[2][-600:]))
    mark = env.path("mark")
    inputs, out, fsize, fault = list(j.inputs), j.out(), None, None
    f = case["fault"]
    files = {k: v for k, v in good.items() if isinstance(v, bytes)}
    skipping = False                                     # the extractor goes on without a file it cannot open, and says so
    if kind == "limit":
        sizes = sorted({len(v) for v in files.values()} | {sum(len(v) for v in before.values())})
        size = sizes[(f[2] + 21) % len(sizes)]
        fsize = max(0, size * f[1] // 1000 + (f[2] if f[1] in (999, 1000) else 0))
    elif kind in ("write", "read"):
        if kind == "write":
            targets = [env.path(k if k.startswith("cwd/") else "o/" + k) for k in files] + ([env.path("t") + "/"] if j.prog == "merger" else [])
            n = max([len(v) for v in files.values()] or [0])
        else:
            targets, n = j.inputs + ([env.path("t") + "/"] if j.prog == "merger" else []), None
        if not targets: env.label("nothing to write"); return
        t = targets[f[1] % len(targets)]
        if n is None or os.path.isfile(t): n = os.path.getsize(t) if os.path.isfile(t) else sum(len(v) for v in before.values())
        fault = {"VFAULT_MODE": kind, "VFAULT_PATH": t, "VFAULT_AT": str(n * f[2] // 1000), "VFAULT_MARK": mark}
        if f[3]: fault["VFAULT_ONCE"] = "1"
    elif kind == "open":
        if f[2] == "in": t = j.inputs[f[1] % len(j.inputs)]
        else:
            names = [env.path(k if k.startswith("cwd/") else "o/" + k) for k in files]
            if not names: env.label("nothing to write"); return
            t = names[f[1] % len(names)]
        skipping = j.prog == "extractor" and f[2] == "in"
        fault = {"VFAULT_MODE": kind, "VFAULT_PATH": t, "VFAULT_MARK": mark}
    elif kind == "short":
        fault = {"VFAULT_MODE": kind, "VFAULT_PATH": env.path("i"), "VFAULT_MARK": mark}
    elif kind == "path":
        i = f[1] % (len(inputs) + (1 if out else 0))
        bad = {"missing": env.path("nowhere"), "directory": env.path("t"), "parent": env.path("nowhere/deep/er")}[f[2]]
        if i < len(inputs):
            if j.prog == "extractor": env.label("nothing to misname"); return
            inputs[i] = bad
        elif j.prog == "converter": out = {"missing": env.path("i/f0.txt"), "directory": env.path("i/f0.txt/x"), "parent": env.path("i/f0.txt/deep/er")}[f[2]]
        elif f[2] == "missing": env.label("nothing to misname"); return
        else: out = bad
        if j.prog == "merger" and out == bad and f[2] == "directory":
            j.stdin = b"y\n"                             # the directory exists: may it be overwritten?
    j.reset()
    res = j.launch(inputs, out, fsize, fault)
    got = j.results(res)
    diff_tree(before, tree(env.path("i")), "inputs")
    struck = os.path.exists(mark)
    left = tree(env.path("t"))
    require(not left, "intermediate files are left: %s" % sorted(left)[:3])
    if kind == "path":
        reached = True
        if j.prog == "converter" and not any(n for n, s in case["dbs"]) : reached = False   # nothing to write
        if reached: require(res[0] != 0, "success is reported although a path cannot be used\n%s" % res[2][-400:])
    elif skipping:
        if struck:
            name = fault["VFAULT_PATH"]
            require(name in res[2] or name in res[1].decode("utf-8", "replace"), "nothing is said about the file that cannot be opened")
            rd = got.get("cwd/.ready", b"").decode().split("\n")
            require(name not in rd, "a file that could not be opened is recorded as ready")
    elif res[0] == 0:
        for k in good:
            require(k in got, "success is reported, but there is no %s" % k)
            if got[k] != good[k]:
                require(False, "success is reported, but %s (%s) is not what it is without the fault (%s)" % (k, brief(got[k]), brief(good[k])))
        require(set(got) == set(good), "success is reported, but there are other files: %s" % sorted(set(got) - set(good))[:3])
    if kind == "short" or (fault and not struck):
        require(res[0] == ref[0], "failure is reported (exit status %d) although nothing is wrong\n%s" % (res[0], res[2][-600:]))
    if res[0] != 0:
        require(res[2].strip() or res[1].strip(), "failure is not explained")
        if "answers" in good and "answers" in got and j.prog in ("lookup", "markov-lookup"):
            require(got["answers"] == good["answers"][:len(got["answers"])], "wrong answers before the failure: %s" % got["answers"][:20])
        if j.prog == "extractor" and "cwd/.ready" in got and not skipping:
            # what is recorded as ready is in the output
            text = got.get("out", b"")
            ready = got["cwd/.ready"].split(b"\n")[:-1]
            if not j.opt & 1:
                want = [b"".join(p + b"\n" for p in passwords(before[os.path.basename(r.decode())])) for r in ready]
                # a file that could not be read to its end may have left passwords in between
                require(text.startswith(b"".join(want)) or kind == "read" and all(w in text for w in want), "a file is recorded as ready, but not all of its passwords have been written")
            else:
                require(kind == "read" or not ready or kind in ("limit", "write", "open"), "files are recorded as ready")
    env.label(kind)
    if struck: env.label(kind + " struck")
    if res[0]: env.label(j.prog + " failed")
    env.nontrivial = res[0] != 0 or (kind == "short" and struck)

def brief(x):
    return "%d bytes" % len(x) if isinstance(x, bytes) else "%d answers" % len(x)

def server(case, env):
    j = Job(env, case)
    f = case["fault"]
    db, index = j.inputs[0], (j.inputs[1] if len(j.inputs) > 1 else None)
    target = j.inputs[(f[1] if isinstance(f[1], int) else 0) % len(j.inputs)]
    at = os.path.getsize(target) * ((f[2] if f[0] in ("read", "write") else f[1]) if isinstance(f[1], int) else 0) // 1000
    shrink = f[0] in ("limit", "path")
    extra = {}
    if f[0] in ("read", "write"): extra = {"VFAULT_MODE": "read", "VFAULT_PATH": target, "VFAULT_AT": str(at), "VFAULT_MARK": env.path("mark")}
    if f[0] == "read" and f[3]: extra["VFAULT_ONCE"] = "1"
    if f[0] == "short": extra = {"VFAULT_MODE": "short", "VFAULT_PATH": env.path("i"), "VFAULT_MARK": env.path("mark")}
    if f[0] == "open":
        extra = {"VFAULT_MODE": "open", "VFAULT_PATH": target, "VFAULT_MARK": env.path("mark")}
        try: sv = hc.Server(env, db, index, workers=2, threads=2, env_extra=extra)
        except Fail as e:
            require("exit status 1" in str(e) and "terminate" not in str(e), str(e)); env.nontrivial = True; env.label("server does not start"); return
        try:
            if target == db:
                # it may have begun to listen before it opened its files
                try: rc = sv.p.wait(20)
                except subprocess.TimeoutExpired: raise Fail("the server runs without its database")
                require(rc == 1, "the server ends with status %d\n%s" % (rc, sv.errors()[:800]))
                env.nontrivial = True; env.label("server does not start"); return
        finally:
            if target == db: sv.stop()
    else: sv = hc.Server(env, db, index, workers=2, threads=2, env_extra=extra)
    errors = 0
    try:
        if shrink:
            s = sv.connect()                             # an answer means that all workers have opened their files
            try:
                s.sendall(hc.request("GET", "/v1/pwned/api/info")); require(hc.receive(s, sv)[0] == 200, "no info")
            finally: s.close()
            os.truncate(target, min(os.path.getsize(target), at))
        keys = sorted(j.db)
        picks = keys[::max(1, len(keys) // 12)] + [keys[-1], 77, keys[0] + 1]
        for k in picks:
            s = sv.connect()
            try:
                s.sendall(hc.request("GET", "/v1/pwned/api/lookup?hash=" + hx(k)))
                status, headers, body = hc.receive(s, sv)
            finally: s.close()
            if status == 200:
                m = re.search(r'"found":\s*(\d+)', body if isinstance(body, str) else body.decode())
                require(m, "no count in %r" % body)
                require(int(m.group(1)) == j.db.get(k, 0), "hash %s: %s reported, stored is %d (file cut or unreadable from byte %d on)" % (hx(k), m.group(1), j.db.get(k, 0), at))
            else:
                require(status >= 500, "status %d" % status); errors += 1
        if f[0] == "short" or (not shrink and not os.path.exists(env.path("mark"))): require(errors == 0, "errors are answered although nothing is wrong")
        if "VFAULT_ONCE" in extra: require(errors <= 2, "%d errors after a single fault" % errors)
        sv.finish()
    finally: sv.stop()
    env.label("server " + f[0])
    if errors: env.label("server answers errors")
    env.nontrivial = errors > 0 or f[0] == "short"
