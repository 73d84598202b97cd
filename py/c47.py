"""C47: the environment makes no difference."""
from common import *
import build, bz2, pty, resource, shutil, signal, subprocess, threading, time
from collections import Counter
from c35 import Job
PROGRAMS = []
NAMES = ["merger", "converter", "index", "be2le", "testset", "extractor", "markov-generator", "markov-lookup", "lookup", "benchmark"]
CASES = {"quick": 9000, "thorough": 250000}
RULE = ("case = program, small workload, and strange surroundings: locale, time zone and other variables, working directory, relative paths, links, odd names of files and directories, umask, kind of standard input and output, "
        "number of processors, limits, ignored and blocked signals, order in which the files were created, their times, contents of fresh memory; compared with the same run in ordinary ones; non-trivial = at least three of them are strange")

def prepare():
    # fresh stack memory holds zeros for the one and a pattern for the other
    p = {n: build.PROGRAMS[n]() for n in NAMES}
    specs = {n + "-zero": (p[n], build.BASE + build.PLAIN + ["-ftrivial-auto-var-init=zero"], build.LIBS) for n in NAMES}
    specs.update({n + "-pattern": (p[n], build.BASE + build.PLAIN + ["-ftrivial-auto-var-init=pattern"], build.LIBS) for n in NAMES})
    r = build.build(specs)
    for n in NAMES: r[n] = r[n + "-zero"]  # prepare some inputs
    r.update(locales())
    return r

LOCALES = [("de_DE", "UTF-8"), ("de_DE", "ISO-8859-1"), ("tr_TR", "UTF-8"), ("hi_IN", "UTF-8"), ("ja_JP", "EUC-JP")]

def locales():
    """languages with other decimal points, digit groups, letters and encodings"""
    where = os.path.join(build.BUILD, "locales")
    for l, m in LOCALES:
        at = os.path.join(where, l + "." + m)
        if not os.path.isdir(at):
            os.makedirs(where, exist_ok=True); tmp = "%s.%d.tmp" % (at, os.getpid())
            subprocess.run(["localedef", "-i", l, "-f", m, tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.isdir(tmp): os.rename(tmp, at)
    return {"locales": where}

VARS = [("LC_ALL", "xx_YY.UTF-8"), ("LC_ALL", "C"), ("LC_ALL", ""), ("LANG", "de_DE"), *(("LC_ALL", "%s.%s" % l) for l in LOCALES), ("LC_NUMERIC", "de_DE.UTF-8"), ("LC_CTYPE", "POSIX"), ("LANGUAGE", "de"), ("TZ", "Pacific/Kiritimati"), ("TZ", ":/nowhere"), ("TERM", ""), ("TERM", "nonsense"), ("COLUMNS", "0"), ("COLUMNS", "-7"),
        ("LINES", "x"), ("HOME", ""), ("HOME", "/nowhere"), ("PATH", ""), ("IFS", "a"), ("POSIXLY_CORRECT", "1"), ("TMPDIR", "/nowhere"), ("TMPDIR", ""), ("PWD", "/nowhere"), ("PWD", "@"), ("PWD", "@"), ("OLDPWD", "@"), ("TMPDIR", "@"), ("XDG_CACHE_HOME", "@"), ("HOME", "@"), ("MALLOC_ARENA_MAX", "1"), ("MALLOC_PERTURB_", "165"), ("MALLOC_PERTURB_", "255"), ("OMP_NUM_THREADS", "1"), ("NO_COLOR", "1"), ("USER", "a b")]
DIRS = ["plain", "two words", "b\u00f6se \u20ac", "\udcff\udce4", "%s%n%d", "it's \"so\"", "-I", "--help", "a=b", "*?[x]", "back\\slash", "x.md5", ".hidden", "\ttab", "n" * 200, "$HOME", "a;b|c&d", "~", "d.txt"]
FILES = ["f%d", "f %d", "\udcfc%d", "%d", "-O%d", "%%s%d", "f%d.md5", ".%d", "f%d" + "m" * 150, "'%d", "#%d", "\u65e5\u672c%d", "f%d.txt", "=%d", "\\%d"]

def strategy(tier):
    size = st.one_of(st.integers(0, 40), st.integers(100, 2000))
    db = st.tuples(size, st.integers(0, 999)).map(list)
    prog = st.sampled_from(["merger", "merger", "converter", "converter", "index", "be2le", "testset", "extractor", "extractor", "markov-generator", "markov-lookup", "lookup", "benchmark"])
    odd = lambda *v: weighted((2, st.just(v[0])), (3, st.sampled_from(v[1:])))
    return st.fixed_dictionaries({"prog": prog, "dbs": st.lists(db, min_size=1, max_size=6), "opt": st.integers(0, 7), "vars": st.lists(st.sampled_from(range(len(VARS))), max_size=5, unique=True), "bare": st.booleans(),
        "indir": st.sampled_from(range(len(DIRS))), "outdir": st.sampled_from(range(len(DIRS))), "file": st.sampled_from(range(len(FILES))), "rel": odd("abs", "here", "dot", "up", "in", "slashes"), "link": odd("none", "dir", "file", "out"),
        "umask": odd(0o022, 0, 0o077, 0o027), "stdin": odd("pipe", "null", "file", "open"), "stdout": odd("pipe", "file", "null", "tty"), "cpus": odd(0, 1, 2, 3), "nofile": odd(0, 30, 1024), "stack": odd(0, 256), "sig": odd("none", "ignored", "blocked"),
        "argv0": odd(None, "", "-x", "/nowhere/a b", "%s"), "order": st.integers(0, 720), "mtime": odd(None, 0, -5 * 10**8, 5 * 10**9)})


def check(case, env):
    j = Job(env, case); g = j.prog
    args = [str(a) for a in j.make(j.inputs, j.out())]
    data = tree(env.path("i"))
    strange = 0
    # ---- ordinary surroundings
    def run(exe, args, cwd, e, stdin, before=lambda: None, stdout="pipe", argv0=None):
        rd, wr = os.pipe(); master = slave = None
        if stdin == "null": os.close(rd); rd = os.open("/dev/null", os.O_RDONLY)
        elif stdin == "file": os.close(rd); rd = os.open(env.write("stdin", j.stdin), os.O_RDONLY)
        elif j.stdin: os.write(wr, j.stdin)
        if stdin != "open": os.close(wr); wr = -1
        log = env.path("log")
        if stdout == "tty": master, slave = pty.openpty()
        so = slave if stdout == "tty" else os.open(log if stdout != "null" else "/dev/null", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        got = []
        def drain():
            while True:
                try: b = os.read(master, 65536)
                except OSError: return
                if not b: return
                got.append(b)
        p = subprocess.Popen([env.progs[exe] if argv0 is None else argv0] + [os.fsencode(a) for a in args], executable=env.progs[exe], stdin=rd, stdout=so, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True, preexec_fn=before, restore_signals=False)
        os.close(rd); os.close(so)
        t = None
        if master is not None: t = threading.Thread(target=drain, daemon=True); t.start()
        try:
            _, err = p.communicate(timeout=60)
        except subprocess.TimeoutExpired: err = None
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            if err is None: p.communicate()
            p.wait()
            if wr >= 0: os.close(wr)
            if t: t.join(5); os.close(master)
        if stdout == "tty": text = b"".join(got).replace(b"\r\n", b"\n")
        else: text = open(log, "rb").read() if os.path.exists(log) else b""
        shown = "%s %s" % (g, " ".join(a.encode("utf-8", "backslashreplace").decode() for a in args))
        require(err is not None, shown + ": does not end within 60 s")
        require(p.returncode >= 0, "%s: killed by signal %d\n%s" % (shown, -p.returncode, err.decode("utf-8", "replace")[-600:]))
        return p.returncode, text, err.decode("utf-8", "replace"), shown
    plain_env = {"LC_ALL": "C.UTF-8", "PATH": "/usr/bin:/bin", "HOME": "/", "TMPDIR": env.path("t"), "TERM": "dumb"}
    def results(out, cwd, text):
        if g == "lookup": return re.findall(rb"Found \d+ times|Not found", text)
        if g == "markov-lookup": return re.findall(rb"p = \S+", text)
        if g == "benchmark": return re.findall(rb"^Found: \d+|^Not found: \d+", text, re.M)
        if g == "converter":
            c = Counter()
            for name, d in tree(out).items():
                ascending(recs(d), name)
                for k, n in recs(d): c[k] += n
            return c
        d = open(out, "rb").read()
        if g == "extractor" and j.opt & 1: d = bz2.decompress(d)
        return d
    ref = run(g + "-zero", args, env.path("cwd"), plain_env, "open" if j.keep else "pipe")
    require(ref[0] == 0 or g == "markov-lookup", "%s: exit status %d\n%s" % (ref[3], ref[0], ref[2][-500:]))
    good = results(j.out(), env.path("cwd"), ref[1])
    # ---- strange ones
    X = env.path("x"); os.makedirs(X)
    ind, outd = DIRS[case["indir"]], DIRS[case["outdir"]]
    if outd == ind: outd += "2"
    I, O, W = os.path.join(X, ind), os.path.join(X, outd), os.path.join(X, "work")
    for d in (I, O, W, os.path.join(X, "other", "deep"), os.path.join(X, "other", outd)): os.makedirs(d)
    names = sorted(data)
    r = random.Random(case["order"])
    ext = {"merger": ".md5", "converter": ".txt", "extractor": ".txt"}.get(g, "")
    new = {n: FILES[case["file"]] % k + ext for k, n in enumerate(names)}
    order = list(names); r.shuffle(order)
    real = os.path.join(X, "real"); os.makedirs(real)
    for n in order:
        at = os.path.join(real if case["link"] == "file" else I, new[n])
        with open(at, "wb") as f: f.write(data[n])
        if case["mtime"] is not None: os.utime(at, (case["mtime"], case["mtime"]))
        if case["link"] == "file": os.symlink(at, os.path.join(I, new[n]))
    inn, outn = I, O
    if case["link"] == "dir": inn = os.path.join(X, "ln in"); os.symlink(I, inn)
    if case["link"] == "out": outn = os.path.join(X, "ln out"); os.symlink(O, outn)
    cwd = {"in": I, "up": os.path.join(W, "a", "b")}.get(case["rel"], W)
    os.makedirs(cwd, exist_ok=True)
    if g == "extractor" and cwd == I: cwd = W
    def path(p):
        if case["rel"] in ("here", "in", "up"): q = os.path.relpath(os.path.realpath(os.path.dirname(p)) + "/" + os.path.basename(p), os.path.realpath(cwd)); return q if not q.startswith("-") else "./" + q
        if case["rel"] == "dot": return os.path.join(os.path.dirname(p), ".", os.path.basename(p))
        if case["rel"] == "slashes": return p.replace("/", "//") if p.startswith("/") else p
        return p
    def moved(a):
        if a == env.path("i"): return path(inn)
        if a.startswith(env.path("i/")): return path(os.path.join(inn, new[a[len(env.path("i/")):]]))
        if a == env.path("o"): return path(outn)
        if a.startswith(env.path("o/")): return path(os.path.join(outn, a[len(env.path("o/")):]))
        if a == env.path("t"): return path(os.path.join(X, "tmp"))
        return a
    os.makedirs(os.path.join(X, "tmp"))
    args2 = [moved(a) for a in args]
    e = {} if case["bare"] else dict(plain_env)
    if g == "merger" and case["opt"] & 2:
        # without a directory for intermediate files it takes the usual one
        k = args2.index("-T"); del args2[k:k + 2]; e["TMPDIR"] = os.path.join(X, "tmp")
    for v in case["vars"]:
        k, w = VARS[v]
        if k == "TMPDIR" and g == "merger" and case["opt"] & 2: continue
        e[k] = w.replace("@", os.path.join(X, "other", "deep"))
    e["LOCPATH"] = env.progs["locales"]
    ordinary = os.sched_getaffinity(0)
    def before():
        os.umask(case["umask"])
        if case["cpus"]: os.sched_setaffinity(0, sorted(ordinary)[:case["cpus"]])
        if case["nofile"]: resource.setrlimit(resource.RLIMIT_NOFILE, (case["nofile"], case["nofile"]))
        if case["stack"]: resource.setrlimit(resource.RLIMIT_STACK, (case["stack"] * 1024,) * 2)
        if case["sig"] == "ignored":
            for s in (signal.SIGINT, signal.SIGHUP, signal.SIGCHLD, signal.SIGPIPE, signal.SIGTERM, signal.SIGUSR1): signal.signal(s, signal.SIG_IGN)
        if case["sig"] == "blocked": signal.pthread_sigmask(signal.SIG_BLOCK, {signal.SIGINT, signal.SIGHUP, signal.SIGCHLD, signal.SIGPIPE, signal.SIGTERM, signal.SIGUSR1, signal.SIGALRM})
    answers = g in ("lookup", "markov-lookup", "benchmark")
    stdin, stdout = case["stdin"], case["stdout"]
    if stdin == "open" and not j.keep: stdin = "pipe"
    if g in ("lookup", "markov-lookup") and stdin == "null": stdin = "file"
    if answers and stdout == "null": stdout = "file"
    inputs2 = tree(I)
    got = run(g + "-pattern", args2, cwd, e, stdin, before, stdout, case["argv0"])
    require(got[0] == ref[0], "%s: exit status %d instead of %d\n%s" % (got[3], got[0], ref[0], got[2][-700:]))
    diff_tree(inputs2, {k: v for k, v in tree(I).items() if not (outn == I)}, "inputs")
    out2 = moved(j.out()) if j.out() else None
    if out2: out2 = os.path.join(cwd, out2)
    have = results(out2, cwd, got[1])
    if g == "extractor":
        ready = open(os.path.join(cwd, ".ready"), "rb").read().split(b"\n")
        require(ready.pop() == b"", "the list of ready files ends within a line")
        back = {os.fsencode(new[n]): n for n in names}
        src = os.fsencode(args2[args2.index("-S") + 1])
        order = []
        for f in ready:
            n = back.get(os.path.basename(f))
            require(n and os.path.dirname(f) == src.rstrip(b"/") , "'%r' is recorded as ready" % f); order.append(n)
        require(sorted(order) == names, "recorded as ready: %r" % ready)
        want = b"".join(p + b"\n" for n in order for p in passwords(data[n]))
        require(have == want, "%s: the output is not that of the same run in ordinary surroundings" % got[3])
    else:
        require(have == good, "%s: the result is not that of the same run in ordinary surroundings (%s)" % (got[3], "%r instead of %r" % (have, good) if answers else "%d instead of %d bytes or hashes" % (len(have), len(good))))
    left = sorted(os.listdir(os.path.join(X, "tmp"))) if "-T" in args2 else []
    require(not left, "intermediate files are left: %s" % left)
    extra = set(os.listdir(cwd)) - {".ready"} if cwd == W else set()
    spare = tree(os.path.join(X, "other"))
    require(not spare, "files in a directory that is not concerned: %s" % sorted(spare))
    if cwd == W: require(not extra, "files in the working directory: %s" % sorted(extra))
    strange = len(case["vars"]) + sum(case[k] != v for k, v in (("rel", "abs"), ("link", "none"), ("umask", 0o022), ("stdin", "pipe"), ("stdout", "pipe"), ("cpus", 0), ("nofile", 0), ("stack", 0), ("sig", "none"), ("mtime", None), ("indir", 0), ("outdir", 0)))
    env.label(g); env.nontrivial = strange >= 3
