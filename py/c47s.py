"""C47: the environment makes no difference to the web service."""
from common import *
import build, resource, signal
import http_client as hc
import c47
PROGRAMS = []
CASES = {"quick": 2500, "thorough": 20000}
RULE = ("case = database, index or none, strange surroundings of the web service (locale, time zone and other variables, working directory, names, links, umask, processors, limits, signals, contents of fresh memory) and lookups, requests of other kinds and for information; "
        "non-trivial = at least three of the surroundings are strange")

def prepare():
    p = build.PROGRAMS["server"]()
    r = c47.locales()
    r.update(build.build({"server-zero": (p, build.BASE + build.PLAIN + ["-ftrivial-auto-var-init=zero"], build.LIBS), "server-pattern": (p, build.BASE + build.PLAIN + ["-ftrivial-auto-var-init=pattern"], build.LIBS),
                          "index": (build.PROGRAMS["index"](), build.BASE + build.PLAIN, build.LIBS)}))
    return r

def strategy(tier):
    odd = lambda *v: weighted((2, st.just(v[0])), (3, st.sampled_from(v[1:])))
    return st.fixed_dictionaries({"db": model(), "bits": odd(None, 1, 7), "vars": st.lists(st.sampled_from(range(len(c47.VARS))), max_size=5, unique=True), "bare": st.booleans(), "dir": st.sampled_from(range(len(c47.DIRS))), "rel": st.booleans(), "link": st.booleans(),
        "umask": odd(0o022, 0, 0o077), "cpus": odd(0, 1, 2), "nofile": odd(0, 300, 1024), "stack": odd(0, 512), "sig": odd("none", "ignored", "blocked"), "argv0": odd(None, "", "-x", "%s"), "mem": st.sampled_from(["zero", "pattern"]), "threads": odd(None, 0, 1, 3), "workers": odd(None, 1, 2),
        "mtime": st.one_of(st.integers(0, 2**31 + 10), st.sampled_from([0, 951782400, 1711846800, 1729990800])), "look": st.lists(st.tuples(st.integers(0, 5000), st.sampled_from([0, 0, 1, -1])), min_size=1, max_size=12)})

def check(case, env):
    d = build_model(case["db"]); keys = sorted(d)
    d.update({(i << 100) + 12345: c for i, c in enumerate((1000, 1234567, 4294967295, 999), 1)}); keys = sorted(d)
    X = env.path("x"); D = os.path.join(X, c47.DIRS[case["dir"]]); W = os.path.join(X, "w")
    for p in (D, W): os.makedirs(p)
    db = os.path.join(D, "db")
    with open(db, "wb") as f: f.write(file_of(d))
    os.utime(db, (5, case["mtime"]))
    index = None
    if case["bits"]:
        index = os.path.join(D, "index"); env.run("index", ["-I", db, "-O", index, "-B", case["bits"]])
    def path(p):
        if p is None: return None
        if case["link"]: os.symlink(p, p + ".ln"); p += ".ln"
        return os.fsencode("./" + os.path.relpath(p, W) if case["rel"] else p)
    e = {} if case["bare"] else {"LC_ALL": "C.UTF-8", "PATH": "/usr/bin:/bin", "HOME": "/"}
    for v in case["vars"]: e[c47.VARS[v][0]] = c47.VARS[v][1].replace("@", D)
    e["LOCPATH"] = env.progs["locales"]
    ordinary = os.sched_getaffinity(0)
    def before():
        os.umask(case["umask"])
        if case["cpus"]: os.sched_setaffinity(0, sorted(ordinary)[:case["cpus"]])
        if case["nofile"]: resource.setrlimit(resource.RLIMIT_NOFILE, (case["nofile"],) * 2)
        if case["stack"]: resource.setrlimit(resource.RLIMIT_STACK, (case["stack"] * 1024,) * 2)
        sigs = {signal.SIGHUP, signal.SIGCHLD, signal.SIGPIPE, signal.SIGUSR1}
        if case["sig"] == "ignored":
            for s in sigs: signal.signal(s, signal.SIG_IGN)
        if case["sig"] == "blocked": signal.pthread_sigmask(signal.SIG_BLOCK, sigs)
    po = {"env": e, "cwd": W, "preexec_fn": before, "restore_signals": False, "executable": env.progs["server-" + case["mem"]]}
    a0 = case["argv0"]
    env.progs["server-run"] = po["executable"] if a0 is None else a0
    sv = hc.Server(env, path(db), path(index), "/b", case["workers"], case["threads"], prog="server-run", popen=po)
    try:
        def ask(target, method="GET"):
            s = sv.connect()
            try: s.sendall(hc.request(method, target, "1.1", [], b"")); return hc.receive(s, sv)
            finally: s.close()
        for i, by in case["look"] + [(keys.index((i << 100) + 12345), 0) for i in range(1, 5)]:
            k = (keys[i % len(keys)] + by) % (1 << 128)
            hc.lookup_answer(ask("/b/lookup?hash=" + hx(k)), k, d.get(k, 0))
        hc.info_answer(ask("/b/info"), len(d), case["mtime"])
        hc.not_found(ask("/b/lookup?hash=%fc" + "0" * 31), "hash that is none")
        require(ask("/b/info", "POST")[0] == 400, "POST: status is not 400")
        require(ask("/nope")[0] == 404, "other path: status is not 404")
        sv.finish()
        require(not os.listdir(W), "files in the working directory: %s" % os.listdir(W))
    finally:
        sv.stop()
    n = len(case["vars"]) + sum(bool(case[k]) for k in ("bits", "dir", "rel", "link", "cpus", "nofile", "stack", "argv0")) + (case["sig"] != "none") + (case["umask"] != 0o022)
    env.nontrivial = n >= 3
