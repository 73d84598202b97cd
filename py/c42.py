"""C42: how much memory the programs need."""
from common import *
import build, socket
import http_client as hc
import numpy as np
PROGRAMS = []
NAMES = ["converter", "merger", "index", "lookup", "server", "markov-generator", "markov-lookup", "extractor", "testset", "benchmark", "be2le"]
CASES = {"quick": 400, "thorough": 5000}
RULE = ("case = program, size of its input (up to 40 MB, with the thorough tier 160 MB), options, number of passwords or requests; a small program between Python and the program asks the system how much memory it had at most; "
        "non-trivial = the input, or all requests and answers together, are larger than the memory allowed")
MB = 1 << 20

def prepare():
    p = {k[:-6]: v for k, v in build.build({n + "-plain": (build.PROGRAMS[n](), build.BASE + build.PLAIN, build.LIBS) for n in NAMES}).items()}
    p.update(build.build({"rss": ([build.VERIF + "/cxx/rss.cpp"], build.PLAIN, [])}))
    return p

def strategy(tier):
    big = 40 if tier == "quick" else 160
    mb = st.one_of(st.integers(0, 8), st.integers(24, big), st.integers(24, big), st.integers(24, big))
    return st.fixed_dictionaries({
        "prog": st.sampled_from(NAMES + ["converter"] * 4 + ["merger"]), "mb": mb, "seed": st.integers(0, 1 << 30), "files": st.integers(1, 9), "n": st.sampled_from([2, 3, 50]), "share": st.sampled_from([0, 0, 1, 4]),
        "bits": st.integers(1, 19), "clump": st.sampled_from([0, 0, 8, 40]), "ram": st.one_of(st.integers(1, 6), st.integers(8, 24)), "threads": st.integers(1, 8), "kind": st.sampled_from(["distinct", "distinct", "few", "one", "empty", "hex", "md5", "crlf"]),
        "requests": st.sampled_from([20, 400, 3000]), "workers": st.integers(1, 3), "index": st.booleans(), "opt": st.integers(0, 3)})

def table(n, seed, clump, share=0):
    """n records in order; with clump, the first bits of the hashes are alike"""
    g = np.random.default_rng(seed)
    a = np.empty(n, dtype=[("u", "<u8"), ("l", "<u8"), ("c", "<u4")])
    u = g.integers(0, 1 << 64, n, dtype=np.uint64)
    if clump: u = (u >> np.uint64(clump)) | np.uint64((seed * 0x9E3779B97F4A7C15) & M64 & ~(M64 >> clump))
    u.sort()
    a["u"] = u; a["l"] = g.integers(0, 1 << 64, n, dtype=np.uint64); a["c"] = g.integers(1, 50, n)
    return a

def lines(size, seed, kind):
    """about so many bytes of passwords"""
    g = np.random.default_rng(seed)
    if kind == "empty": return b"\n" * size
    if kind == "one": return b"user:password123\n" * (size // 17)
    if kind == "few": return b"".join(b"u%d:pw%d\n" % (i, i * i) for i in range(500)) * max(1, size // 5800)
    n = size // {"distinct": 17, "hex": 24, "md5": 33, "crlf": 18}[kind]
    if n == 0: return b""
    a = g.integers(0, 16, (n, {"distinct": 16, "hex": 23, "md5": 32, "crlf": 17}[kind] + 1), dtype=np.uint8)
    a = np.frombuffer(b"0123456789abcdef", np.uint8)[a]
    a[:, -1] = 10
    if kind == "hex": a[:, :5] = np.frombuffer(b"$HEX[", np.uint8); a[:, -2] = ord("]")
    if kind == "crlf": a[:, -2] = 13; a[:, 3] = ord(":")
    if kind == "distinct": a[:, 3] = ord(":")
    return a.tobytes()

def run(env, prog, args, **kw):
    mark = env.path("peak")
    env.progs["rss-" + prog] = env.progs["rss"]
    r = env.run("rss-" + prog, [mark, env.progs[prog]] + args, timeout=120, env={"MALLOC_ARENA_MAX": "1"}, **kw)
    require(os.path.exists(mark), "no measurement")
    return int(open(mark).read()) * 1024, r

def check(case, env):
    prog, size = case["prog"], case["mb"] * MB
    if prog == "server": return server(case, env)
    os.makedirs(env.path("i")); os.makedirs(env.path("t"))
    n = size // 20
    what, limit, need = "", 17 * MB // 2, size
    if prog == "merger":
        k = case["files"]
        for i in range(k):
            t = table(n // k, case["seed"] + (0 if case["share"] and i % case["share"] == 0 else i), case["clump"])
            t.tofile(env.path("i/f%d.md5" % i))
        args = ["-S", env.path("i"), "-O", env.path("o"), "-T", env.path("t"), "-n", case["n"]]
        what = "merging %d files of %d records, %d at a time" % (k, n // k, case["n"])
        limit += k * 100000
        kw = dict(keep_open=True)
    elif prog == "converter":
        for i in range(case["files"]):
            env.write("i/f%d.txt" % i, lines(size // case["files"], case["seed"] + i, case["kind"]))
        args = ["-S", env.path("i"), "-D", env.path("t"), "--ram", case["ram"], "-T", case["threads"]] + [["--auto-hex"], ["--force-hex", "--force-md5"], ["--auto-hex", "--auto-md5"], []][case["opt"]]
        what = "converting %d files of %d bytes (%s), --ram %d, %d threads" % (case["files"], size // case["files"], case["kind"], case["ram"], case["threads"])
        limit += case["ram"] * MB * 21 // 10 + MB
        kw = dict(keep_open=True)
    else:
        kw = {}
        if prog in ("extractor", "markov-generator"):
            data = lines(size if prog == "extractor" else size // 4, case["seed"], case["kind"])
            if prog == "extractor":
                if case["opt"] == 1: limit += 8 * MB  # bzip2
                for i in range(case["files"]): env.write("i/f%d.txt" % i, data[:len(data) // case["files"]])
                args = ["-S", env.path("i"), "-O", env.path("o")] + (["-C"] if case["opt"] == 1 else []) + (["--ignore-ready"] if case["opt"] == 2 else [])
            else: args = ["-I", env.write("i/f", data), "-O", env.path("o")] + ["-v"] * (case["opt"] % 2); need = len(data)
            what = "%d bytes of passwords (%s)" % (len(data), case["kind"])
        elif prog == "markov-lookup":
            env.write("i/f", b"abc\nbca\ncab\nabcabc\naabbcc\n")
            env.run("markov-generator", ["-I", env.path("i/f"), "-O", env.path("m")])
            args = [env.path("m")]
            data = lines(size // 16, case["seed"], "distinct" if case["kind"] in ("one", "empty") else case["kind"])
            kw = dict(stdin=data); need = len(data)
            what = "%d bytes of passwords" % len(data)
        else:
            t = table(n, case["seed"], case["clump"])
            db = env.path("db"); t.tofile(db)
            what = "file of %d records" % n
            if prog == "index":
                bits = case["bits"] if case["opt"] < 3 else min(case["bits"], 8)
                args = ["-I", db, "-O", env.path("o"), "-B", bits]
                limit += 8 << bits; what += ", %d bits" % bits
            elif prog == "be2le": args = [db, env.path("o")]
            elif prog == "testset":
                args = ["-I", db, "-O", env.path("o"), "-N", [10, 30000, max(1, n), 3000][case["opt"]]] + (["--non-existent"] if case["opt"] == 3 else []) + (["--test-urls"] if case["opt"] == 1 else [])
            elif prog == "benchmark":
                m = min(n, case["requests"])
                t[:: max(1, n // m)].tofile(env.path("s")) if n else env.write("s", b"")
                args = ["-I", db, "-S", env.path("s"), "-n", 3] + [[], ["-A", "binsearch"], [], []][case["opt"]] + index(case, env, db)
            else:
                args = ["-I", db] + index(case, env, db)
                data = lines(size // 64, case["seed"], "distinct")
                kw = dict(stdin=data)
    got, r = run(env, prog, args, **kw)
    env.label(prog); env.nontrivial = need > limit
    require(got <= limit, "%s: %s takes %.1f MB of memory instead of %.1f at most" % (prog, what, got / MB, limit / MB))

def index(case, env, db):
    if not case["index"]: return []
    env.run("index", ["-I", db, "-O", env.path("x"), "-B", min(case["bits"], 8)])
    return ["-X", env.path("x")]

WARM = 600
def memory(sv):
    """the peak so far and the number of open files, of a process of our own"""
    m = re.search(r"VmHWM:\s*(\d+) kB", open("/proc/%d/status" % sv.p.pid).read())
    return int(m[1]) * 1024, len(os.listdir("/proc/%d/fd" % sv.p.pid))

def server(case, env, room=MB):
    """a history of requests of all kinds, on new and on old connections"""
    n = case["mb"] * MB // 20
    t = table(n, case["seed"], case["clump"])
    db = env.path("db"); t.tofile(db)
    sv = hc.Server(env, db, env_extra={"MALLOC_ARENA_MAX": "1"}, index=(index(case, env, db) or [None, None])[1], workers=case["workers"], threads=case["opt"])
    r = random.Random(case["seed"])
    limit = 12 * MB + case["workers"] * 300000
    traffic, warm = 0, max(WARM, case["requests"] // 5)
    try:
        old = None
        for i in range(case["requests"]):
            if i == warm: before = memory(sv)
            k = r.getrandbits(128)
            kind = r.choice(["hash", "hash", "hash", "info", "path", "bad", "head", "post", "long", "vanish", "half"])
            target = sv.base + {"info": "/info", "path": "/x%x" % k, "bad": "/lookup?hash=%x" % (k >> 9), "long": "/lookup?hash=%032x&x=%s" % (k, "y" * r.randrange(3000))}.get(kind, "/lookup?hash=%032x" % k)
            data = hc.request({"head": "HEAD", "post": "POST"}.get(kind, "GET"), target, body=b"z" * r.randrange(4000) if kind == "post" else b"")
            s = sv.connect()
            traffic += len(data)
            try:
                if kind == "vanish": s.sendall(data); hc.reset(s); continue
                if kind == "half": s.sendall(data[:r.randrange(len(data))]); s.shutdown(socket.SHUT_WR); hc.reset(s); continue
                s.sendall(data)
                if kind == "head": s.settimeout(20); traffic += len(s.recv(65536))
                else: traffic += len(hc.receive(s, sv)[2])
            finally: s.close()
        sv.alive()
        got, files = memory(sv)
    finally: sv.stop()
    env.label("server"); env.nontrivial = case["mb"] * MB > limit or traffic + case["requests"] * 8192 > limit
    require(got <= limit, "after %d requests (%d bytes) about a file of %d records, %d workers, the server has taken %.1f MB of memory instead of %.1f at most" % (case["requests"], traffic, n, case["workers"], got / MB, limit / MB))
    if case["requests"] > warm:
        require(got <= before[0] + room, "from request %d to request %d the memory of the server grows by %d bytes" % (warm, case["requests"], got - before[0]))
        require(files <= before[1] + case["workers"], "from request %d to request %d the number of open files of the server grows from %d to %d" % (warm, case["requests"], before[1], files))
