"""C38: programs with several threads, under ThreadSanitizer."""
from common import *
import build, socket, subprocess, threading, time, signal
import http_client as hc
from pyrun import SAN_ENV
PROGRAMS = []
CASES = {"quick": 400, "thorough": 12000}
RULE = ("case = converter or merger with a generated workload, number of threads and keys typed at chosen moments, or server with workers, threads and clients that connect, ask, ask badly, stay silent or vanish at the same time; "
        "built with ThreadSanitizer, which watches every access; non-trivial = at least two threads had work")
FLAGS = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"]
NAMES = ["converter", "merger", "server"]
TSAN = {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_thread_leaks=0:history_size=4:suppressions=" + build.VERIF + "/cxx/tsan.supp"}

def prepare():
    return {k[:-5]: v for k, v in build.build({n + "-tsan": (build.PROGRAMS[n](), build.BASE + FLAGS, build.LIBS) for n in NAMES}).items()}

def strategy(tier):
    size = st.one_of(st.integers(0, 50), st.integers(200, 6000))
    # files of the same size reach the same place at about the same time
    alike = st.tuples(st.integers(2, 9), st.sampled_from([0, 20, 300, 2000])).map(lambda t: [[t[1], i] for i in range(t[0])])
    keys = st.lists(st.tuples(st.integers(0, 60), st.sampled_from("ppp   qx\n")).map(list), max_size=5)
    tool = st.fixed_dictionaries({"prog": st.sampled_from(["converter", "converter", "merger"]), "files": st.one_of(st.lists(st.tuples(size, st.integers(0, 999)).map(list), min_size=1, max_size=9), alike), "threads": st.integers(1, 8), "ram": st.sampled_from([1, 1, 100000]),
                                  "n": st.sampled_from([2, 2, 3, 50]), "keys": keys})
    ask = st.tuples(st.sampled_from(["hit", "hit", "miss", "info", "bad", "path", "head", "silent", "vanish", "half"]), st.integers(0, 99)).map(list)
    server = st.fixed_dictionaries({"prog": st.just("server"), "workers": st.integers(1, 6), "threads": st.integers(0, 6), "index": st.booleans(), "verbose": st.integers(0, 2), "clients": st.lists(st.lists(ask, min_size=1, max_size=8), min_size=2, max_size=8)})
    return st.one_of(tool, server)

def check(case, env):
    if case["prog"] == "server": return server(case, env)
    g = case["prog"]
    for i, (n, s) in enumerate(case["files"]):
        r = random.Random("%d/%d" % (n, s))
        if g == "merger": env.write("i/f%d.md5" % i, file_of(bulk(n, s, 0)))
        else: env.write("i/f%d.txt" % i, b"".join(r.choice([b"u:%d\n", b"u:$HEX[6%d]\n", b"u:p%d\r\n"]) % r.randrange(10 + n) for _ in range(n)))
    os.makedirs(env.path("o")); os.makedirs(env.path("t"))
    args = ["-S", env.path("i"), "-O", env.path("o/x"), "-T", env.path("t"), "-n", case["n"]] if g == "merger" else ["-S", env.path("i"), "-D", env.path("o"), "-T", case["threads"], "--ram", case["ram"], "--auto-hex", "--auto-md5"]
    e = dict(SAN_ENV); e.update(TSAN); e["TMPDIR"] = env.path("t")
    p = subprocess.Popen([env.progs[g]] + [str(a) for a in args], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=open(env.path("err"), "wb"), env=e, start_new_session=True, cwd=env.dir)
    balance, typed_ = 0, []
    try:
        for delay, k in case["keys"]:
            time.sleep(delay / 1000)
            if p.poll() is not None: break
            try: p.stdin.write(k.encode()); p.stdin.flush()
            except OSError: break
            typed_.append(k)
            if k == "q": break
        end = time.time() + 60
        # a paused program is made to go on, until it ends
        while p.poll() is None and time.time() < end:
            try: p.wait(1.0 if typed_ else 60)
            except subprocess.TimeoutExpired:
                try: p.stdin.write(b"p" if g == "merger" else b" "); p.stdin.flush()
                except OSError: pass
        ended = p.poll() is not None
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
        try: p.stdin.close()
        except OSError: pass
    err = open(env.path("err"), "rb").read(1 << 20).decode("utf-8", "replace")
    report(err, g)
    require(ended, "%s does not end" % g)
    require(p.returncode == 0, "%s: exit status %d\n%s" % (g, p.returncode, err[-500:]))
    busy = sum(1 for n, s in case["files"] if n)
    env.label(g)
    if typed_: env.label("keys typed")
    env.nontrivial = busy >= 2 and (case["threads"] >= 2 or g == "merger")

def report(text, what):
    require("ThreadSanitizer" not in text, "%s: %s" % (what, text[max(0, text.find("WARNING: ThreadSanitizer")):][:2500]))

def server(case, env):
    d = bulk(200, 1, 0)
    env.write("db", file_of(d))
    keys = sorted(d)
    index = None
    if case["index"]:
        width = 128 - 5
        table, pos, data = [], 0, env.read("db")
        ks = [k for k, _ in recs(data)]
        for p in range(1 << 5):
            while pos < len(ks) and ks[pos] >> width < p: pos += 1
            table.append(pos * 20 if pos < len(ks) and ks[pos] >> width == p else M64)
        index = env.write("idx", b"".join(struct.pack("<Q", x) for x in table))
    sv = hc.Server(env, env.path("db"), index, workers=case["workers"], threads=case["threads"], verbose=case["verbose"], env_extra=TSAN)
    wrong = []
    base = "/v1/pwned/api"
    def client(asks):
        for what, k in asks:
            try:
                s = sv.connect()
                try:
                    if what == "silent": time.sleep(0.002 * k / 10); continue
                    if what == "vanish": s.sendall(hc.request("GET", base + "/lookup?hash=" + hx(keys[k]))); hc.reset(s); continue
                    if what == "half": s.sendall(b"GET /v1/pwn"); hc.reset(s); continue
                    key = keys[k] if what == "hit" else keys[k] + 1
                    t = {"hit": base + "/lookup?hash=" + hx(key), "miss": base + "/lookup?hash=" + hx(key), "info": base + "/info", "bad": base + "/lookup?hash=zz", "path": "/nowhere", "head": base + "/info"}[what]
                    s.sendall(hc.request("HEAD" if what == "head" else "GET", t))
                    if what == "head": s.settimeout(30); s.recv(100); continue
                    a = hc.receive(s, sv)
                    if what in ("hit", "miss"): hc.lookup_answer(a, key, d.get(key, 0))
                finally: s.close()
            except (Fail, OSError) as e:
                wrong.append("%s: %s" % (what, e)); return
    try:
        ts = [threading.Thread(target=client, args=(c,)) for c in case["clients"]]
        for t in ts: t.start()
        for t in ts: t.join(120)
        report(sv.errors(), "server")
        require(not wrong, "under several clients: %s" % wrong[:2])
        sv.finish()
    finally: sv.stop()
    env.label("server")
    env.nontrivial = case["threads"] >= 1 and sum(1 for c in case["clients"] for a in c if a[0] in ("hit", "miss", "info")) >= 2
