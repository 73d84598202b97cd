"""C44: files that are larger than 2 or 4 GiB."""
from common import *
import build
import http_client as hc
PROGRAMS = []
NAMES = ["merger", "index", "lookup", "server", "testset", "benchmark", "be2le"]
CASES = {"quick": 300, "thorough": 6000}
RULE = ("case = a file that begins with so many empty records (no disk space is used for them) that the others lie at or beyond 2, 4 or more GiB, and what a program does with it; "
        "non-trivial = the file is larger than 2 GiB and a record beyond it is asked for")
G = 1 << 30

def prepare():
    return {k[:-4]: v for k, v in build.build({n + "-big": (build.PROGRAMS[n](), build.BASE + ["-O2", "-g1"], build.LIBS) for n in NAMES}).items()}

def strategy(tier, light=True):
    # the empty records end close to one of these sizes
    edge = st.sampled_from([1 << 31, 1 << 32, 1 << 32, 1 << 33, 3 << 32, 1 << 36, 20 << 31, 20 << 32, 20 << 33])
    return st.fixed_dictionaries({"what": st.sampled_from(["lookup", "server", "testset", "benchmark"] if light else ["index", "index", "index", "merger"]), "edge": edge, "off": st.integers(-30, 30), "db": password_db(),
                                  "more": model(), "bits": st.integers(1, 10), "index": st.booleans(), "algo": st.sampled_from(["binsearch", "smart"]), "n": st.integers(1, 40), "whole": st.sampled_from([1 << 32, 1 << 31, 1 << 32, 3 << 31] if tier == "thorough" else [1 << 32, 1 << 31])})

def check(case, env):
    what = case["what"]
    env.label(what)
    d = {k: c for k, c in build_model(case["more"]).items() if c} if case["n"] % 3 == 0 else {}
    d.update(build_password_db(case["db"])); d.pop(0, None)
    keys = sorted(d)
    hole = ((case["whole"] if what == "index" else 1 << 31 if what == "merger" else case["edge"]) // 20 + case["off"])
    def sparse(name, items, n):
        p = env.path(name)
        with open(p, "wb") as f:
            f.truncate(n * 20); f.seek(n * 20); f.write(dump(items))
        return p
    db = sparse("db", [(k, d[k]) for k in keys], hole)
    size = 20 * (hole + len(d))
    env.nontrivial = bool(d) and size > 2 * G
    env.label("> 4 GiB" if size > 4 * G else "> 2 GiB" if size > 2 * G else "2 GiB and less")
    def entries(bits):
        first = {}
        for i, k in enumerate(keys): first.setdefault(k >> (128 - bits), 20 * (hole + i))
        first[0] = 0
        return b"".join(struct.pack("<Q", first.get(b, M64)) for b in range(1 << bits))
    if what == "index":
        env.run("index", ["-I", db, "-O", env.path("i"), "-B", case["bits"]], timeout=240)
        got, want = env.read("i"), entries(case["bits"])
        require(len(got) == len(want), "the index of %d bytes with %d bits has %d bytes" % (size, case["bits"], len(got)))
        for b in range(1 << case["bits"]):
            g, w = got[8 * b:8 * b + 8], want[8 * b:8 * b + 8]
            require(g == w, "entry %d of the index of a file of %d bytes is %d instead of %d" % (b, size, struct.unpack("<Q", g)[0], struct.unpack("<Q", w)[0]))
        return
    if what == "merger":
        other = {k: 1 for k in keys[::2]}
        env.write("e", file_of(other))
        env.run("merger", ["-I", db, "-I", env.path("e"), "-O", env.path("o"), "-T", env.path("t")], keep_open=True, timeout=240)
        got = recs(env.read("o"))
        want = [(0, 0)] * (hole > 0) + [(k, (d[k] + other.get(k, 0)) & 0xffffffff) for k in keys]
        require(got == want, "merging a file of %d bytes with one of %d records gives %d records instead of %d, or others" % (size, len(other), len(got), len(want)))
        return
    index = env.write("x", entries(case["bits"])) if case["index"] else None
    lines = [bytes.fromhex(p) for p, _ in case["db"]["pw"]] + [b"never"]
    x = ["-X", index] if index else []
    if what == "lookup":
        require_answers(lookup(env, ["-I", db] + x, lines), lines, d, "file of %d bytes" % size)
    elif what == "server":
        sv = hc.Server(env, db, index)
        try:
            def ask(target):
                s = sv.connect()
                try: s.sendall(hc.request("GET", sv.base + target)); return hc.receive(s, sv)
                finally: s.close()
            hc.info_answer(ask("/info"), hole + len(d), int(os.stat(db).st_mtime))
            for k in keys[:20] + [md5(b"never")]: hc.lookup_answer(ask("/lookup?hash=" + hx(k)), k, d.get(k, 0))
            sv.alive()
        finally: sv.stop()
    elif what == "benchmark":
        ts = keys[:40] + [1, md5(b"never"), (1 << 128) - 2]
        test = env.write("t", dump([(k, 1) for k in ts]))
        hit = sum(k in d for k in ts)
        out = env.run("benchmark", ["-I", db, "-S", test, "-n", 1] + (x or ["-A", case["algo"]])).out
        m = re.search(rb"^Found: (\d+)\s*\nNot found: (\d+)", out, re.M)
        require(m is not None and (int(m[1]), int(m[2])) == (hit, len(ts) - hit), "file of %d bytes: %s instead of %d found, %d not found" % (size, m and m[0], hit, len(ts) - hit))
    else:
        n = case["n"]
        env.run("testset", ["-I", db, "-O", env.path("o"), "-N", n, "--non-existent"])
        first = [k for k, _ in recs(env.read("o"))]
        for k in first: require(k not in d, "%s is in the file" % hx(k))
        skip = set(first[::2])
        both = dict(d); both.update((k, 5) for k in skip)
        db2 = sparse("db2", sorted(both.items()), hole)
        env.run("testset", ["-I", db2, "-O", env.path("o"), "-N", n, "--non-existent"])
        got = [k for k, _ in recs(env.read("o"))]
        require(got[:len(first) - len(skip)] == [k for k in first if k not in skip], "file of %d bytes: hashes in it are extracted as not existing, or others are missing" % size)
        env.run("testset", ["-I", db, "-O", env.path("o"), "-N", n])
        got = recs(env.read("o"))
        require(len(got) == n, "%d of %d records extracted from a file of %d bytes" % (len(got), n, size))
        for k, c in got: require((k, c) == (0, 0) or d.get(k) == c, "%s with count %d is not in the file" % (hx(k), c))
        ascending([(0, 0)] + [r for r in got if r[0]], "test set")
