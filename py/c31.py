"""C31: the whole chain from leak files to answers."""
from common import *
import http_client as hc
PROGRAMS = ["converter", "merger", "index", "lookup", "benchmark", "server"]
CASES = {"quick": 640, "thorough": 8000}
RULE = ("case = leak files spread over 1..4 conversion runs with budgets of their own, merged at once or in stages with 2..50 files at a time, index width, typed passwords; asked: lookup program, benchmark (all algorithms), web service; "
        "non-trivial = a password occurs in two different runs and a typed one occurs nowhere")

def strategy(tier):
    vocab = st.lists(st.text(alphabet="abAB12 :;\u00fc", min_size=1, max_size=4), min_size=1, max_size=8)
    line = vocab.flatmap(lambda v: st.lists(st.tuples(st.sampled_from(["u", "me@x.de", ""]), st.sampled_from(v)), max_size=15).map(lambda l: {"text": "".join("%s:%s\n" % x for x in l)}))
    shared = st.lists(st.tuples(st.sampled_from(["u", "v"]), st.sampled_from(["123456", "pass", "geheim", "a b", "qwertz"])), max_size=10).map(lambda l: {"text": "\r\n".join("%s:%s" % x for x in l)})
    big = st.tuples(st.integers(50, 2500), st.sampled_from([20, 500, 100000]), st.integers(0, 99)).map(lambda t: {"bulk": list(t)})
    f = weighted((2, line), (3, shared), (1, big), (1, leak_text(15).map(lambda t: {"text": t})))
    run = st.fixed_dictionaries({"files": st.lists(f, min_size=1, max_size=4), "budget": st.sampled_from([[None, None], [1, 8], [1, 3000], [1, 15000], [1, 20000], [0, 4]]), "dir": st.booleans()})
    return st.fixed_dictionaries({"runs": st.lists(run, min_size=1, max_size=4), "n": st.sampled_from([2, 3, 5, 50]), "stages": st.booleans(), "bits": st.integers(1, 12), "same": st.booleans(), "server": st.sampled_from([0, 0, 1])})

def check(case, env):
    want, seen, pws = {}, [], []
    parts = []
    for r, run in enumerate(case["runs"]):
        datas = [bulk_leak(*f["bulk"]) if "bulk" in f else leak_bytes(f["text"]) for f in run["files"]]
        ram, threads = run["budget"]
        budget = max(1, (10**6 if ram is None else ram) * 1048576 // (threads or 8))
        if sum(d.count(b"\n") + 1 for d in datas) * 56 // budget > 400:
            ram, threads = 1, 100
        out = env.path("md5" if case["same"] else "md5.%d" % r)
        os.makedirs(out, exist_ok=True)
        args = ["-D", out] + (["--ram", ram] if ram is not None else []) + (["-T", threads] if threads else [])
        for i, d in enumerate(datas):
            p = env.write("leak%d/%sf%d.txt" % (r, "s%d/" % i if i else "", i if i < 2 else 0), d)
            if not run["dir"]: args += ["-I", p]
        if run["dir"]: args += ["-S", env.path("leak%d" % r)]
        env.run("converter", args, keep_open=True)
        here = set()
        for d in datas:
            for p in passwords(d):
                k = md5(p); want[k] = want.get(k, 0) + 1; here.add(k)
                if len(pws) < 40: pws.append(p)
        seen.append(here)
        if out not in parts: parts.append(out)
    db = env.path("all.md5")
    nothing = not want
    if case["stages"] and len(parts) > 1:
        stage = []
        for i, p in enumerate(parts):
            if not tree(p): continue
            o = env.path("stage/s%d.md5" % i); os.makedirs(env.path("stage"), exist_ok=True)
            env.run("merger", ["-S", p, "-O", o, "-T", env.path("tmp"), "-n", case["n"]], keep_open=True); stage += ["-I", o]
        if stage: env.run("merger", stage + ["-O", db, "-T", env.path("tmp"), "-n", case["n"]], keep_open=True)
        env.label("merged in stages")
    else:
        names = [os.path.join(p, n) for p in parts for n in tree(p)]
        args = []
        for n in names: args += ["-I", n]
        if names: env.run("merger", args + ["-O", db, "-T", env.path("tmp"), "-n", case["n"]], keep_open=True)
        if len(names) > case["n"]: env.label("several passes")
    if nothing:
        env.label("no passwords"); return
    require(env.read("all.md5") == file_of(want), "the merged file does not hold the counts of the leak files")
    idx = env.path("all.idx")
    env.run("index", ["-I", db, "-O", idx, "-B", case["bits"]])
    lines = list(dict.fromkeys(pws))[:20] + [b"", b"never seen", b" "] + [p + b"x" for p in pws[:3]]
    require_answers(lookup(env, ["-I", db], lines), lines, want, "lookup")
    require_answers(lookup(env, ["-I", db, "-X", idx], lines), lines, want, "lookup with index")
    ts = [md5(l) for l in lines]
    test = env.write("test.md5", dump([(k, 1) for k in ts]))
    hit = sum(k in want for k in ts)
    for a in (["-A", "binsearch"], ["-A", "smart"], ["-X", idx]):
        out = env.run("benchmark", ["-I", db, "-S", test, "-n", 1] + a).out
        m = re.search(rb"^Found: (\d+)\s*\nNot found: (\d+)", out, re.M)
        require(m is not None and (int(m[1]), int(m[2])) == (hit, len(ts) - hit), "benchmark %s reports %s instead of %d found of %d" % (a, m and m.groups(), hit, len(ts)))
    if case["server"]:
        sv = hc.Server(env, db, idx if case["bits"] % 2 else None, workers=3, threads=2)
        try:
            for k in ts:
                s = sv.connect(); s.sendall(hc.request("GET", sv.base + "/lookup?hash=" + hx(k)))
                hc.lookup_answer(hc.receive(s, sv), k, want.get(k, 0)); s.close()
            sv.finish()
        finally: sv.stop()
        env.label("web service")
    both = len(seen) > 1 and any(seen[0] & s for s in seen[1:])
    if both: env.label("shared by two runs")
    env.nontrivial = both and hit < len(ts)
