"""C36: command lines."""
from common import *
import http_client as hc
PROGRAMS = ["merger", "converter", "index", "be2le", "testset", "extractor", "markov-generator", "markov-lookup", "lookup", "benchmark", "server"]
CASES = {"quick": 5000, "thorough": 60000}
RULE = ("case = program and a valid command line (any subset of its optional options, any order, short, long, joined or separate spelling), run as it is and spelled differently, or with one thing wrong (unknown option, missing value, "
        "no number, number out of range, option given twice, value for a flag, mandatory option left out, file that does not exist), or with an option that only asks for information; non-trivial = more than one option is given")

S, N, F, M = "text", "number", "flag", "many"
INFO = {"help": ("help",), "warranty": ("warranty",), "license": ("license",)}
# option: (short, kind, values or None for a path, mandatory)
OPTS = {
    "merger": {"src": ("S", S), "input": ("I", M), "output": ("O", S), "tmp": ("T", S), "max-files-at-once": ("n", N, [2, 3, 50, 2147483647], [1, 0, -1, -2147483648]), "ext": ("X", S, [".md5", ".x", ""])},
    "converter": {"src": ("S", S), "input": ("I", M), "dst": ("D", S), "ext": ("", S, [".md5", ".x"]), "ram": ("", N, [1, 100, 100000], []), "threads": ("T", N, [1, 2, 8, 0], []), "force-md5": ("", F), "auto-md5": ("", F), "force-hex": ("", F), "auto-hex": ("", F)},
    "index": {"input": ("I", S), "output": ("O", S), "bits": ("B", N, [1, 2, 7, 12, 20], [0, 64, 65, 66, 128, 4294967295, -1])},
    "testset": {"input": ("I", S), "output": ("O", S), "num": ("N", N, [1, 3, 1000], [0, -1, -2147483648]), "non-existent": ("", F), "test-urls": ("", F), "test-url-prefix": ("", S, ["http://x/?hash=", ""])},
    "extractor": {"source": ("S", S), "output": ("O", S), "compress": ("C", F), "ignore-ready": ("", F)},
    "markov-generator": {"input": ("I", S), "output": ("O", S), "verbose": ("v", F), "output-every": ("N", N, [1, 5, 1000000], [0])},
    "lookup": {"input": ("I", S), "index": ("X", S)},
    "benchmark": {"input": ("I", S), "test-set": ("S", S), "runs": ("n", N, [1, 2, 0, -1], []), "algorithm": ("A", S, ["smart", "binsearch"]), "index": ("X", S)},
    "server": {"input": ("I", S), "index": ("X", S), "address": ("A", S), "workers": ("W", N, [1, 5], []), "threads": ("T", N, [0, 1, 3], [-1])},
}
MANDATORY = {"merger": [["src", "input"], ["output"]], "converter": [["src", "input"], ["dst"]], "index": [["input"], ["output"]], "testset": [["input"], ["output"]], "extractor": [["source"], ["output"]],
             "markov-generator": [["input"], ["output"]], "lookup": [["input"]], "benchmark": [["input"], ["test-set"]], "server": [["input"]]}
INFOS = {"merger": ["help", "warranty"], "converter": ["help"]}
PATHS = {"merger": {"src": "md5", "input": "md5/a.md5", "output": "o/out", "tmp": "t"}, "converter": {"src": "txt", "input": "txt/a.txt", "dst": "o"}, "index": {"input": "md5/a.md5", "output": "o/out"},
         "testset": {"input": "md5/a.md5", "output": "o/out"}, "extractor": {"source": "txt", "output": "o/out"}, "markov-generator": {"input": "txt/a.txt", "output": "o/out"}, "lookup": {"input": "md5/a.md5", "index": "idx"},
         "benchmark": {"input": "md5/a.md5", "test-set": "md5/b.md5", "index": "idx"}, "server": {"input": "md5/a.md5", "index": "idx", "address": None}}
INPUTS = {"merger": ["input"], "converter": [], "index": ["input"], "testset": ["input"], "extractor": ["source"], "markov-generator": ["input"], "lookup": ["input", "index"], "benchmark": ["input", "test-set", "index"], "server": ["input", "index"]}
WRONG = ["unknown", "novalue", "nonumber", "range", "twice", "flagvalue", "missing", "nofile", "info", "spelling", "spelling"]

def strategy(tier):
    return st.fixed_dictionaries({"prog": st.sampled_from(sorted(OPTS) + ["be2le", "markov-lookup"]), "kind": st.sampled_from(WRONG), "pick": st.integers(0, 1 << 30), "seed": st.integers(0, 1 << 30)})

def spell(r, name, spec, value):
    short, kind = spec[0], spec[1]
    forms = [["--" + name]] + ([["-" + short]] if short else [])
    if kind == F: return r.choice(forms)
    v = str(value)
    # an empty value must stand alone; a negative number must not look like an option
    if v == "": return ["--" + name, v]
    if v.startswith("-"): return ["--%s=%s" % (name, v)]
    forms = [["--" + name, v], ["--%s=%s" % (name, v)]]
    if short: forms += [["-" + short, v], ["-" + short + v]]
    return r.choice(forms)

def line(r, prog, chosen, shuffle=True):
    items = list(chosen)
    if shuffle: r.shuffle(items)
    # several values of one option keep their order
    return [w for name, value in items for w in spell(r, name, OPTS[prog].get(name, ("?" if name == "help" and prog in ("merger", "server", "markov-generator") else "W" if name == "warranty" and prog == "merger" else "", F)), value)]

def check(case, env):
    prog, kind = case["prog"], case["kind"]
    r = random.Random("%d/%d" % (case["pick"], case["seed"]))
    env.write("w/md5/a.md5", file_of(bulk(40, 1, 0))); env.write("w/md5/b.md5", file_of(bulk(30, 2, 0)))
    env.write("w/txt/a.txt", b"u:abc\nv:abd\nw:$HEX[61]\nx:0123456789abcdef0123456789abcdef\n"); env.write("w/txt/b.txt", b"u:abc\n")
    for d in ("o", "t", "cwd"): os.makedirs(env.path("w", d))
    if prog in ("be2le", "markov-lookup"): return positional(case, env, r)
    if "index" in OPTS[prog]: env.run("index", ["-I", env.path("w/md5/a.md5"), "-O", env.path("w/idx"), "-B", 4])
    opts = OPTS[prog]
    chosen = []
    for group in MANDATORY[prog]:
        chosen.append(r.choice(group))
    for name, spec in opts.items():
        if not any(name in g for g in MANDATORY[prog]) and r.random() < 0.4: chosen.append(name)
    host = hc.address() if prog == "server" else None
    def value(name):
        if name == "address": return "http://%s:31337/x" % host
        p = PATHS[prog].get(name)
        if p: return env.path("w", p)
        spec = opts[name]
        return None if spec[1] == F else r.choice(spec[2])
    pairs = [(n, value(n)) for n in chosen]
    root = env.path("w")
    def run(args):
        return env.run(prog, args, stdin=b"", keep_open=prog in ("merger", "converter"), rc=None, cwd=env.path("w", "cwd"), env={"TMPDIR": env.path("w", "t")})
    before = tree(root)
    def dirs():
        return sorted(os.path.relpath(os.path.join(b, d), root) for b, ds, _ in os.walk(root) for d in ds)
    dirs0 = dirs()
    if kind == "spelling" and prog == "server":
        sv = serve(env, line(r, prog, pairs), host)
        try:
            s = sv.connect()
            try: s.sendall(hc.request("GET", ("/x" if "address" in chosen else "/v1/pwned/api") + "/info")); status, _, body = hc.receive(s, sv)
            finally: s.close()
            require(status == 200, "status %d" % status)
            sv.finish()
        except AttributeError: pass
        finally:
            if sv: sv.stop()
    elif kind == "spelling":
        got = []
        for _ in range(2):
            res = run(line(r, prog, pairs))
            require(res.rc == 0, "%s: exit status %d\n%s" % (prog, res.rc, res.err.decode("utf-8", "replace")[-500:]))
            after = tree(root)
            text = re.findall(rb"^Found: \d+|^Not found: \d+", res.out, re.M) if prog == "benchmark" else None
            got.append(({k: v for k, v in after.items() if before.get(k) != v}, text))
            for k in got[-1][0]:
                os.unlink(env.path("w", k))
            diff_tree(before, {k: v for k, v in after.items() if k not in got[-1][0]}, "valid command line")
        require(got[0] == got[1], "two spellings of the same options have different results: %s and %s" % ([(k, len(v)) for k, v in got[0][0].items()], [(k, len(v)) for k, v in got[1][0].items()]))
        if prog not in ("lookup", "benchmark"): require(got[0][0], "nothing is written")
    elif kind == "info":
        what = r.choice(INFOS.get(prog, ["help", "warranty", "license"]))
        some = [p for p in pairs if r.random() < 0.5] if r.random() < 0.6 else []
        args = line(r, prog, some + [(what, None)])
        res = run(args)
        require(res.rc == 0, "%s %s: exit status %d\n%s" % (prog, args, res.rc, res.err.decode("utf-8", "replace")[-500:]))
        text = (res.out + res.err).decode("utf-8", "replace")
        if what == "help":
            for n in opts: require("--" + n in text, "--help does not mention --%s" % n)
        elif what == "warranty": require("NO WARRANTY" in text, "--warranty does not display the warranty")
        else: require("gpl" in text.lower(), "--license does not display the license")
        diff_tree(before, tree(root), "--" + what)
        env.label(what)
    else:
        bad = None
        if kind == "unknown": bad = line(r, prog, pairs); bad[r.choice(starts(bad, prog)):0] = [r.choice(["--xyzzy", "--xyzzy=1", "--zz-top"] + ([] if prog == "x" else ["-Z"]))]
        elif kind == "novalue":
            n = r.choice([n for n in opts if opts[n][1] != F])
            bad = line(r, prog, [p for p in pairs if p[0] != n]) + [r.choice(["--" + n] + (["-" + opts[n][0]] if opts[n][0] else []))]
        elif kind in ("nonumber", "range"):
            ns = [n for n in opts if opts[n][1] == N and (kind == "nonumber" or opts[n][3])]
            if ns:
                n = r.choice(ns)
                v = r.choice(["abc", "1x", "1.5", "99999999999999999999999", "x1", "0x10", "1e3", "--"][:7] if kind == "nonumber" else opts[n][3])
                bad = line(r, prog, [p for p in pairs if p[0] != n] + [(n, v)])
        elif kind == "twice":
            n = r.choice([n for n in chosen if opts[n][1] in (S, N)] or [None])
            if n: bad = line(r, prog, pairs + [(n, value(n))])
        elif kind == "flagvalue":
            n = r.choice([n for n in opts if opts[n][1] == F and n != "verbose"] + ["help"])
            bad = line(r, prog, [p for p in pairs if p[0] != n]) + ["--%s=1" % n]
        elif kind == "missing":
            g = r.choice(MANDATORY[prog])
            bad = line(r, prog, [p for p in pairs if p[0] not in g])
        elif kind == "nofile":
            ns = [n for n in INPUTS[prog] if n in chosen]
            if ns:
                n = r.choice(ns)
                bad = line(r, prog, [(m, env.path("w/nowhere") if m == n else v) for m, v in pairs])
        if bad is None:
            env.label("nothing to spoil"); return
        res = run(bad)
        shown = "%s %s" % (prog, " ".join(bad))
        require(res.rc != 0, "%s: success is reported\n%s" % (shown, (res.out + res.err).decode("utf-8", "replace")[-500:]))
        require((res.out + res.err).strip(), "%s: fails without a word" % shown)
        diff_tree(before, {k: v for k, v in tree(root).items() if not (kind == "nofile" and k.startswith("o/"))}, shown)
        if kind != "nofile": require(dirs() == dirs0, "%s: directories are made or gone" % shown)
    env.label(prog); env.label(kind)
    env.nontrivial = len(chosen) > 1

def starts(words, prog):
    """positions in front of options"""
    return [i for i, w in enumerate(words) if w.startswith("-")] + [len(words)]

def serve(env, args, host):
    class Given(hc.Server):
        def __init__(self): pass
    sv = Given(); sv.host, sv.port = host, 31337
    if not any("http://" in a for a in args):
        # the default address belongs to everybody: only the first to come can have it
        return None
    import subprocess, time, socket
    from pyrun import SAN_ENV
    sv.errfile = env.path(".server.err"); sv.err = open(sv.errfile, "wb")
    sv.p = subprocess.Popen([env.progs["server"]] + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=sv.err, env=dict(SAN_ENV), start_new_session=True)
    end = time.time() + 30
    while time.time() < end and sv.p.poll() is None:
        s = socket.socket(); s.settimeout(30)
        try: s.connect((host, 31337)); s.close(); return sv
        except OSError: s.close(); time.sleep(0.004)
    t = sv.errors(); sv.stop()
    raise Fail("the server does not start\n" + t[:600])

def positional(case, env, r):
    prog = case["prog"]
    root = env.path("w")
    before = tree(root)
    a = env.path("w/md5/a.md5")
    if prog == "be2le":
        lines = [[], [a], [env.path("w/nowhere"), env.path("w/o/out")], [a, env.path("w/nowhere/out")], [env.path("w/md5"), env.path("w/o/out")], [a, env.path("w/o")]]
    else:
        lines = [[], [env.path("w/nowhere")], [env.path("w/md5")], [a], [env.path("w/txt/a.txt")]]
    args = r.choice(lines)
    res = env.run(prog, args, stdin=b"abc\n", rc=None)
    require(res.rc != 0, "%s %s: success is reported" % (prog, args))
    diff_tree(before, {k: v for k, v in tree(root).items() if not k.startswith("o/")}, prog)
    env.label(prog)
    env.nontrivial = len(args) > 1
