"""C46: programs that run at the same time do not disturb each other."""
from common import *
import bz2, signal, subprocess, time
from collections import Counter
import build
from pyrun import SAN_ENV
from c35 import words, tree, diff_tree
PROGRAMS = []
NAMES = ["merger", "converter", "extractor", "index", "be2le", "markov-generator"]
CASES = {"quick": 1200, "thorough": 24000}
CONFIRM = (6, 3)
RULE = ("case = two to four programs that share inputs, destination directory (converters), directory for intermediate files (mergers) or working directory (extractors), each stopped just before up to four chosen changes it makes to files, "
        "and the order in which they go on; non-trivial = at least two programs were between their first and last change at the same time")

def prepare():
    return {k[:-6]: v for k, v in build.build({n + "-fault": (build.PROGRAMS[n]() + [build.VERIF + "/cxx/fault.cpp"], build.BASE + build.SAN, build.LIBS + ["-ldl"]) for n in NAMES}).items()}

def strategy(tier):
    size = st.one_of(st.integers(1, 12), st.integers(20, 400))
    pause = st.lists(st.one_of(st.integers(0, 3), st.integers(0, 8), st.integers(0, 40)), min_size=1, max_size=4, unique=True)
    files = st.lists(st.tuples(size, st.integers(0, 99)).map(list), min_size=1, max_size=5)
    prog = st.fixed_dictionaries({"files": files, "opt": st.integers(0, 7), "pause": pause})
    kinds = weighted((3, st.lists(st.just("converter"), min_size=2, max_size=3)), (3, st.lists(st.just("merger"), min_size=2, max_size=3)), (2, st.lists(st.just("extractor"), min_size=2, max_size=3)),
                     (2, st.lists(st.sampled_from(NAMES), min_size=2, max_size=4)))
    return kinds.flatmap(lambda ks: st.fixed_dictionaries({"kinds": st.just(ks), "progs": st.lists(prog, min_size=len(ks), max_size=len(ks)), "order": st.lists(st.integers(0, 11), max_size=14), "tmp": st.booleans(), "names": st.sampled_from(["same", "same", "own"])}))

def check(case, env):
    p = env.path
    for d in ("o", "cwd", "md5"): os.makedirs(p(d))
    if case["tmp"]: os.makedirs(p("t"))
    env.write("md5/keep.md5", b"")
    shared = {}
    jobs = []
    for k, (g, c) in enumerate(zip(case["kinds"], case["progs"])):
        # outputs of the same name in different directories, or of different names in one
        j = {"prog": g, "name": "d%d/all.md5" % k if case["names"] == "same" else "out%d" % k}
        j["out"] = p("o/" + j["name"]); os.makedirs(os.path.dirname(j["out"]), exist_ok=True)
        o = c["opt"]
        if g in ("converter", "extractor", "markov-generator"):
            j["data"] = [words(n, s) for n, s in c["files"]]
            if g == "markov-generator":
                f = env.write("i/%d.leak" % k, j["data"][0])
                j["args"] = ["-I", f, "-O", j["out"]]
            else:
                for i, d in enumerate(j["data"]): env.write("i/w%d/%sf%d.txt" % (k, "" if case["names"] == "same" else "p%d-" % k, i), d)
                if g == "converter": j["args"] = ["-S", p("i/w%d" % k), "-D", p("md5"), "-T", 1 + o % 2, "--ram", 1]
                else: j["args"] = ["-S", p("i/w%d" % k), "-O", j["out"]] + (["-C"] if o & 1 else [])
        else:
            db = [bulk(n, s, 0, 1000) for n, s in c["files"]]
            fs = []
            for i, d in enumerate(db):
                # half of the files are shared between the programs
                name = "i/%s%d.md5" % ("s" if i % 2 else "m%d-" % k, i)
                if name in shared: d = db[i] = shared[name]
                shared[name] = d
                fs.append(env.write(name, file_of(d)))
            j["db"] = db
            if g == "merger": j["args"] = [x for f in fs for x in ("-I", f)] + ["-O", j["out"], "-T", p("t"), "-n", 2 + o % 2]
            elif g == "index": j["args"] = ["-I", fs[0], "-O", j["out"], "-B", 3 + o]
            else: j["args"] = [fs[0], j["out"]]
        jobs.append(j)
    inputs = tree(p("i"))
    def start(k, j, pauses):
        e = dict(SAN_ENV); e.update(TMPDIR=env.dir, VFAULT_PATH=env.dir, VFAULT_MODE="pause", VFAULT_AT=",".join(map(str, pauses)))
        j["rd"], j["wr"] = os.pipe()
        so, se = open(p("so%d" % k), "wb"), open(p("se%d" % k), "wb")
        j["p"] = subprocess.Popen([env.progs[j["prog"]]] + [str(a) for a in j["args"]], stdin=j["rd"], stdout=so, stderr=se, env=e, cwd=p("cwd"), start_new_session=True)
        so.close(); se.close(); os.close(j["rd"])
        j["rc"] = None
        if j["prog"] not in ("merger", "converter"): os.close(j["wr"]); j["wr"] = -1
    def until_stop(k, j):
        """until it stops itself or ends"""
        end = time.time() + 60
        while time.time() < end:
            pid, s = os.waitpid(j["p"].pid, os.WUNTRACED | os.WNOHANG)
            if pid:
                if os.WIFSTOPPED(s): return True
                j["rc"] = j["p"].returncode = -os.WTERMSIG(s) if os.WIFSIGNALED(s) else os.WEXITSTATUS(s)
                return False
            time.sleep(0.001)
        raise Fail("%s does not end while others stand still" % j["prog"])
    overlap, alive = False, []
    try:
        order = list(case["order"])
        waiting = list(range(len(jobs)))
        while waiting or alive:
            # start the next one, or let one go on
            n = order.pop(0) if order else 0
            if waiting and (not alive or n % 3 < 2):
                k = waiting.pop(0); start(k, jobs[k], case["progs"][k]["pause"])
                if until_stop(k, jobs[k]): alive.append(k)
            else:
                k = alive[n % len(alive)]
                os.kill(jobs[k]["p"].pid, signal.SIGCONT)
                if not until_stop(k, jobs[k]): alive.remove(k)
            if len(alive) > 1: overlap = True
    finally:
        for j in jobs:
            if j.get("p") and j["rc"] is None:
                try: os.killpg(j["p"].pid, signal.SIGKILL)
                except ProcessLookupError: pass
                j["p"].wait()
            if j.get("wr", -1) >= 0: os.close(j["wr"])
    for k, j in enumerate(jobs):
        err = env.read("se%d" % k).decode("utf-8", "replace")
        require(j["rc"] == 0, "%s (no. %d) %s\n%s" % (j["prog"], k, "is killed by signal %d" % -j["rc"] if j["rc"] < 0 else "fails with status %d" % j["rc"], err[-1500:]))
    diff_tree(inputs, tree(p("i")), "inputs")
    left = tree(p("t")) if os.path.exists(p("t")) else {}
    require(not left, "intermediate files are left: %s" % sorted(left)[:4])
    outs, ready = tree(p("o")), tree(p("cwd")).get(".ready", b"").decode()
    lines = ready.split("\n")
    require(lines.pop() == "", "the list of ready files ends within a line")
    want_ready = []
    for k, j in enumerate(jobs):
        g, what = j["prog"], "%s (no. %d)" % (j["prog"], k)
        if g == "converter": continue
        require(j["name"] in outs, what + ": no output")
        d = outs.pop(j["name"])
        if g == "merger":
            w = Counter()
            for x in j["db"]: w.update(x)
            require(recs(d) == sorted(w.items()), what + ": the result differs from the sum of its inputs")
        elif g == "extractor":
            if j["args"][-1] == "-C": d = bz2.decompress(d)
            mine = [l for l in lines if l.startswith(p("i/w%d/" % k))]
            names = sorted(os.path.join(p("i/w%d" % k), n) for n in os.listdir(p("i/w%d" % k)))
            require(sorted(mine) == names, "%s: recorded as ready %s instead of %s" % (what, mine, names))
            want_ready += names
            w = b"".join(x + b"\n" for f in mine for x in passwords(open(f, "rb").read()))
            require(d == w, what + ": the output differs from the passwords of its inputs")
        elif g == "be2le":
            src = file_of(j["db"][0])
            w = b"".join(src[i:i + 8][::-1] + src[i + 8:i + 16][::-1] + src[i + 16:i + 20] for i in range(0, len(src), 20))
            require(d == w, what + ": the result is not its input with swapped bytes")
        else:
            alone = env.path("alone%d" % k)
            a = [alone if str(x) == j["out"] else x for x in j["args"]]
            env.run(g, a)
            require(d == open(alone, "rb").read(), what + ": the result differs from that of the program alone")
    require(sorted(lines) == sorted(want_ready), "the list of ready files has other lines")
    require(not outs, "files that should not be there: %s" % sorted(outs))
    conv = [j for j in jobs if j["prog"] == "converter"]
    files = tree(p("md5"))
    require(files.pop("keep.md5", None) == b"", "another file is gone or has been changed")
    have, want = Counter(), Counter()
    for n, d in files.items():
        rs = recs(d); ascending(rs, n)
        for h, c in rs: have[h] += c
    for j in conv:
        for d in j["data"]:
            for x in passwords(d): want[md5(x)] += 1
    require(have == want, "the converted files hold %d passwords, the inputs of all converters %d" % (sum(have.values()), sum(want.values())))
    for k in set(case["kinds"]): env.label(k)
    if overlap: env.label("at the same time")
    env.nontrivial = overlap
