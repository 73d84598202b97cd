"""C37: killed at any point, a program can simply be started again."""
from common import *
import bz2, subprocess
import c35
from c35 import Job, prepare
PROGRAMS = []
CASES = {"quick": 1600, "thorough": 40000}
RULE = ("case = program, small workload, files already there, point of death: before, within (any part of the bytes) or after any single change the program makes to a file or directory; then the state left behind is examined "
        "and the program started again; non-trivial = the program was killed and left something behind")

def strategy(tier):
    size = st.one_of(st.integers(0, 40), st.integers(100, 3000))
    db = st.tuples(size, st.integers(0, 999)).map(list)
    prog = st.sampled_from(["merger", "merger", "merger", "converter", "converter", "extractor", "extractor", "index", "be2le", "testset", "markov-generator"])
    return st.fixed_dictionaries({"prog": prog, "dbs": st.lists(db, min_size=1, max_size=7), "opt": st.integers(0, 7), "when": st.one_of(st.integers(0, 1000), st.sampled_from([0, 999])),
                                  "torn": st.one_of(st.integers(0, 1000), st.sampled_from([0, 500, 999])), "old": st.booleans(), "more": weighted((14, st.just(0)), (1, st.integers(20, 260)))})

def check(case, env):
    # many more, tiny files
    j = Job(env, dict(case, dbs=case["dbs"] + [[i % 4, i] for i in range(case["more"])]))
    if case["more"] and len(j.inputs) > 100: env.label("100+ files")
    before = tree(env.path("i"))
    mark = env.path("mark")
    prefix = {"VFAULT_PATH": env.dir, "VFAULT_MARK": mark}
    ref = j.launch(j.inputs, j.out(), fault=dict(prefix, VFAULT_MODE="count"))
    require(ref[0] == 0, "undisturbed: exit status %d\n%s" % (ref[0], ref[2][-600:]))
    good = j.results(ref)
    n = int(open(mark).read())
    os.unlink(mark)
    j.reset()
    bystanders = {}
    if case["old"]:
        # finished work of others, and what must not be taken for the program's own
        for d in ("o", "t"):
            for name in ("0a1b-2c3d-4e5f-6a7b.md5", "f0.md5", "f1.md5", "keep.bin", "out2.md5"):
                bystanders[d + "/" + name] = b"%s of %s" % (name.encode(), d.encode())
                env.write(d + "/" + name, bystanders[d + "/" + name])
    def unharmed(what):
        diff_tree(before, tree(env.path("i")), "%s: inputs" % what)
        for k, v in bystanders.items():
            require(os.path.exists(env.path(k)), "%s: file %s is gone" % (what, k))
            require(open(env.path(k), "rb").read() == v, "%s: file %s has been changed" % (what, k))
    if n == 0: env.label("changes nothing"); return
    at = min(n - 1, case["when"] * n // 1000)
    try:
        res = j.launch(j.inputs, j.out(), fault=dict(prefix, VFAULT_MODE="kill", VFAULT_AT=str(at), VFAULT_TORN=str(case["torn"])))
    except Fail as e:
        if "killed by signal 9" not in str(e): raise
        res = None
    env.label("killed" if res is None else "survived")
    unharmed("killed at change %d of %d" % (at, n))
    left = {k: v for k, v in list(("o/" + k, v) for k, v in tree(env.path("o")).items()) + list(("t/" + k, v) for k, v in tree(env.path("t")).items()) + list(("cwd/" + k, v) for k, v in tree(env.path("cwd")).items()) if k not in bystanders}
    env.nontrivial = res is None and bool(left)
    if j.prog == "extractor": return extractor(case, env, j, before, good, left, unharmed)
    for k in left:
        if k.startswith("t/"): bystanders[k] = left[k]      # the next run leaves alone what the killed one left in the directory for intermediate files
        if k.startswith("o/") and j.prog == "converter": bystanders[k] = left[k]
    j.stdin = b"y\n"
    again = j.launch(j.inputs, j.out())
    require(again[0] == 0, "started again: exit status %d\n%s" % (again[0], again[2][-600:]))
    unharmed("started again")
    got = {k: v for k, v in j.results(again).items() if "o/" + k not in bystanders}
    if j.prog == "converter":
        # its files may be named differently, as the names are taken
        total = lambda files: sum_of([dict_of(v) for k, v in files.items() if isinstance(v, bytes)])
        require(total(got) == total(good), "the second run does not deliver what an undisturbed one does")
    else:
        require(set(got) == set(good), "the second run leaves other files than an undisturbed one: %s, %s" % (sorted(got), sorted(good)))
        for k in good: require(got[k] == good[k], "%s of the second run is not that of an undisturbed one" % k)
    require(set(tree(env.path("t"))) == {k[2:] for k in bystanders if k.startswith("t/")}, "the second run leaves intermediate files: %s" % sorted(tree(env.path("t"))))

def dict_of(data):
    d = {}
    for k, c in recs(data): d[k] = d.get(k, 0) + c
    return d

def sum_of(ds):
    s = {}
    for d in ds:
        for k, c in d.items(): s[k] = s.get(k, 0) + c
    return s

def text_of(data, packed):
    if not packed: return data
    try: return bz2.BZ2Decompressor().decompress(data)
    except (OSError, EOFError, ValueError): return b""

def extractor(case, env, j, before, good, left, unharmed):
    packed = bool(j.opt & 1)
    first = text_of(left.get("o/out", b""), packed)
    ready = [r.decode() for r in left.get("cwd/.ready", b"").split(b"\n")]
    if ready[-1] not in j.inputs: ready.pop()                    # cut off
    for r in ready:
        require(r in j.inputs, "'%s' is recorded as ready" % r)
        want = b"".join(p + b"\n" for p in passwords(before[os.path.basename(r)]))
        require(want in first, "'%s' is recorded as ready, but its passwords have not been written" % r)
    # the rest is extracted to another file; together nothing is missing
    again = j.launch(j.inputs, env.path("o/second"))
    require(again[0] == 0, "started again: exit status %d\n%s" % (again[0], again[2][-600:]))
    unharmed("started again")
    second = text_of(open(env.path("o/second"), "rb").read(), packed)
    if j.opt & 2: ready = []                                     # --ignore-ready
    for i in j.inputs:
        want = b"".join(p + b"\n" for p in passwords(before[os.path.basename(i)]))
        require(want in (first if i in ready else second), "passwords of '%s' are in neither output" % i)
    env.label("ready %d" % min(2, len(ready)))
