"""C34: the benchmark's counts."""
from common import *
PROGRAMS = ["index", "benchmark"]
CASES = {"quick": 2600, "thorough": 30000}
RULE = ("case = database, test set of contained, neighbouring and unrelated hashes in any order with repetitions, algorithm or index width, runs; "
        "non-trivial = the test set holds hashes that are found and hashes that are not")
RUN = re.compile(rb"^Found: (\d+)\s*\nNot found: (\d+)", re.M)

def strategy(tier):
    pick = st.one_of(st.integers(0, 5000).map(lambda i: ["in", i]), st.tuples(st.integers(0, 5000), st.sampled_from([-1, 1, 1 << 64, -(1 << 64), 1 << 127])).map(lambda t: ["near", t[0], str(t[1])]), key().map(lambda k: ["key", k]))
    return st.fixed_dictionaries({"db": model(), "test": st.lists(pick, min_size=1, max_size=40), "all": st.sampled_from([0, 0, 0, 1]), "how": st.sampled_from([None, "binsearch", "smart", "smart", "index"]),
                                  "bits": st.integers(1, 14), "runs": st.sampled_from([None, 1, 2, 3, 7, 0, -4])})

def check(case, env):
    d = build_model(case["db"])
    keys = sorted(d)
    ts = []
    for t in case["test"]:
        if t[0] == "key": ts.append(int(t[1], 16))
        else:
            k = keys[t[1] % len(keys)] if keys else t[1]
            ts.append(k if t[0] == "in" else (k + int(t[2])) % (1 << 128))
    if case["all"]:
        ts = ts + keys
    db = env.write("db.md5", file_of(d))
    test = env.write("test.md5", dump([(k, 5) for k in ts]))
    args = ["-I", db, "-S", test]
    if case["how"] == "index":
        env.run("index", ["-I", db, "-O", env.path("i"), "-B", case["bits"]])
        args += ["-X", env.path("i")]
    elif case["how"]:
        args += ["-A", case["how"]]
    runs = case["runs"]
    if runs is not None: args += ["--runs=%d" % runs]
    out = env.run("benchmark", args).out
    hit = sum(1 for k in ts if k in d)
    got = [(int(a), int(b)) for a, b in RUN.findall(out)]
    n = runs if runs and runs > 0 else 5
    require(len(got) == n, "%d runs reported instead of %d" % (len(got), n))
    for i, g in enumerate(got):
        require(g == (hit, len(ts) - hit), "run %d: %d found and %d not found, should be %d and %d" % (i + 1, g[0], g[1], hit, len(ts) - hit))
    reads = re.findall(rb"^#reads: (\S+)", out, re.M)
    require(len(set(reads)) <= 1, "the runs are the same, but need %s reads" % reads)
    env.label(case["how"] or "default")
    if not keys: env.label("empty database")
    env.nontrivial = 0 < hit < len(ts)
