from volume import *
PROGRAMS = ["index", "benchmark"]
CASES = {"quick": 32, "thorough": 400}
RUN = re.compile(rb"^Found: (\d+)\s*\nNot found: (\d+)", re.M)
def strategy(tier):
    return st.fixed_dictionaries({"db": st.tuples(size(200000), st.sampled_from(KINDS)).map(list), "seed": st.integers(0, 999), "n": size(100000), "part": st.sampled_from([0.0, 0.3, 1.0]), "how": st.sampled_from([None, "binsearch", "smart", "index"])})
def check(case, env):
    t = table(case["db"][0], case["seed"], case["db"][1]); n = case["n"]
    r = np.random.default_rng([n, case["seed"], 1])
    s = t[r.integers(0, len(t), n)].copy()
    miss = r.random(n) >= case["part"]
    s["l"][miss] ^= np.uint64(1 << 63)
    key = lambda x: set(zip(x["u"].tolist(), x["l"].tolist()))
    have = key(t); hit = sum(1 for x in zip(s["u"].tolist(), s["l"].tolist()) if x in have)
    db = env.write("db.md5", t.tobytes()); args = ["-I", db, "-S", env.write("s.md5", s.tobytes()), "--runs=1"]
    if case["how"] == "index":
        env.run("index", ["-I", db, "-O", env.path("i"), "-B", 12]); args += ["-X", env.path("i")]
    elif case["how"]: args += ["-A", case["how"]]
    got = [(int(a), int(b)) for a, b in RUN.findall(env.run("benchmark", args, timeout=120).out)]
    require(got == [(hit, n - hit)], "%s found and not found, should be %d and %d" % (got, hit, n - hit))
    env.label("large"); env.nontrivial = True
