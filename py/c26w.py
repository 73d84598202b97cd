from volume import *
PROGRAMS = ["testset"]
CASES = {"quick": 32, "thorough": 400}
def strategy(tier):
    return st.fixed_dictionaries({"db": st.tuples(size(300000), st.sampled_from(KINDS)).map(list), "seed": st.integers(0, 999), "n": size(100000), "out": st.sampled_from([False, False, True])})
def check(case, env):
    t = table(case["db"][0], case["seed"], case["db"][1]); R = len(t)
    db = env.write("db.md5", t.tobytes())
    n = case["n"] if not case["out"] else min(case["n"], 20000)
    env.run("testset", ["-I", db, "-O", env.path("o"), "-N", n] + (["--non-existent"] if case["out"] else []), timeout=120)
    d = env.read("o"); require(len(d) % 20 == 0, "ends within a record")
    g = np.frombuffer(d, REC)
    key = lambda x: x["u"].astype(object) * (1 << 64) + x["l"].astype(object)
    if case["out"]:
        require(len(g) >= n, "%d of %d candidates extracted" % (len(g), n))
        ks = set(key(g).tolist())
        require(len(ks) == len(g), "a hash is extracted twice"); require(not ks & set(key(t).tolist()), "an extracted hash is in the database")
    else:
        pos = {k: i for i, k in enumerate(key(t).tolist())}
        at = [pos.get(k, -1) for k in key(g).tolist()]
        require(min(at) >= 0, "an extracted hash is not in the database")
        at = np.array(at)
        require((t["c"][at] == g["c"]).all(), "a count differs"); require((np.diff(at) >= 0).all(), "not in ascending order")
        if n <= R:
            require(len(at) == n, "%d records instead of %d" % (len(at), n)); require((np.diff(at) > 0).all(), "a hash is extracted twice")
            step = R / n
            require(n < 2 or np.diff(at).max() <= 2 * step + 2, "records %d and following are left out" % at[np.diff(at).argmax()])
            require(at[0] <= 2 * step + 2 and R - at[-1] <= 2 * step + 2 + n / 20, "the test set of %d ends at record %d of %d" % (n, at[-1], R))
    env.label("large"); env.nontrivial = True
