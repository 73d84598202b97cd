from volume import *
PROGRAMS = ["index"]
CASES = {"quick": 40, "thorough": 500}
def strategy(tier):
    return st.fixed_dictionaries({"db": st.tuples(size(400000), st.sampled_from(KINDS)).map(list), "seed": st.integers(0, 999), "bits": st.sampled_from([1, 8, 12, 16, 20, 22])})
def check(case, env):
    t = table(case["db"][0], case["seed"], case["db"][1]); bits = case["bits"]
    env.run("index", ["-I", env.write("db.md5", t.tobytes()), "-O", env.path("i"), "-B", bits])
    k = (t["u"] >> np.uint64(64 - bits)).astype(np.int64)
    want = np.full(1 << bits, (1 << 64) - 1, np.uint64)
    first = np.concatenate(([True], k[1:] != k[:-1]))
    want[k[first]] = np.flatnonzero(first).astype(np.uint64) * np.uint64(20)
    got = np.frombuffer(env.read("i"), "<u8")
    require(len(got) == len(want), "the index has %d entries instead of %d" % (len(got), len(want)))
    bad = np.flatnonzero(got != want)
    require(len(bad) == 0, "entry %s" % (bad[:1],))
    env.label("large"); env.nontrivial = True
