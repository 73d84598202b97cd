from volume import *
PROGRAMS = ["extractor"]
CASES = {"quick": 40, "thorough": 400}
def strategy(tier):
    f = st.tuples(size(200000), st.sampled_from([3, 1000, 1 << 17, 1 << 40]), st.booleans()).map(list)
    return st.fixed_dictionaries({"files": st.lists(f, min_size=1, max_size=3), "seed": st.integers(0, 999), "bz2": st.booleans()})
def check(case, env):
    data = {}
    for i, (n, space, long) in enumerate(case["files"]):
        p = lines(n, case["seed"] + i, space, long)
        data[env.write("s/f%d.txt" % i, b"".join(b"u@x.y:" + x + b"\n" for x in p))] = b"".join(x + b"\n" for x in p if len(x) + 6 <= 200)
    env.run("extractor", ["-S", env.path("s"), "-O", env.path("o")] + (["-C"] if case["bz2"] else []), timeout=120)
    d = env.read("o")
    if case["bz2"]: d = bz2.decompress(d)
    ready = env.read(".ready").decode().split("\n")[:-1]
    require(sorted(ready) == sorted(data), "recorded as ready: %s" % ready)
    w = b"".join(data[f] for f in ready)
    if d != w:
        i = next((i for i in range(min(len(d), len(w))) if d[i] != w[i]), min(len(d), len(w)))
        raise Fail("the output of %d bytes instead of %d differs at byte %d: %r instead of %r" % (len(d), len(w), i, d[i:i + 30], w[i:i + 30]))
    env.label("large"); env.nontrivial = True
