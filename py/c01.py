"""C01: merging adds up counts exactly, one ascending record per hash."""
from common import *
PROGRAMS = ["merger"]
CASES = {"quick": 3000, "thorough": 40000}
RULE = ("case = 1..9 sorted files over a shared pool of hashes (or dozens of files of up to thousands of records), named or found in a directory tree, "
        "2..60 files at once; non-trivial = at least two non-empty files with a common hash, or more files than are merged at once")

def strategy(tier):
    small = pool(1, 10).flatmap(lambda p: st.fixed_dictionaries({
        "pool": st.just(p),
        "files": st.lists(st.lists(st.tuples(st.integers(0, len(p) - 1), count(((1 << 32) - 1) // 9)), max_size=8, unique_by=lambda t: t[0]), min_size=1, max_size=9),
    }))
    many = st.fixed_dictionaries({"many": st.tuples(st.integers(1, 70), st.integers(0, 400 if tier == "quick" else 3000), st.integers(0, 999), st.sampled_from([0, 50, 1000]))})
    return st.tuples(weighted((5, small), (1, many)), st.sampled_from(["I", "I", "S", "both", "Ione"]), st.sampled_from([2, 2, 3, 3, 4, 5, 50, 60, None]), st.booleans(),
                     st.integers(0, 5), st.booleans()).map(lambda t: dict(t[0], how=t[1], n=t[2], noise=t[3], perm=t[4], few=t[5]))

def inputs(case):
    if "many" in case:
        n, size, seed, space = case["many"]
        return [bulk((size * ((i * 7 + seed) % 5)) // 4, seed + i, space) for i in range(n)]
    return [{int(case["pool"][i], 16): c for i, c in f} for f in case["files"]]

def check(case, env):
    fs = inputs(case)
    want = {}
    for f in fs:
        for k, c in f.items():
            want[k] = want.get(k, 0) + c
    named, found = [], []
    for i, f in enumerate(fs):
        data = file_of(f)
        in_dir = case["how"] == "S" or (case["how"] == "both" and i % 2)
        if in_dir:
            env.write("src/" + ["f%d.md5", "sub/deep/f%d.md5", "f%d.md5", "s p/f.%d.x.md5", "sub/%d/.md5"][i % 5] % i, data); found.append(i)
        else:
            named.append(env.write("in/f%d.md5" % i, data))
    if case["noise"] and found:
        env.write("src/readme.txt", b"not a hash file"); env.write("src/x.md5x", b"neither")
    args = []
    if found:
        args += ["-S", env.path("src")]
    k = case["perm"] % len(named) if named else 0
    named = named[k:] + named[:k]
    for p in named:
        args += (["-I", p] if case["how"] != "Ione" else ["--input=" + p])
    args += ["-O", env.path("out.md5"), "-T", env.path("tmp")]
    if case["n"]:
        args += ["-n", case["n"]]
    few = bool(case.get("few")) and len(fs) > 20
    r = env.run("merger", args, keep_open=True, rc=(0, 1) if few else (0,), nofile=20 if few else None)
    if r.rc == 1:
        # more files at once than can be open: nothing may be left out silently
        require("out.md5" not in tree(env.dir), "the merger fails, yet leaves a destination")
        require(not tree(env.path("tmp")) if os.path.exists(env.path("tmp")) else True, "the merger fails and leaves intermediate files")
        env.label("cannot open all files")
        return
    all_found_empty = not named and not any(fs[i] for i in found)
    try:
        data = env.read("out.md5")
    except FileNotFoundError:
        require(all_found_empty, "no output file is written")      # an empty directory holds nothing to merge
        return
    got = recs(data)
    ascending(got, "output")
    d = dict(got)
    for k in want:
        require(k in d, "hash %s of the inputs is missing" % hx(k))
        require(d[k] == want[k], "hash %s has count %d, the inputs add up to %d" % (hx(k), d[k], want[k]))
    for k in d:
        require(k in want, "hash %s is in no input" % hx(k))
    ne = [f for f in fs if f]
    shared = len(ne) > 1 and sum(len(f) for f in ne) > len(want)
    limit = case["n"] or 50
    if shared: env.label("common hashes")
    if len(fs) > limit: env.label("several passes")
    if any(not f for f in fs): env.label("empty input")
    if found: env.label("from a directory")
    if len(fs) == 1: env.label("single input")
    env.nontrivial = shared or len(fs) > limit
