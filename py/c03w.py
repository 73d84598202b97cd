from volume import *
PROGRAMS = ["converter"]
CASES = {"quick": 40, "thorough": 500}
def strategy(tier):
    f = st.tuples(size(120000), st.sampled_from([3, 1000, 1 << 17, 1 << 40]), st.booleans()).map(list)
    return st.fixed_dictionaries({"files": st.lists(f, min_size=1, max_size=4), "seed": st.integers(0, 999), "ram": st.sampled_from([1, 3, 10, None]), "threads": st.sampled_from([None, 1, 3]), "end": st.booleans()})
def check(case, env):
    os.makedirs(env.path("out"))
    pwds, args = [], []
    for i, (n, space, long) in enumerate(case["files"]):
        p = lines(n, case["seed"] + i, space, long); pwds += p
        args += ["-I", env.write("in/f%d.txt" % i, b"".join(b"u@x.y:" + x + b"\n" for x in p)[:None if case["end"] else -1])]
    args += ["-D", env.path("out")]
    if case["ram"]: args += ["--ram", case["ram"]]
    if case["threads"]: args += ["-T", case["threads"]]
    env.run("converter", args, keep_open=True)
    ts = []
    for name, d in sorted(tree(env.path("out")).items()):
        require(len(d) % 20 == 0 and d, name + ": empty or ends within a record")
        t = np.frombuffer(d, REC); ts.append(t)
        require(len(total([t])) == len(t) and (total([t]) == t).all(), name + ": not strictly ascending")
    same(total(ts).tobytes(), md5_table([x for x in pwds if len(x) + 6 <= 200]), "sum of the outputs")
    env.label("large"); env.nontrivial = True
