from volume import *
PROGRAMS = ["merger"]
CASES = {"quick": 48, "thorough": 600}
def strategy(tier):
    return st.fixed_dictionaries({"files": st.lists(st.tuples(size(150000), st.sampled_from(KINDS)).map(list), min_size=1, max_size=6), "seed": st.integers(0, 999), "n": st.sampled_from([2, 3, 50])})
def check(case, env):
    ts = [table(n, case["seed"] + i, k) for i, (n, k) in enumerate(case["files"])]
    args = [x for i, t in enumerate(ts) for x in ("-I", env.write("i%d.md5" % i, t.tobytes()))]
    env.run("merger", args + ["-O", env.path("out.md5"), "-T", env.path("tmp"), "-n", case["n"]], keep_open=True)
    same(env.read("out.md5"), total(ts), "output")
    env.label("large"); env.nontrivial = True
