from volume import *
PROGRAMS = ["index", "lookup"]
CASES = {"quick": 24, "thorough": 300}
def strategy(tier):
    return st.fixed_dictionaries({"db": size(30000), "n": size(20000), "space": st.sampled_from([3, 1000, 1 << 17]), "seed": st.integers(0, 999), "bits": st.sampled_from([None, 8, 16])})
def check(case, env):
    p = sorted(set(lines(case["db"], case["seed"], 1 << 17))); t = md5_table(p)
    d = {key_of(t, i): int(t["c"][i]) for i in range(len(t))}
    typed = lines(case["n"], case["seed"] + 1, case["space"])
    args = ["-I", env.write("db.md5", t.tobytes())]
    if case["bits"]:
        env.run("index", args + ["-O", env.path("i"), "-B", case["bits"]]); args += ["-X", env.path("i")]
    out = env.run("lookup", args, stdin=b"".join(x + b"\n" for x in typed), timeout=120).out
    got = re.findall(rb"MD5 hash ([0-9a-f]{32})\n(?:Found (\d+) times\.|(Not found\.))", out)
    require(len(got) == len(typed), "%d answers to %d lines" % (len(got), len(typed)))
    for i, (x, g) in enumerate(zip(typed, got)):
        k = md5(x); c = d.get(k, 0)
        require(int(g[0], 16) == k and (int(g[1]) == c if c else g[2] != b""), "line %d (%s): %s, the stored count is %d" % (i, x, g, c))
    env.label("large"); env.nontrivial = True
