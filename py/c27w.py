from volume import *
PROGRAMS = ["be2le"]
CASES = {"quick": 40, "thorough": 500}
def strategy(tier):
    return st.fixed_dictionaries({"n": size(600000), "seed": st.integers(0, 999)})
def check(case, env):
    d = np.random.default_rng([case["n"], case["seed"]]).bytes(20 * case["n"])
    a = env.write("a.md5", d)
    env.run("be2le", [a, env.path("b.md5")])
    w = np.frombuffer(d, REC).copy(); w["u"] = w["u"].byteswap(); w["l"] = w["l"].byteswap()
    same(env.read("b.md5"), w, "result")
    env.label("large"); env.nontrivial = True
