"""C40: large databases."""
import c40
from c40 import *
CASES = {"quick": 24, "thorough": 400}
RULE = "case = database of up to 160000 records (thorough tier: 1000000), workers, threads, duration, a server that answers everything; non-trivial = at least 640 requests have been answered"

def strategy(tier):
    size = st.integers(0, 999).map(lambda x: 64 if x == 0 else [3500, 40000, 90000, 160000][x % 4] if tier == "quick" or x % 5 else 1000000)
    return st.fixed_dictionaries({"n": size, "seed": st.integers(0, 99), "cut": st.just(0), "workers": st.integers(2, 12), "threads": st.integers(0, 5), "secs": st.sampled_from([20, 30]),
                                  "path": st.just("/lookup"), "how": st.just(["ok"]), "listen": st.just(True), "empty": st.just(False)})

def check(case, env):
    c40.check(case, env)
    env.nontrivial = "16 parts" in env.labels
