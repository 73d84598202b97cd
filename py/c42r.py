"""C42: long histories of requests."""
import c42
from c42 import *
CASES = {"quick": 16, "thorough": 80}
RULE = "case = database, number of workers and threads, 20000 requests of all kinds (thorough tier: up to 60000), most of them different; non-trivial = the requests and answers together are larger than the memory allowed"

def strategy(tier):
    return st.fixed_dictionaries({"prog": st.just("server"), "mb": st.integers(0, 8), "seed": st.integers(0, 1 << 30), "clump": st.just(0), "bits": st.integers(1, 8), "index": st.booleans(), "workers": st.integers(1, 3), "opt": st.integers(0, 3),
                                  "requests": st.integers(0, 999).map(lambda x: 20 if x == 0 else 20000 if tier == "quick" or x % 2 else 60000)})

def check(case, env):
    c42.server(case, env, MB // 2)
