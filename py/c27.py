"""C27: the endianness converter."""
from common import *
PROGRAMS = ["be2le"]
CASES = {"quick": 4000, "thorough": 50000}
RULE = "case = any sequence of records (ordered or not, repeated, boundary hashes), converted twice; non-trivial = at least two records, one of which the swap changes"

def strategy(tier):
    explicit = st.lists(st.tuples(key(), count()), max_size=30).map(lambda l: {"list": l})
    return st.fixed_dictionaries({"m": weighted((20, explicit), (9, model()), (1, st.tuples(st.integers(1000, 9000), st.integers(0, 99)).map(lambda t: {"raw": list(t)}))), "old": st.booleans()})

def swap(data):
    return b"".join(data[i:i + 8][::-1] + data[i + 8:i + 16][::-1] + data[i + 16:i + 20] for i in range(0, len(data), 20))

def check(case, env):
    m = case["m"]
    if "raw" in m:
        n, seed = m["raw"]
        data = random.Random(seed).randbytes(20 * n)
    else: data = dump([(int(k, 16), c) for k, c in m["list"]]) if "list" in m else file_of(build_model(m))
    a, b, c = env.write("a", data), env.path("b"), env.path("c")
    if case["old"]:
        env.write("b", b"\x11" * (len(data) + 55)); env.write("c", b"z")
    env.run("be2le", [a, b])
    require(env.read("a") == data, "the input is changed")
    got = env.read("b")
    require(len(got) == len(data), "%d bytes instead of %d" % (len(got), len(data)))
    want = swap(data)
    for i in range(0, len(data), 20):
        require(got[i:i + 20] == want[i:i + 20], "record %d is %s, should be %s" % (i // 20, got[i:i + 20].hex(), want[i:i + 20].hex()))
    env.run("be2le", [b, c])
    require(env.read("c") == data, "converting twice does not give back the input")
    if not data: env.label("empty")
    if case["old"]: env.label("output exists")
    if len(data) > 20000: env.label("1000+ records")
    env.nontrivial = len(data) >= 40 and want != data
