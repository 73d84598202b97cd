"""C06, tool part: index files equal their definition; the lookup program answers alike with and without them."""
from common import *
PROGRAMS = ["index", "lookup"]
CASES = {"quick": 1200, "thorough": 30000}
RULE = ("tool part: case = sorted file (clustered, evenly spread, boundary hashes, or holding typed passwords), index width 1..22 bits, typed passwords; "
        "non-trivial = at least two records, at least one bucket with several records and one without")

def strategy(tier):
    small = model()
    return st.fixed_dictionaries({
        "db": weighted((2, small), (1, password_db())),
        "bits": st.one_of(st.integers(1, 12), st.integers(1, 18), st.sampled_from([8, 16, 20, 22] if tier == "quick" else [8, 16, 20, 22, 24, 26])),
        "lines": st.lists(typed(), max_size=5),
        "old": st.booleans(),
    })

def check(case, env):
    m = case["db"]
    d = build_password_db(m) if "pw" in m else build_model(m)
    keys = sorted(d)
    db = env.write("db.md5", file_of(d))
    if case["old"]:
        env.write("db.idx", b"\x55" * 70000)
    env.run("index", ["-I", db, "-O", env.path("db.idx"), "-B", case["bits"]])
    require(env.read("db.md5") == file_of(d), "the index tool changes its input")
    require_index(env.read("db.idx"), keys, case["bits"])
    lines = [bytes.fromhex(p) for p in case["lines"]] + ([bytes.fromhex(p) for p, _ in m["pw"]] if "pw" in m else [])
    # empty buckets around a hash are skipped one by one: keep their number bounded
    if lines and len(lines) << case["bits"] < 60000 * (len({k >> (128 - case["bits"]) for k in keys}) + 1):
        a = lookup(env, ["-I", db], lines)
        b = lookup(env, ["-I", db, "-X", env.path("db.idx")], lines)
        require_answers(a, lines, d, "without index")
        require_answers(b, lines, d, "with %d bit index" % case["bits"])
        env.label("lookups")
    buckets = len({k >> (128 - case["bits"]) for k in keys})
    env.label("%s bits" % ("1-8" if case["bits"] <= 8 else "9-16" if case["bits"] <= 16 else "17+"))
    if not keys: env.label("empty file")
    env.nontrivial = len(keys) > buckets and buckets < (1 << case["bits"]) and buckets > 1
