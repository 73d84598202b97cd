"""C29: the interactive lookup program."""
from common import *
PROGRAMS = ["index", "lookup"]
CASES = {"quick": 2600, "thorough": 30000}
RULE = ("case = database of passwords, their neighbours and unrelated hashes, index width or no index, up to 25 typed lines of any bytes, with or without a final line feed; "
        "non-trivial = at least one typed line is contained and one is not")

def strategy(tier):
    line = st.one_of(typed().map(lambda t: ["new", t]), st.integers(0, 30).map(lambda i: ["db", i]), st.tuples(st.integers(0, 30), st.sampled_from([" ", "\r", "\t", "\0", "x"]), st.booleans()).map(lambda t: ["var", *t]))
    return st.fixed_dictionaries({"db": password_db(), "lines": st.lists(line, max_size=25), "bits": st.sampled_from([None, 1, 4, 8, 11, 14]), "tail": st.booleans(), "repeat": st.sampled_from([1, 1, 1, 1, 40])})

def check(case, env):
    d = build_password_db(case["db"])
    pws = [bytes.fromhex(p) for p, _ in case["db"]["pw"]] or [b"x"]
    lines = []
    for l in case["lines"]:
        if l[0] == "new": lines.append(bytes.fromhex(l[1]))
        elif l[0] == "db": lines.append(pws[l[1] % len(pws)])
        else:
            p = pws[l[1] % len(pws)]
            lines.append(p + l[2].encode() if l[3] else l[2].encode() + p)
    lines = lines * case["repeat"]
    tail = case["tail"] or not (lines and lines[-1])       # without a line feed an empty last line is no line
    db = env.write("db.md5", file_of(d))
    require_answers(lookup(env, ["-I", db], lines, tail), lines, d, "without index")
    # empty buckets around a hash are skipped one by one: keep their number bounded
    if case["bits"] and len(lines) << case["bits"] < 30000 * (len(d) + 1):
        env.run("index", ["-I", db, "-O", env.path("i"), "-B", case["bits"]])
        require_answers(lookup(env, ["--input", db, "--index", env.path("i")], lines, tail), lines, d, "with index")
        env.label("index")
    require(env.read("db.md5") == file_of(d), "the database is changed")
    hit = [l for l in lines if md5(l) in d]
    if any(b" " in l for l in lines): env.label("blanks")
    if any(not l for l in lines): env.label("empty line")
    if not tail: env.label("no final line feed")
    if len(lines) > 100: env.label("many lines")
    env.nontrivial = bool(hit) and len(hit) < len(lines)
