"""C26: extracted test sets."""
from common import *
PROGRAMS = ["testset"]
CASES = {"quick": 2600, "thorough": 30000}
RULE = ("case = database, number to extract, existing or non-existing hashes, records or test URLs; for non-existing ones a second run on a database holding some of the first run's hashes; "
        "non-trivial = at least two hashes are extracted from at least two records, or the second run has to skip some but not all")

def strategy(tier):
    exist = st.fixed_dictionaries({"mode": st.just("in"), "db": model(), "n": st.one_of(st.integers(1, 12), st.tuples(st.integers(0, 10**6), st.integers(1, 10**6)).map(list)), "prefix": st.sampled_from([None, "http://h/x?hash=", ""])})
    absent = st.fixed_dictionaries({"mode": st.just("out"), "db": model(), "n": st.integers(1, 60), "hit": st.lists(st.integers(0, 59), max_size=20), "all": st.sampled_from([False, False, False, True]), "prefix": st.sampled_from([None, "u?"])})
    return st.one_of(exist, absent)

def hashes_of_urls(text, prefix):
    r = []
    for l in text.decode().split("\n")[:-1]:
        require(l.startswith(prefix), "URL %r does not start with the prefix" % l)
        require(is_md5(l[len(prefix):].encode()), "URL %r does not end in a hash" % l)
        r.append(int(l[len(prefix):], 16))
    require(text == b"" or text.endswith(b"\n"), "the last URL has no line end")
    return r

def extract(env, d, n, extra=()):
    db = env.write("db.md5", file_of(d))
    env.write("out", b"old contents " * 50)
    env.run("testset", ["-I", db, "-O", env.path("out"), "-N", n, *extra])
    require(env.read("db.md5") == file_of(d), "the database is changed")
    return env.read("out")

def urls(env, d, n, prefix, extra=()):
    default = "http://127.0.0.1:31337/v1/pwned/api/lookup?hash="
    out = extract(env, d, n, ["--test-urls", *extra] + (["--test-url-prefix", prefix] if prefix else []))
    return hashes_of_urls(out, prefix or default)

def check(case, env):
    d = build_model(case["db"])
    keys = sorted(d)
    if case["mode"] == "in":
        n = case["n"]
        R = len(d)
        if isinstance(n, list):
            n = max(1, (n[0] % (n[1] + 1)) * R // max(n[1], 1)) if n[0] % 3 else max(1, R - n[0] % 5 if n[0] % 2 else R + n[0] % 40)
        got = recs(extract(env, d, n))
        for i, (k, c) in enumerate(got):
            require(k in d, "record %d: %s is not in the database" % (i, hx(k)))
            require(d[k] == c, "record %d: %s has count %d instead of %d" % (i, hx(k), c, d[k]))
        for i in range(1, len(got)):
            require(got[i - 1][0] <= got[i][0], "record %d is not in ascending order" % i)
        if n <= R:
            ascending(got, "test set")
            require(len(got) == n, "%d records extracted instead of %d" % (len(got), n))
            pos = {k: i for i, k in enumerate(keys)}
            at = [pos[k] for k, _ in got]
            step = R / n
            for i in range(1, len(at)):
                require(at[i] - at[i - 1] <= 2 * step + 2, "records %d and %d of %d follow each other in a test set of %d" % (at[i - 1], at[i], R, n))
            require(at[0] <= 2 * step + 2 and R - at[-1] <= 2 * step + 2 + n / 20, "the test set of %d ends at record %d of %d" % (n, at[-1], R))
        us = urls(env, d, n, case["prefix"])
        require(us == [k for k, _ in got], "the test URLs name other hashes than the test set")
        env.label("existing"); env.nontrivial = R >= 2 and min(n, R) >= 2
        if n > R: env.label("more than there are")
        if n == R: env.label("all")
        return
    n = case["n"]
    first = [k for k, _ in recs(extract(env, d, n, ["--non-existent"]))]
    for k in first:
        require(k not in d, "%s is in the database" % hx(k))
    require(len(set(first)) == len(first), "a hash is extracted twice")
    require(len(first) >= n, "%d of %d candidates extracted, none of them was in the database" % (len(first), n))
    skip = set(first) if case["all"] else {first[i % len(first)] for i in case["hit"]}
    d2 = dict(d)
    for i, k in enumerate(sorted(skip)):
        d2[k] = i + 1
    second = [k for k, _ in recs(extract(env, d2, n, ["--non-existent"]))]
    for k in second:
        require(k not in d2, "%s is in the database" % hx(k))
    want = [k for k in first if k not in skip]
    require(second[:len(want)] == want, "candidates that are not in the database are skipped")
    us = urls(env, d2, n, case["prefix"], ["--non-existent"])
    require(us == second, "the test URLs name other hashes than the test set")
    env.label("non-existing"); env.nontrivial = 0 < len(want) < len(first)
    if case["all"]: env.label("all candidates exist")
