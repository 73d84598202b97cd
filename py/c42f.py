"""C42: how many files the programs keep open."""
from common import *
import bz2
PROGRAMS = ["merger", "converter", "extractor"]
CASES = {"quick": 160, "thorough": 2500}
RULE = ("case = program, number of input files (1..400), subdirectories, files merged at a time, threads; it may have no more files open than it merges at a time or has threads, and %d; "
        "non-trivial = more input files than files that may be open") % 24
MORE = 24

def strategy(tier):
    n = st.one_of(st.integers(1, 60), st.integers(60, 250), st.integers(250, 400))
    return st.fixed_dictionaries({"prog": st.sampled_from(["merger", "converter", "extractor"]), "files": n, "n": st.one_of(st.integers(2, 12), st.integers(2, 60)), "dirs": st.integers(1, 40), "deep": st.booleans(),
                                  "threads": st.integers(1, 8), "seed": st.integers(0, 999), "records": st.integers(0, 6), "opt": st.integers(0, 3)})

def check(case, env):
    prog, k = case["prog"], case["files"]
    r = random.Random(case["seed"])
    def name(i, ext):
        d = i % case["dirs"]
        return "i/" + ("/".join("d%d" % x for x in range(d % 7)) + "/" if case["deep"] else "") + "e%d/f%d%s" % (d, i, ext)
    os.makedirs(env.path("i")); os.makedirs(env.path("o")); os.makedirs(env.path("t"))
    env.label(prog)
    if prog == "merger":
        limit, want, args = MORE + case["n"], {}, []
        for i in range(k):
            d = {hash_of(r.randrange(900)): r.randint(1, 9) for _ in range(r.randint(0, case["records"]))}
            for x, c in d.items(): want[x] = want.get(x, 0) + c
            env.write(name(i, ".md5"), file_of(d))
        env.run("merger", ["-S", env.path("i"), "-O", env.path("o/x.md5"), "-T", env.path("t"), "-n", case["n"]], keep_open=True, nofile=limit, timeout=60)
        if not want: env.label("nothing to merge"); return
        got = env.read("o/x.md5")
        require(got == file_of(want), "merging %d files, %d at a time, with %d open files allowed: %d records instead of %d" % (k, case["n"], limit, len(got) // 20, len(want)))
    else:
        words = []
        for i in range(k):
            w = [b"p%d" % r.randrange(2000) for _ in range(r.randint(1, case["records"] + 1))]
            words += w
            env.write(name(i, ".txt"), b"".join(b"u%d:%s\n" % (r.randrange(99), x) for x in w))
        if prog == "converter":
            limit = MORE + 2 * case["threads"]
            env.run("converter", ["-S", env.path("i"), "-D", env.path("o"), "--ram", 1, "-T", case["threads"]], keep_open=True, nofile=limit, timeout=60)
            got = {}
            for f, data in tree(env.path("o")).items():
                for x, c in recs(data): got[x] = got.get(x, 0) + c
            want = {}
            for w in words: want[md5(w)] = want.get(md5(w), 0) + 1
            require(got == want, "converting %d files with %d open files allowed: %d hashes counted %d times instead of %d counted %d times" % (k, limit, len(got), sum(got.values()), len(want), sum(want.values())))
        else:
            limit = MORE + 2
            env.run("extractor", ["-S", env.path("i"), "-O", "x"] + (["-C"] if case["opt"] == 1 else []), cwd=env.path("o"), nofile=limit, timeout=60)
            out = env.read("o/x")
            if case["opt"] == 1: out = bz2.decompress(out)
            require(sorted(out.split(b"\n")[:-1]) == sorted(words), "extracting from %d files with %d open files allowed: %d passwords instead of %d" % (k, limit, out.count(b"\n"), len(words)))
    env.nontrivial = k > limit
