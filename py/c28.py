"""C28: the password extractor, over histories of runs in one working directory."""
from common import *
import bz2
PROGRAMS = ["extractor"]
CASES = {"quick": 2000, "thorough": 24000}
RULE = ("case = history of 1..5 runs in one working directory: leak files added or changed between runs, compressed or not, --ignore-ready or not, answer to the overwrite question; "
        "non-trivial = at least two runs write an output and one of them skips a file recorded as ready")
ANSWERS = ["y", "y\n", "yes", "Y", "n", "", "\n", "x\ny", " y\n"]

SAME = ["a.txt", "sub/a.txt", "sub/deep/a.txt", "sub2/a.txt", "sub2/b.txt", "sub/b.txt"]                  # the same names in several directories

def strategy(tier):
    text = weighted((2, leak_text(20)), (1, st.binary(max_size=60).map(lambda b: b.decode("latin-1"))), (1, st.lists(st.text(alphabet="ab\0\x01\t\\%\u00e4\ufeff", max_size=8), min_size=1, max_size=8).map(lambda l: "".join("u:" + x + "\n" for x in l))), (1, st.tuples(st.integers(400, 3000), st.sampled_from([5, 100000])).map(lambda t: {"bulk": [t[0], t[1], 7]})))
    new = st.lists(st.tuples(st.sampled_from(["a.txt", "b.txt", "sub/c.txt", "sub/deep/d.txt", "e e.txt", "note.md", "f.txt.bak", ".txt", "g.TXT"] + SAME), text), max_size=4)
    # many files, most of them of the same size
    some = st.lists(st.sampled_from(["u:p\n", "u:q\n", "v:r\n", "u:pp\n", ""]), min_size=1, max_size=3)
    many = st.tuples(st.lists(st.sampled_from(SAME + ["c.txt", "sub/c.txt", "d.txt", "sub2/d.txt"]), min_size=4, max_size=10, unique=True), some, st.integers(0, 1 << 20)).map(lambda t: [(n, t[1][(t[2] >> 2 * i) % len(t[1])]) for i, n in enumerate(t[0])])
    new = weighted((3, new), (1, many))
    run = st.fixed_dictionaries({"new": new, "bz2": st.booleans(), "ignore": st.sampled_from([False, False, True]), "out": st.sampled_from(["out", "out", "out2", "sub.bin"]), "answer": st.sampled_from(ANSWERS + ["y"] * 12)})
    return st.fixed_dictionaries({"runs": st.lists(run, min_size=1, max_size=5), "ready": st.sampled_from([None, None, None, "", "foreign.txt\n", "SRC/a.txt\n", "SRC/a.txt\nSRC/sub/c.txt\n", "SRC/a.tx\n", "a.txt\n", "b.txt\nsub/c.txt\n", "SRC/sub/a.txt\n", "OTHER/a.txt\n"])})

def content(t):
    return bulk_leak(*t["bulk"]) if isinstance(t, dict) else untie(t.encode("utf-8"))

def check(case, env):
    src, cwd = env.path("src"), env.path("cwd")
    os.makedirs(src); os.makedirs(cwd)
    ready = []
    if case["ready"] is not None:
        text = case["ready"].replace("SRC", src).replace("OTHER", env.path("other"))
        env.write("cwd/.ready", text.encode())
        ready = text.split("\n")[:-1]
    writes = skips = 0
    for no, r in enumerate(case["runs"]):
        for n, t in r["new"]:
            env.write("src/" + n, content(t))
        files = tree(src)
        before = tree(cwd)
        txt = {os.path.join(src, n): d for n, d in files.items() if n.endswith(".txt")}
        args = ["-S", src, "-O", r["out"]] + (["-C"] if r["bz2"] else []) + (["--ignore-ready"] if r["ignore"] else [])
        what = "run %d" % (no + 1)
        env.run("extractor", args, stdin=r["answer"].encode() if r["out"] in before else b"", cwd=cwd, rc=None)
        diff_tree(files, tree(src), what)
        after = tree(cwd)
        if r["out"] in before and r["answer"].strip()[:1] != "y":
            diff_tree(before, after, what + " (not to be overwritten)")
            env.label("kept"); continue
        if not txt:
            diff_tree(before, after, what + " (no files)")
            continue
        require(r["out"] in after, what + ": no output")
        known = [] if r["ignore"] else ready
        todo = set(txt) - set(known)
        skips += bool(set(txt) & set(known))
        writes += 1
        out = after[r["out"]]
        if r["bz2"]:
            try: out = bz2.decompress(out) if out else None
            except (OSError, ValueError) as e: raise Fail("%s: compressed output cannot be unpacked: %s" % (what, e))
            require(out is not None, what + ": compressed output is empty")
        rd = after.get(".ready", b"").decode("utf-8", "replace")
        old = "" if r["ignore"] else before.get(".ready", b"").decode()
        require(rd.startswith(old), what + ": files recorded as ready before are no longer recorded")
        done = rd[len(old):].split("\n")
        require(done[-1] == "", what + ": the list of ready files ends within a line")
        done = done[:-1]
        require(sorted(done) == sorted(todo), "%s: recorded as ready %s, should be %s" % (what, sorted(done)[:4], sorted(todo)[:4]))
        # the files follow each other in the order in which they are recorded
        want = b"".join(p + b"\n" for f in done for p in passwords(txt[f]))
        if out != want:
            a, b = out.split(b"\n"), want.split(b"\n")
            for i in range(max(len(a), len(b))):
                x, y = (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)
                require(x == y, "%s: line %d of the output is %r, should be %r" % (what, i + 1, x, y))
        ready = (old + rd[len(old):]).split("\n")[:-1]
        others = {k: v for k, v in before.items() if k not in (r["out"], ".ready")}
        diff_tree(others, {k: v for k, v in after.items() if k not in (r["out"], ".ready")}, what)
        if r["bz2"]: env.label("compressed")
        if r["ignore"]: env.label("ready files ignored")
    if skips: env.label("skips ready files")
    env.nontrivial = writes >= 2 and skips > 0
