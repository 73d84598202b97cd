"""C33: files cut off within a record."""
from common import *
PROGRAMS = ["merger", "index", "be2le", "lookup", "testset", "benchmark"]
CASES = {"quick": 2600, "thorough": 30000}
RULE = ("case = tool, sorted file(s), number of bytes left at the end of the last complete record or cut off anywhere; non-trivial = the cut is within a record and at least one complete record is left")

def strategy(tier):
    cut = st.one_of(st.integers(1, 19), st.integers(0, 10**6))
    files = st.lists(st.tuples(model(), cut, st.booleans()), min_size=1, max_size=5)
    return st.fixed_dictionaries({"tool": st.sampled_from(["merger", "merger", "index", "be2le", "lookup", "lookup", "benchmark", "testset"]), "files": files, "db": password_db(), "cut": cut, "bits": st.integers(1, 12),
                                  "n": st.sampled_from([2, 3, 50]), "dir": st.booleans(), "index_of_cut": st.booleans()})

def cut_at(data, cut):
    """small numbers: that many bytes of the last record are left; large ones: cut anywhere"""
    if cut < 20:
        return data[:max(0, len(data) - 20) + cut] if data else b"\0" * cut
    return data[:cut % (len(data) + 1)]

def whole(data):
    return data[:len(data) - len(data) % 20]

def check(case, env):
    tool = case["tool"]
    env.label(tool)
    if tool in ("merger", "be2le"):
        fs = []
        for m, cut, really in case["files"]:
            data = file_of(build_model(m))
            fs.append(cut_at(data, cut) if really else data)
    if tool == "merger":
        want, args = {}, []
        limit = ((1 << 32) - 1) // 5
        for i, data in enumerate(fs):
            data = b"".join(data[j:j + 16] + (struct.pack("<I", struct.unpack_from("<I", data, j + 16)[0] % limit + 1) if j + 20 <= len(data) else data[j + 16:]) for j in range(0, len(data), 20))
            fs[i] = data
            env.write("in/f%d.md5" % i, data)
            for k, c in recs(whole(data)):
                want[k] = want.get(k, 0) + c
            if not case["dir"]: args += ["-I", env.path("in/f%d.md5" % i)]
        if case["dir"]: args += ["-S", env.path("in")]
        env.run("merger", args + ["-O", env.path("out"), "-T", env.path("tmp"), "-n", case["n"]], keep_open=True)
        if case["dir"] and not any(fs):
            return
        require(env.read("out") == file_of(want), "merging gives %d bytes instead of %d, or other records" % (len(env.read("out")), 20 * len(want)))
        env.nontrivial = any(len(d) % 20 and len(d) > 20 for d in fs)
        return
    if tool == "be2le":
        for i, data in enumerate(fs):
            a, b = env.write("a%d" % i, data), env.path("b%d" % i)
            w = env.write("w%d" % i, whole(data))
            env.run("be2le", [a, b]); env.run("be2le", [w, env.path("c%d" % i)])
            require(env.read("b%d" % i) == env.read("c%d" % i), "converting the cut file gives %d bytes, its complete records give %d" % (len(env.read("b%d" % i)), len(whole(data))))
            require(len(env.read("b%d" % i)) == len(whole(data)), "converting gives %d bytes from %d" % (len(env.read("b%d" % i)), len(data)))
        env.nontrivial = any(len(d) % 20 and len(d) > 20 for d in fs)
        return
    full = build_password_db(case["db"])
    data = cut_at(file_of(full), case["cut"])
    d = dict(recs(whole(data)))
    db = env.write("db", data)
    env.nontrivial = len(data) % 20 != 0 and len(data) > 20
    if tool == "index" or tool == "lookup":
        env.run("index", ["-I", db, "-O", env.path("i"), "-B", case["bits"]])
        require_index(env.read("i"), sorted(d), case["bits"], "index of the cut file")
    lines = [bytes.fromhex(p) for p, _ in case["db"]["pw"]] + [b"never"]
    if tool == "lookup":
        require_answers(lookup(env, ["-I", db], lines), lines, d, "cut file without index")
        if len(lines) << case["bits"] < 30000 * (len(d) + 1):
            require_answers(lookup(env, ["-I", db, "-X", env.path("i")], lines), lines, d, "cut file with index")
    elif tool == "benchmark":
        ts = sorted(full)[-30:] + sorted(full)[:30] + [1, md5(b"other")]
        test = env.write("t", dump([(k, 1) for k in ts]) + b"\x01" * (case["cut"] % 20))
        hit = sum(k in d for k in ts)
        for algo in ("binsearch", "smart"):
            out = env.run("benchmark", ["-I", db, "-S", test, "-n", 1, "-A", algo]).out
            m = re.search(rb"^Found: (\d+)\s*\nNot found: (\d+)", out, re.M)
            require(m is not None, "no counts are reported")
            require((int(m[1]), int(m[2])) == (hit, len(ts) - hit), "%s: %s found, %s not found instead of %d and %d" % (algo, m[1].decode(), m[2].decode(), hit, len(ts) - hit))
    elif tool == "testset":
        n = case["bits"]
        env.run("testset", ["-I", db, "-O", env.path("o"), "-N", n])
        for k, c in recs(env.read("o")):
            require(d.get(k) == c, "record %s, %d is not in the cut file" % (hx(k), c))
        env.run("testset", ["-I", db, "-O", env.path("o"), "-N", 20, "--non-existent"])
        got = recs(env.read("o"))
        require(len(got) == 20 and not any(k in d for k, _ in got), "non-existing hashes are skipped or existing ones given")
