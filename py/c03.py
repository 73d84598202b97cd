"""C03: the converter counts every password exactly once."""
from common import *
PROGRAMS = ["converter"]
CASES = {"quick": 1300, "thorough": 20000}
RULE = ("case = 1..40 leak files (lines of every shape, CRLF, several separators, thousands of lines), named or found in a directory tree, memory budget, threads, extension, "
        "hash modes; non-trivial = a password occurs at least twice, or a file is split by the memory budget")

def strategy(tier):
    text = leak_text().map(lambda t: {"text": t})
    big = st.tuples(st.integers(1, 4000 if tier == "quick" else 20000), st.sampled_from([5, 100, 100000]), st.integers(0, 999)).map(lambda t: {"bulk": list(t)})
    often = st.tuples(st.integers(0, 300), st.sampled_from([255, 256, 65535, 65536, 65537, 66000])).map(lambda t: {"often": list(t)})
    md = st.lists(st.tuples(st.sampled_from(["u", "v@x.y", ""]), st.sampled_from(["plain", "0123456789abcdef0123456789ABCDEF", "$HEX[70617373]", "$HEX[3A3a]", "pass", "$HEX[7]", "d41d8cd98f00b204e9800998ecf8427e",
                                                                                       "0123456789abcdef0123456789abcdef0", "$HEX[]"])), max_size=12).map(lambda l: {"text": "".join("%s:%s\n" % x for x in l)})
    files = st.lists(weighted((45, text), (15, md), (15, big), (1, often)), min_size=1, max_size=8)
    many = st.tuples(st.integers(9, 80), leak_text(6)).map(lambda t: [{"text": t[1]}] * t[0])
    return st.fixed_dictionaries({
        "files": weighted((9, files), (1, many)),
        "how": st.sampled_from(["I", "S", "I"]),
        "budget": st.one_of(st.tuples(st.sampled_from([None, 0, 1, 7, 4000]), st.sampled_from([None, 0, 1, 2, 8, 100])),
                            st.tuples(st.just(1), st.sampled_from([100, 1000, 3000, 6000, 8000, 15000, 20000, 2000000])),
                            st.tuples(st.just(1), st.integers(500, 25000))).map(list),
        "ext": st.sampled_from([None, ".md5", ".bin", "x", ".a.b"]),
        "hex": st.sampled_from(["", "", "", "force", "both"]),
        "md5": st.sampled_from(["", "", "", "force", "both"]),
        "tail": st.sampled_from([".txt", ".txt", ".dat", ""]),
    })

def data_of(f):
    if "often" in f:                 # one password very often, others in between
        few, n = f["often"]
        return b"".join(b"u:often\n" + (b"v:p%d\n" % i if i < few else b"") for i in range(n))
    return bulk_leak(*f["bulk"]) if "bulk" in f else leak_bytes(f["text"])

def expect(files, hexmode=False, md5mode=False):
    want = {}
    for data in files:
        for p in passwords(data):
            c = hex_content(p) if hexmode else None
            if c is not None:
                k = md5(c)
            elif md5mode and is_md5(p):
                k = int(p, 16)
            else:
                k = md5(p)
            want[k] = want.get(k, 0) + 1
    return want

def check(case, env):
    datas = [data_of(f) for f in case["files"]]
    tail = case["tail"] if case["how"] == "I" else ".txt"
    os.makedirs(env.path("out"))
    args = []
    for i, d in enumerate(datas):
        name = "in/%sf%d%s" % ("deep/er/" if i % 3 == 1 else "", i, tail)
        env.write(name, d)
        if case["how"] == "I":
            args += ["-I", env.path(name)]
    if case["how"] == "S":
        env.write("in/ignored.dat", b"a:ignored\n")
        args += ["-S", env.path("in")]
    args += ["-D", env.path("out")]
    ram, threads = case["budget"]
    budget = max(1, (10**6 if ram is None else ram) * 1048576 // (threads or 8))
    # a budget that rounds down to a few bytes splits after every line; keep the number of output files bounded
    if sum(d.count(b"\n") + 1 for d in datas) * 56 // budget > 1500:
        ram, threads = 1, 100
    if ram is not None: args += ["--ram", ram]
    if threads is not None: args += ["-T", threads]
    if case["ext"] is not None: args += ["--ext=" + case["ext"]]
    if case["hex"]: args += ["--force-hex"] + (["--auto-hex"] if case["hex"] == "both" else [])
    if case["md5"]: args += ["--force-md5"] + (["--auto-md5"] if case["md5"] == "both" else [])
    env.run("converter", args, stdin=b"", keep_open=True, nofile=48 if len(datas) > 50 and (threads or 8) <= 16 else None)
    want = expect(datas, bool(case["hex"]), bool(case["md5"]))
    got, n = {}, 0
    for name, data in sorted(tree(env.path("out")).items()):
        rs = recs(data)
        require(rs, "output file %s is empty" % name)
        ascending(rs, name)
        n += 1
        for k, c in rs:
            got[k] = got.get(k, 0) + c
    for k in want:
        require(got.get(k, 0) == want[k], "hash %s: counts add up to %d, the password occurs %d times" % (hx(k), got.get(k, 0), want[k]))
    for k in got:
        require(k in want, "hash %s is of no password" % hx(k))
    split = n > len(datas)
    if split: env.label("split")
    if n > 100: env.label("many splits")
    if case["how"] == "S": env.label("directory")
    if len(datas) > 50: env.label("more files than can be open")
    if len(datas) > 8: env.label("more files than slots")
    if not want: env.label("no passwords")
    env.nontrivial = split or any(c > 1 for c in want.values())
