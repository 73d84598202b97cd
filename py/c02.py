"""C02: the merger changes nothing but its destination, and that only when allowed."""
import ctypes, shutil
from common import *
PROGRAMS = ["merger"]
CASES = {"quick": 2400, "thorough": 30000}
RULE = ("case = directory tree with inputs, unrelated files, working directory, existing or new destination, answer typed and files merged at once; "
        "non-trivial = the destination exists, or intermediate files are needed")
ANSWERS = ["y", "y\n", "yes\n", " y", "\n\ny\n", "n", "n\n", "N", "Y", "Y\n", "no, y\n", "x", "", "\n", "j\n", "0", "ny", "nyyy\n", "1\ny\n"]
NAMES = ["a.md5", "out.md5.bak", "notes.txt", "0000-0000-0000-0000.md5", "x.md5.tmp", ".hidden", "deadbeef.tmp", "b b.md5"]

def strategy(tier):
    p = pool(1, 8)
    files = p.flatmap(lambda p: st.tuples(st.just(p), st.lists(st.lists(st.tuples(st.integers(0, len(p) - 1), count(1000)), max_size=6, unique_by=lambda t: t[0]), min_size=1, max_size=12)))
    blob = st.binary(max_size=400).map(bytes.hex)
    return st.fixed_dictionaries({
        "files": files,
        "dir": st.booleans(),
        "dst": st.sampled_from(["out.md5", "sub/out.md5", "tmp/out.md5", "in/result.bin", "missing/out.md5", "out", "ou t.md5"]),
        "rel": st.booleans(),
        "old": weighted((1, st.none()), (2, blob), (1, st.just("00" * 4000))),
        "answer": st.sampled_from(ANSWERS),
        "tmp": st.sampled_from(["tmp", "tmp", "new/deep", "in", ".", None]),
        "ext": st.sampled_from([None, None, ".tmp", ".md5", ""]),
        "n": st.sampled_from([2, 2, 3, 4, 50, None]),
        "others": st.lists(st.tuples(st.sampled_from(["tmp/", "sub/", "", "other/", "in2/"]), st.sampled_from(NAMES), blob), max_size=6),
        "cutoff": st.booleans(),
        "rehearse": weighted((2, st.just(False)), (1, st.just(True))),
    })

LIBC = ctypes.CDLL(None, use_errno=True)
class Watch:
    """names of all files created or moved to the given directories from now on"""
    def __init__(self, dirs):
        self.fd = LIBC.inotify_init1(0o4000)
        self.dirs = {LIBC.inotify_add_watch(self.fd, d.encode(), 0x100 | 0x80): d for d in dirs} if self.fd >= 0 else {}
    def names(self):
        found, data = [], b""
        if self.fd < 0: return found
        while True:
            try: data += os.read(self.fd, 1 << 16)
            except BlockingIOError: break
        os.close(self.fd)
        while len(data) >= 16:
            wd, mask, _, n = struct.unpack_from("<iIII", data)
            if not mask & 0x40000000 and wd in self.dirs: found.append(os.path.join(self.dirs[wd], data[16:16 + n].rstrip(b"\0").decode("utf-8", "surrogateescape")))
            data = data[16 + n:]
        return found

def rehearsal(case, env):
    """runs the same merge once before and returns the names of the files it used on the way"""
    layout(case, env)
    root = env.path("w")
    for d in ("t/net.ersatzworld.pwned.merger",) + ((case["tmp"],) if case["tmp"] else ()):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    before = tree(root)
    w = Watch([root] + [os.path.join(root, d) for d, ds, fs in os.walk(root) for d in [os.path.join(d, x) for x in ds]])
    args, dst = arguments(case, root)
    env.run("merger", args, stdin=b"y\n" if dst in before else b"", keep_open=dst in before, cwd=root, env={"TMPDIR": os.path.join(root, "t")})
    names = {os.path.relpath(n, root) for n in w.names()} - set(before) - {dst}
    shutil.rmtree(root)
    return sorted(names)

def arguments(case, root):
    name = (lambda x: x) if case["rel"] else (lambda x: os.path.join(root, x))
    args = []
    if case["dir"]:
        args += ["-S", name("in")]
    else:
        for i in range(len(case["files"][1])):
            args += ["-I", name("in/f%d.md5" % i)]
    args += ["-O", name(case["dst"])]
    if case["tmp"]: args += ["-T", name(case["tmp"])]
    if case["n"]: args += ["-n", case["n"]]
    if case["ext"] is not None: args += ["-X", case["ext"]]
    return args, case["dst"]

def check(case, env):
    if case["rehearse"] and case["dst"] != "missing/out.md5":
        names = rehearsal(case, env)
        if names: env.label("foreign files named like intermediate ones of an earlier run")
    else: names = []
    want = layout(case, env)
    for i, n in enumerate(names):
        # with a directory as source, foreign files must not become inputs
        if not (case["dir"] and (n.startswith("in/") or n.startswith("./in/"))): env.write("w/" + n, b"foreign %d" % i)
    verdict(case, env, want)

def layout(case, env):
    w = "w/"
    for d in ("in", "sub", "tmp", "t", "other"):
        os.makedirs(env.path(w + d))
    p, files = case["files"]
    fs = [{int(p[i], 16): c for i, c in f} for f in files]
    for d, n, b in case["others"]:
        env.write(w + d + n, bytes.fromhex(b))
    want = {}
    for i, f in enumerate(fs):
        data = file_of(f)
        if case["cutoff"] and i == 0:
            data += b"\x01" * 7                      # an incomplete record at the end
        env.write(w + "in/f%d.md5" % i, data)
        for k, c in f.items():
            want[k] = want.get(k, 0) + c
    dst = case["dst"]
    if case["old"] is not None and dst != "missing/out.md5":
        env.write(w + dst, bytes.fromhex(case["old"]))
    return want

def verdict(case, env, want):
    root = env.path("w")
    p, files = case["files"]
    fs = [{int(p[i], 16): c for i, c in f} for f in files]
    args, dst = arguments(case, root)
    before = tree(root)
    exists = dst in before
    # an answer is expected only if the destination exists; keys typed into a running merge are C21's subject
    answer = case["answer"].encode() if exists else b""
    env.run("merger", args, stdin=answer, keep_open=answer.strip() != b"", cwd=root, rc=None if dst == "missing/out.md5" else (0,), env={"TMPDIR": os.path.join(root, "t")})
    after = tree(root)
    yes = answer.strip()[:1] == b"y"
    nothing = case["dir"] and not any(len(f) or (case["cutoff"] and i == 0) for i, f in enumerate(fs))
    expected = dict(before)
    if exists and not yes:
        diff_tree(expected, after, "destination kept")
        env.label("kept")
    elif dst == "missing/out.md5":
        diff_tree(expected, after, "destination cannot be written")
        env.label("not writable")
    else:
        env.label("replaced" if exists else "new")
        if not nothing:
            expected[dst] = file_of(want)
            require(dst in after, "no destination is written")
            require(after[dst] == expected[dst], "destination does not hold the merged records (%d bytes instead of %d)" % (len(after[dst]), len(expected[dst])))
        diff_tree(expected, after, "merged")
    used = len([f for i, f in enumerate(fs) if f or not case["dir"] or (case["cutoff"] and i == 0)])
    several = used > (case["n"] or 50)
    if several: env.label("several passes")
    env.nontrivial = exists or (several and (not exists or yes))
