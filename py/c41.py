"""C41: the collector of password lists."""
import fcntl, pty, select, shutil, signal, subprocess, termios, time
from collections import Counter
import build
from common import *
PROGRAMS = ["converter", "merger"]
CASES = {"quick": 1200, "thorough": 20000}
RULE = ("case = range of lists (given, or continued from the last run), what the web site does for each list (a list, an empty one, invalid, deleted, or the transfer fails before, within or after the data), "
        "files already there, answers to the questions, and a key or an interruption at any question or list; the script runs on a pseudo terminal with a stand-in for curl; "
        "non-trivial = at least one list is usable and one is not, or the run is interrupted")
KINDS = ["ok", "ok", "ok", "empty", "invalid", "deleted", "refused", "partial", "almost", "blank"]
USER = 65534

def prepare():
    """the script itself comes from the tree"""
    return {"fetch.sh": os.path.join(build.REPO, "extras/collectors/hashes.org/fetch.sh")}

def strategy(tier):
    return st.fixed_dictionaries({
        "latest": st.sampled_from([1, 7, 99, 4418]), "first": st.integers(0, 3), "args": st.sampled_from([0, 1, 2, 2, 2]), "nolatest": weighted((1, st.just(True)), (12, st.just(False))),
        "lists": st.lists(st.sampled_from(KINDS), min_size=0, max_size=7), "lines": st.integers(0, 1 << 30),
        "old": st.lists(st.tuples(st.sampled_from(["down/", "conv/", "", "conv/down/"]), st.sampled_from(["1.txt", "old.txt", "old.md5", "x.bin", "notes.txt", "merged.md5.bak"])), max_size=4, unique=True),
        "defaults": st.booleans(), "clean": st.sampled_from("yyn Y"), "convert": st.sampled_from("yyyn "), "merge": st.sampled_from("yyyn "),
        "key": st.one_of(st.none(), st.tuples(st.integers(0, 6), st.sampled_from("qqqxQp "))),
        "interrupt": weighted((3, st.none()), (2, st.tuples(st.just("list"), st.integers(0, 6))), (1, st.tuples(st.just("question"), st.integers(0, 2)))),
    })

CURL = r'''#!/bin/bash
# stand-in for curl: does what is laid out for the list
url= out=
while [ $# -gt 0 ]; do
  case "$1" in
    -o|--output) out="$2"; shift;;
    -o?*) out="${1#-o}";;
    --output=*) out="${1#--output=}";;
    --cookie-jar|-c|-b|--cookie|-H|--header|-A|--user-agent|-e|--referer|--retry|--max-time) shift;;
    http*) url="$1";;
    *hashlistId=*|*hashes.org*) url="$1";;
  esac
  shift
done
echo "$url" >> @ROOT@/log
case "$url" in *hashlistId=*) id="${url##*hashlistId=}"; id="${id%%&*}";; *) exit 0;; esac
if [ -e @ROOT@/site/$id.wait ]; then
  : > @ROOT@/waiting.$id
  for i in $(seq 2000); do [ -e @ROOT@/go.$id ] && break; /bin/sleep 0.01; done
fi
rc=$(/bin/cat @ROOT@/site/$id.rc 2>/dev/null || echo 6)
if [ -e @ROOT@/site/$id.data ]; then if [ -n "$out" ]; then /bin/cat @ROOT@/site/$id.data > "$out"; else /bin/cat @ROOT@/site/$id.data; fi; fi
exit $rc
'''
# removes nothing outside the scratch directory
RM = r'''#!/bin/bash
rc=0 force=
for a in "$@"; do
  case "$a" in
    --) continue;;
    -*) case "$a" in *f*) force=1;; esac; continue;;
  esac
  p=$(/usr/bin/readlink -m -- "$(/usr/bin/dirname -- "$a")")/$(/usr/bin/basename -- "$a")
  case "$p" in
    @ROOT@/w/*) if [ -e "$p" -o -L "$p" ]; then /bin/rm -rf -- "$p"; elif [ -z "$force" ]; then echo "rm: cannot remove '$a'" >&2; rc=1; fi;;
    *) echo "OUTSIDE $p" >> @ROOT@/log; rc=1;;
  esac
done
exit $rc
'''

def tree(root):
    return {os.path.relpath(os.path.join(d, f), root): open(os.path.join(d, f), "rb").read() for d, ds, fs in os.walk(root) for f in fs}

def usable(n, r):
    if n == "almost": return r.choice([b"Invalid hashlist!x\n", b"Hashlist is deleted!:pw\nu:v\n", b"Hashlist is deleted!!\nx\n", b" Hashlist is deleted!\n", b"x\nInvalid hashlist!\n"])
    if n == "blank": return b"\n"
    return b"".join(b"%032x:pw%d\n" % (r.getrandbits(128), r.randrange(20)) for _ in range(r.choice([1, 3, 40])))

def check(case, env):
    r = random.Random(case["lines"])
    root, w = env.path(), env.path("w")
    down, conv, latest, merged, jar = ("downloaded", "converted", ".latest", "merged.md5", "cookies.txt") if case["defaults"] else ("dl/in", "cv", "last.id", "all.md5", "jar")
    os.makedirs(os.path.join(w, conv)); os.makedirs(env.path("bin")); os.makedirs(env.path("site"))
    shutil.copy(env.progs["fetch.sh"], os.path.join(w, "fetch.sh"))
    names = {"down/": down + "/", "conv/": conv + "/", "": "", "conv/down/": conv + "/" + down + "/"}
    for d, n in case["old"]:
        env.write("w/" + names[d] + n, b"" if n.endswith(".md5") else b"old\n")
    cfg = "CONVERTER=%s\nMERGER=%s\nTHREADS=2\nRAM=100\n" % (env.progs["converter"], env.progs["merger"])
    if not case["defaults"]: cfg += "DOWNLOAD_DIR=%s\nCONVERTED_DIR=%s\nLATEST=%s\nMERGED_MD5=%s\nCOOKIE_JAR=%s\n" % (down, conv, latest, merged, jar)
    env.write("w/.fetch.config", cfg.encode())
    if not case["nolatest"]: env.write("w/" + latest, b"%d\n" % case["latest"])
    n = len(case["lists"])
    if case["args"] == 2: first = case["latest"] + case["first"]; args = [first, first + n - 1]
    elif case["args"] == 1: first = case["latest"]; args = [first + n - 1]
    else: first = case["latest"]; args = []
    last = first + 100 if case["args"] == 0 else first + n - 1
    kinds = {first + i: k for i, k in enumerate(case["lists"])}
    key = case["key"] and (first + case["key"][0], case["key"][1])
    if case["args"] == 0 and not (key and key[1] == "q"): key = (first + min(n, 6), "q")                # not a hundred of them
    stop = case["interrupt"]
    data = {}
    for i in range(first, last + 1):
        k = kinds.get(i, "invalid")
        d = {"empty": b"", "invalid": b"Invalid hashlist!", "deleted": b"Hashlist is deleted!\n", "refused": None}.get(k)
        if k in ("ok", "almost", "blank"): d = data[i] = usable(k, r)
        if k == "partial": d = usable("ok", r)[:-3]
        if d is not None: env.write("site/%d.data" % i, d)
        env.write("site/%d.rc" % i, b"0" if k not in ("refused", "partial") else b"6" if k == "refused" else r.choice([b"18", b"28", b"56"]))
        if i > first + 12: break
    if key: env.write("site/%d.wait" % key[0], b"")
    if stop and stop[0] == "list": env.write("site/%d.wait" % (first + stop[1]), b"")
    for name, text in (("curl", CURL), ("rm", RM)):
        p = env.write("bin/" + name, text.replace("@ROOT@", root).encode()); os.chmod(p, 0o755)
    for d, ds, fs in os.walk(root):
        os.chown(d, USER, USER)
        for f in fs: os.chown(os.path.join(d, f), USER, USER)
    before = tree(w)
    # the run
    master, slave = pty.openpty()
    attributes = termios.tcgetattr(slave)
    def child():
        os.setsid(); fcntl.ioctl(0, termios.TIOCSCTTY, 0)
        os.setgroups([]); os.setgid(USER); os.setuid(USER)
    p = subprocess.Popen(["/bin/bash", "fetch.sh"] + [str(a) for a in args], cwd=w, stdin=slave, stdout=slave, stderr=slave, preexec_fn=child, close_fds=True,
                         env={"PATH": env.path("bin") + ":/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": w, "TMPDIR": w, "TERM": "xterm"})
    out, seen, asked, interrupted, typed, end = b"", 0, 0, None, set(), time.time() + 60
    answers = {0: case["clean"], 1: case["convert"], 2: case["merge"]}
    passed = None
    try:
        while time.time() < end:
            rd, _, _ = select.select([master], [], [], 0.005)
            if rd:
                try: x = os.read(master, 65536)
                except OSError: x = b""
                out += x
            elif p.poll() is not None: break
            m = out.find(b"(y/n)", seen)
            if m >= 0:
                seen = m + 5
                if b"overwrite" in out[max(0, m - 60):m]: os.write(master, b"y\n"); continue
                if stop and stop[0] == "question" and stop[1] == asked and interrupted is None:
                    interrupted = ("question", asked); time.sleep(0.03); os.write(master, b"\x03")
                else: os.write(master, answers.get(asked, "n").encode())
                asked += 1
            for i in ([key[0]] if key else []) + ([first + stop[1]] if stop and stop[0] == "list" else []):
                if i not in typed and os.path.exists(env.path("waiting.%d" % i)):
                    typed.add(i)
                    if stop and stop[0] == "list" and first + stop[1] == i: interrupted = ("list", i); os.write(master, b"\x03")
                    else: os.write(master, key[1].encode()); time.sleep(0.005)
                    open(env.path("go.%d" % i), "w").close()
        ended = p.poll() is not None
        mode = termios.tcgetattr(slave)
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait(); os.close(master); os.close(slave)
    text = out.decode("utf-8", "replace")
    require(ended, "fetch.sh does not end\n" + text[-800:])
    after = tree(w)
    log = env.read("log").decode().split("\n")[:-1] if os.path.exists(env.path("log")) else []
    require(not any(l.startswith("OUTSIDE") for l in log), "it removes files elsewhere: %s" % log)
    fetched = [int(l.split("hashlistId=")[1].split("&")[0]) for l in log if "hashlistId=" in l]
    require(mode[3] & termios.ECHO and mode[3] & termios.ICANON, "the terminal is left without echo or line editing")
    for x in (before, after): x.pop(jar, None)
    if case["nolatest"] and case["args"] < 2:
        require(not fetched and after == before, "without a place to start from it changes files: " + text[-300:])
        require(p.returncode != 0, "without a place to start from it reports success"); return
    # which lists it has to ask for
    want = list(range(first, last + 1))
    quits = key and key[1] == "q" and key[0] in want
    if quits: want = want[:want.index(key[0]) + 1]
    if interrupted and interrupted[0] == "list": want = want[:want.index(interrupted[1]) + 1]
    if interrupted == ("question", 0): want = []
    require(fetched == want, "lists asked for: %s instead of %s" % (fetched, want))
    require(all("type=found" in l for l in log if "hashlistId=" in l), "asks for something else: %s" % log)
    done = [i for i in want if i in data and not (interrupted and interrupted == ("list", i))]
    # the place to continue from
    now = after.pop(latest, None)
    if done: require(now is not None and now.strip() == b"%d" % (done[-1] + 1), "the next run would start from %r, the last list that was downloaded is %d" % (now, done[-1]))
    else: require(now == before.get(latest) or (case["args"] == 2 and now is not None and now.strip() == b"%d" % first), "nothing has been downloaded, but the next run would start from %r instead of %r" % (now, before.get(latest)))
    before.pop(latest, None)
    # the lists
    model = dict(before)
    def inside(d, suffix): return [f for f in model if f.startswith(d + "/") and "/" not in f[len(d) + 1:] and f.endswith(suffix)]
    if interrupted != ("question", 0) and case["clean"] == "y":
        for f in inside(down, ".txt"): del model[f]
    for i in want:
        f = "%s/%d.txt" % (down, i)
        if i in done: model[f] = data[i]
        else: model.pop(f, None)
    if interrupted and interrupted[0] == "list":                                     # may be there in part
        f = "%s/%d.txt" % (down, interrupted[1])
        for x in (model, after): x.pop(f, None)
    converts = not interrupted or interrupted == ("question", 2)
    converts = converts and case["convert"] == "y"
    merges = converts and not interrupted and case["merge"] == "y"
    sources = [model[f] for f in model if f.startswith(down + "/") and f.endswith(".txt")]
    if converts:
        for f in inside(conv, ".md5"): del model[f]
        counts = Counter(md5(p) for d in sources for p in passwords(d))
        have = Counter()
        for f in [f for f in after if f.startswith(conv + "/") and f not in model and f.endswith(".md5")]:
            for k, c in recs(after.pop(f)): have[k] += c
        require(have == counts, "the converted lists hold %d hashes instead of %d, or other counts" % (len(have), len(counts)))
        if merges:
            rest = sum((Counter(dict(recs(model[f]))) for f in model if f.startswith(conv + "/") and f.endswith(".md5")), Counter())
            got = after.pop(merged, None)
            if counts + rest: require(got is not None and dict(recs(got)) == dict(counts + rest), "the merged file is missing or holds something else\n" + text[-500:])
            else: require(not got, "the merged file is not empty")
            model.pop(merged, None)
    for f in list(after):
        if f.startswith(".shm") : del after[f]
    missing, extra = sorted(set(model) - set(after)), sorted(set(after) - set(model))
    require(not missing, "files are gone: %s" % missing)
    require(not extra, "files that should not be there: %s" % extra)
    changed = [f for f in model if model[f] != after[f]]
    require(not changed, "files have changed: %s" % changed)
    env.label("interrupted at a " + interrupted[0] if interrupted else "quit" if quits else "whole range")
    for i in want: env.label("list " + kinds.get(i, "invalid"))
    if converts: env.label("converted")
    if merges: env.label("merged")
    env.nontrivial = bool(interrupted) or (bool(done) and len(done) < len(want))
