"""Drives the Hypothesis modules in py/: eight forked shards, JSON cases, bounded shrinking,
confirmation outside Hypothesis before anything is reported."""
import hashlib, importlib, json, multiprocessing as mp, os, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
import build

class Fail(Exception):
    """the property is broken"""

class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err
    def text(self):
        return self.out.decode("utf-8", "replace")

SAN_ENV = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:max_allocation_size_mb=8192:allocator_may_return_null=0",
           "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1:halt_on_error=1", "LC_ALL": "C.UTF-8", "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
           "HOME": "/nonexistent", "TMPDIR": "/tmp"}

class Env:
    """what a check sees: a fresh scratch directory and the built programs"""
    def __init__(self, progs, tier):
        self.progs, self.tier = progs, tier
        self.labels, self.nontrivial, self.dir = set(), False, None
        self.keep = {}                               # long-lived things of a shard (servers)
    def fresh(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.dir = tempfile.mkdtemp(prefix="vcase.", dir=base)
        self.labels, self.nontrivial = set(), False
    def drop(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None
    def path(self, *p):
        return os.path.join(self.dir, *p)
    def label(self, s):
        self.labels.add(s)
    def write(self, name, data):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        return p
    def read(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()
    def run(self, prog, args, stdin=b"", keep_open=False, timeout=40, rc=(0,), cwd=None, env=None, nofile=None):
        """keep_open: the input pipe stays open until the program has ended; nofile: limit of open files"""
        e = dict(SAN_ENV); e["TMPDIR"] = self.dir
        e.update(env or {})
        # output goes to files: nothing can fill up, and a program that never ends cannot block us
        so, se = self.path(".stdout"), self.path(".stderr")
        with open(so, "wb") as fo, open(se, "wb") as fe:
            p = subprocess.Popen([self.progs[prog]] + [os.fsencode(str(a)) if not isinstance(a, bytes) else a for a in args],
                                 stdin=subprocess.PIPE, stdout=fo, stderr=fe, env=e, cwd=cwd or self.dir, start_new_session=True,
                                 preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))) if nofile else None)
            timed_out = False
            try:
                try:
                    if keep_open:
                        if stdin:
                            p.stdin.write(stdin); p.stdin.flush()
                        p.wait(timeout)
                        try: p.stdin.close()
                        except OSError: pass
                    else:
                        p.communicate(stdin, timeout)
                except BrokenPipeError:
                    try: p.wait(timeout)
                    except subprocess.TimeoutExpired: timed_out = True
                except subprocess.TimeoutExpired:
                    timed_out = True
            finally:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
                try: p.stdin.close()
                except OSError: pass
        out, err = open(so, "rb").read(50 << 20), open(se, "rb").read(1 << 20)
        os.unlink(so); os.unlink(se)
        what = "%s %s" % (prog, " ".join(str(a) for a in args))
        if timed_out:
            raise Fail("%s: does not end within %d s" % (what[:300], timeout))
        if p.returncode == 99 or b"AddressSanitizer" in err or b"runtime error:" in err:
            raise Fail("%s: sanitizer report\n%s" % (what[:300], err.decode("utf-8", "replace")[:1500]))
        if p.returncode < 0:
            raise Fail("%s: killed by signal %d\n%s" % (what[:300], -p.returncode, err.decode("utf-8", "replace")[-600:]))
        if rc is not None and p.returncode not in rc:
            raise Fail("%s: exit status %d\n%s" % (what[:300], p.returncode, err.decode("utf-8", "replace")[-600:]))
        return Result(p.returncode, out, err)

def require(ok, msg):
    if not ok:
        raise Fail(msg)

def canon(case):
    return json.dumps(case, sort_keys=True)

def one(mod, case, env):
    """None if it holds, otherwise the message"""
    env.fresh()
    try:
        mod.check(case, env)
        return None
    except Fail as e:
        return str(e)
    except FileNotFoundError as e:
        # an output the check was about to read
        if not os.fsdecode(e.filename or "").startswith(env.path("")): raise
        return "there is no file '%s'" % os.path.relpath(os.fsdecode(e.filename), env.path(""))
    finally:
        env.drop()

def shard(k, W, modname, progs, tier, seed, n, stop, outfile):
    import hypothesis
    from hypothesis import settings, Phase, HealthCheck
    mod = importlib.import_module(modname)
    env = Env(progs, tier)
    if hasattr(mod, "start"):
        mod.start(env)
    st = {"evals": 0, "distinct": set(), "labels": {}, "samples": [], "fail": None, "error": None}
    limit = getattr(mod, "SHRINK_SECONDS", 45)
    t_fail = [None]
    def test(case):
        if t_fail[0] is None and stop.is_set():
            return
        if t_fail[0] is not None and time.time() - t_fail[0] > limit:
            return
        m = one(mod, case, env)
        c = canon(case)
        if t_fail[0] is None:
            st["evals"] += 1
            if env.nontrivial:
                st["distinct"].add(hashlib.sha1(c.encode()).hexdigest()[:16])
                if len(st["samples"]) < 2 and st["evals"] > 3 and len(c) < 1500:
                    st["samples"].append(c)
            for l in env.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
        if m is not None:
            if t_fail[0] is None:
                t_fail[0] = time.time()
                stop.set()
                st["first"] = (case, m)
            if st["fail"] is None or (len(c), c) < (len(canon(st["fail"][0])), canon(st["fail"][0])):
                st["fail"] = (case, m)
            raise Fail("fails")
    try:
        t = hypothesis.given(mod.strategy(tier))(test)
        t = hypothesis.seed(seed * 1000003 + k)(t)
        t = settings(max_examples=n, database=None, deadline=None, derandomize=False, phases=(Phase.generate, Phase.shrink),
                     suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False)(t)
        sys.stderr = open(os.devnull, "w"); so = sys.stdout; sys.stdout = open(os.devnull, "w")
        try:
            t()
        except BaseException as e:
            if st["fail"] is None:
                st["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        finally:
            sys.stdout = so
    except BaseException:
        st["error"] = traceback.format_exc()
    finally:
        if hasattr(mod, "stop"):
            mod.stop(env)
    st["distinct"] = sorted(st["distinct"])
    with open(outfile, "w") as f:
        json.dump(st, f)
    os._exit(0)

def run(pid, modname, tier, seed, cases, replay_path):
    mod = importlib.import_module(modname)
    progs = build.programs(mod.PROGRAMS) if mod.PROGRAMS else {}
    if hasattr(mod, "prepare"):
        progs.update(mod.prepare())
    total = cases or mod.CASES[tier]
    W = getattr(mod, "SHARDS", 8)
    tmp = tempfile.mkdtemp(prefix="vpy.")
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    ps = []
    for k in range(W):
        n = total // W + (1 if k < total % W else 0)
        if n == 0:
            continue
        p = ctx.Process(target=shard, args=(k, W, modname, progs, tier, seed, n, stop, os.path.join(tmp, "s%d" % k)))
        p.start(); ps.append((k, p))
    for _, p in ps:
        p.join()
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": mod.RULE, "samples": [], "classes": {}}
    distinct, fails, errors = set(), [], []
    for k, p in ps:
        f = os.path.join(tmp, "s%d" % k)
        if not os.path.exists(f):
            errors.append("shard %d ended with %s" % (k, p.exitcode)); continue
        st = json.load(open(f))
        cov["evaluations"] += st["evals"]
        distinct.update(st["distinct"])
        for l, c in st["labels"].items():
            cov["classes"][l] = cov["classes"].get(l, 0) + c
        cov["samples"] += [json.loads(s) for s in st["samples"]]
        if st["fail"]:
            fails.append((st["fail"], st.get("first")))
        if st["error"]:
            errors.append(st["error"])
    shutil.rmtree(tmp)
    cov["samples"] = cov["samples"][:8]
    cov["distinct_nontrivial"] = len(distinct)
    viol, unconfirmed = 0, 0
    tries, needed = getattr(mod, "CONFIRM", (3, 3))
    fails.sort(key=lambda f: len(canon(f[0][0])))
    for small, first in fails:
        done = False
        for case, msg in [small] + ([first] if first and first[0] != small[0] else []):
            env = Env(progs, tier)
            if hasattr(mod, "start"): mod.start(env)
            got = []
            for _ in range(tries):
                m = one(mod, case, env)
                if m is not None: got.append(m)
            if hasattr(mod, "stop"): mod.stop(env)
            if len(got) >= needed:
                viol += 1; done = True
                with open(replay_path, "w") as f:
                    json.dump({"property": pid, "message": got[0], "case": case}, f, indent=1)
                print("FAILS: %s\n  case: %s" % (got[0][:2500], canon(case)[:2500]))
                break
            unconfirmed += 1
            print("UNCONFIRMED (%d/%d): %s\n  case: %s" % (len(got), tries, msg[:1500], canon(case)[:1500]))
        if done:
            break
    cov["unconfirmed"] = unconfirmed
    if errors and not viol:
        print("CHECK ERROR\n" + errors[0])
        sys.exit(3)
    return cov, viol, replay_path

def replay(pid, modname, path):
    mod = importlib.import_module(modname)
    progs = build.programs(mod.PROGRAMS) if mod.PROGRAMS else {}
    if hasattr(mod, "prepare"):
        progs.update(mod.prepare())
    env = Env(progs, "quick")
    if hasattr(mod, "start"): mod.start(env)
    case = json.load(open(path))["case"]
    tries, needed = getattr(mod, "CONFIRM", (1, 1))
    got = [m for m in (one(mod, case, env) for _ in range(tries)) if m is not None]
    if hasattr(mod, "stop"): mod.stop(env)
    if len(got) >= min(needed, 1):
        print("FAILS: " + got[0])
        return 1
    print("holds")
    return 0
