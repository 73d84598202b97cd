#!/opt/veriftools/pyvenv/bin/python3
"""run.py ID [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]

Decides one property on /repo's working tree.  Exit 0: held on everything explored;
exit 1 with "VIOLATION property=ID replay=PATH": broken; anything else: the check itself failed.
"""
import argparse, json, os, signal, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vlib"))
sys.path.insert(0, os.path.join(VERIF, "py"))
import build, registry

def surroundings():
    """the same for every run: a shell that starts this in the background has interrupts ignored, for instance"""
    signal.pthread_sigmask(signal.SIG_SETMASK, set())
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for s in (signal.SIGQUIT, signal.SIGTERM, signal.SIGCHLD, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU, signal.SIGCONT):
        signal.signal(s, signal.SIG_DFL)
    os.umask(0o022)
    for k in list(os.environ):
        if k.startswith(("LC_", "MALLOC_", "ASAN_", "UBSAN_", "TSAN_")) or k in ("LD_PRELOAD", "LANG", "LANGUAGE", "TZ", "POSIXLY_CORRECT", "COLUMNS", "LINES", "GLIBC_TUNABLES", "BASH_ENV", "ENV", "CDPATH"): del os.environ[k]
    os.environ["LC_ALL"] = "C.UTF-8"

def evidence(pid, tier, seed, cov, wall, violations, assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)

def replay_path(pid, ext):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s.%s" % (pid, ext))

def merge(a, b):
    """coverage of two parts of one check"""
    if a is None:
        return b
    r = dict(a)
    r["evaluations"] = a["evaluations"] + b["evaluations"]
    r["distinct_nontrivial"] = a["distinct_nontrivial"] + b["distinct_nontrivial"]
    r["rule"] = a["rule"] + " || " + b["rule"]
    r["samples"] = a["samples"][:4] + b["samples"][:4]
    c = dict(a.get("classes", {}))
    for k, v in b.get("classes", {}).items():
        c[k] = c.get(k, 0) + v
    r["classes"] = c
    return r

def build_cxx(pid, spec):
    f = build.sched_target if spec["kind"] == "sched" else build.cxx_target
    return f(spec.get("target", pid), spec.get("extra", ()), spec.get("flags", ()))

def run_cxx(pid, spec, tier, seed, cases):
    exe = build_cxx(pid, spec)
    name = spec.get("target", pid)
    rp = replay_path(pid if name == pid else pid + "." + name, "tape")
    if os.path.exists(rp):
        os.unlink(rp)
    out = os.path.join(build.BUILD, "%s.%d.json" % (pid, os.getpid()))
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--replay-out", rp]
    if not cases and tier == "quick":
        cases = spec.get("quick", 0)
    if cases:
        cmd += ["--cases", str(cases)]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=1")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True, errors="replace")
    print(p.stdout, end="")
    if p.returncode not in (0, 1) or not os.path.exists(out):
        print("harness ended with code %s" % p.returncode)
        sys.exit(3)
    cov = json.load(open(out))
    os.unlink(out)
    wall = cov.pop("wall_s"); viol = cov.pop("violations"); cov.pop("verdict", None)
    if not viol and tier == "thorough" and spec.get("fuzz"):
        fz = run_fuzz(pid, spec, seed, rp)
        cov["fuzzing"] = fz
        cov["evaluations"] += fz["executions"]
        viol += fz["violations"]
    return cov, viol, rp

def run_fuzz(pid, spec, seed, rp):
    """coverage-guided search over the same target, 8 processes, bounded by executions"""
    import shutil, tempfile
    exe = build.cxx_target(spec.get("target", pid), spec.get("extra", ()), spec.get("flags", ()), fuzz=True)
    plain = build.cxx_target(spec.get("target", pid), spec.get("extra", ()), spec.get("flags", ()))
    tmp = tempfile.mkdtemp(prefix="fuzz.")
    runs = spec["fuzz"]
    procs = []
    for k in range(8):
        d = os.path.join(tmp, "c%d" % k); os.makedirs(d)
        if k % 2:                                    # half the campaigns start from a few small inputs, half from nothing
            open(os.path.join(d, "s"), "wb").write(bytes((seed * 31 + k * 7 + i * i) & 0x7f for i in range(64)))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_allocation_size_mb=4096", PBT_FUZZ_TAPE=os.path.join(tmp, "tape%d" % k))
        procs.append(subprocess.Popen([exe, d, "-seed=%d" % (seed * 8 + k + 1), "-runs=%d" % (runs // 8), "-max_len=2000", "-len_control=50",
                                       "-timeout=60", "-rss_limit_mb=3000", "-artifact_prefix=%s/a%d-" % (tmp, k)],
                                      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=tmp))
    execs = 0; viol = 0; cover = 0; features = 0
    import re
    for k, p in enumerate(procs):
        err = p.communicate()[1].decode(errors="replace")
        m = re.findall(r"#(\d+)\s", err)
        if m: execs += int(m[-1])
        m = re.findall(r"cov: (\d+) ft: (\d+)", err)
        if m: cover = max(cover, int(m[-1][0])); features = max(features, int(m[-1][1]))
        if p.returncode:
            arts = [f for f in os.listdir(tmp) if f.startswith("a%d-" % k)]
            tape = os.path.join(tmp, "tape%d" % k)
            if not os.path.exists(tape) and arts:     # a crash: turn the artifact into a tape
                data = open(os.path.join(tmp, arts[0]), "rb").read()
                open(tape, "w").write("# fuzzer artifact %s\ntape %s\n" % (arts[0], " ".join(map(str, decode_tape(data)))))
            if os.path.exists(tape):
                ok = 0
                for _ in range(3):
                    q = subprocess.run([plain, "--replay", tape], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    ok += q.returncode == 1
                if ok == 3:
                    viol += 1
                    shutil.copy(tape, rp)
                    print("fuzzer: " + open(tape).readline().strip()[:500])
                else:
                    print("fuzzer failure not confirmed (%d/3)" % ok)
    shutil.rmtree(tmp)
    return {"executions": execs, "edges": cover, "features": features, "violations": viol}

def decode_tape(d):
    t, i = [], 0
    while i < len(d):
        b = d[i]; i += 1
        if b < 0xf0:
            t.append(b)
        else:
            k = (b & 7) + 1; v = 0
            for _ in range(k):
                if i >= len(d): break
                v = (v << 8) | d[i]; i += 1
            t.append(v)
    return t

def main():
    surroundings()
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    pid = a.id.upper()
    spec = registry.CHECKS[pid]
    t0 = time.time()
    try:
        if a.replay:
            sys.exit(replay(pid, spec, a))
        cov, viol, rps = None, 0, []
        for part in spec["parts"]:
            if part["kind"] in ("cxx", "sched"):
                c, v, rp = run_cxx(pid, part, a.tier, a.seed, a.cases)
            elif part["kind"] == "py":
                import pyrun
                c, v, rp = pyrun.run(pid, part["module"], a.tier, a.seed, a.cases, replay_path(pid, "json"))
            else:
                import jsrun
                c, v, rp = jsrun.run(pid, a.tier, a.seed, a.cases, replay_path(pid, "json"))
            cov = merge(cov, c)
            viol += v
            if v:
                rps.append(rp)
                break
        for k in registry.known(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        evidence(pid, a.tier, a.seed, cov, time.time() - t0, viol, spec.get("assumptions", []))
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (pid, a.tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        if viol:
            print("VIOLATION property=%s replay=%s" % (pid, rps[0]))
            sys.exit(1)
        sys.exit(0)
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        sys.exit(4)

def replay(pid, spec, a):
    if a.replay.endswith(".tape"):
        parts = [p for p in spec["parts"] if p["kind"] in ("cxx", "sched")]
        names = os.path.basename(a.replay).split(".")
        part = ([p for p in parts if p.get("target", pid) in names[1:]] or [p for p in parts if p.get("target", pid) == pid] or parts)[0]
        exe = build_cxx(pid, part)
        rc = subprocess.run([exe, "--replay", a.replay, "--tier", a.tier], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_allocation_size_mb=4096")).returncode
    else:
        kinds = [p["kind"] for p in spec["parts"]]
        if "js" in kinds:
            import jsrun
            rc = jsrun.replay(pid, a.replay)
        else:
            import pyrun
            part = [p for p in spec["parts"] if p["kind"] == "py"][0]
            rc = pyrun.replay(pid, part["module"], a.replay)
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (pid, a.replay))
    return rc

if __name__ == "__main__":
    main()
