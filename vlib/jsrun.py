"""Runs js/c30.js (fast-check) in several processes and collects what they covered."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PWNED_REPO", "/repo")
CASES = {"quick": 60000, "thorough": 400000}
RULE = ("case = sequence of typing, clicking, toggling and replies (delayed, reordered, in two steps, failing in five ways) on the script of index.html in a stand-in page; "
        "non-trivial = lookups of two different passwords are under way at once and at least two replies arrive")

def cmd(*a):
    return ["node", os.path.join(VERIF, "js", "c30.js"), os.path.join(REPO, "pwned-lookup-web", "index.html")] + [str(x) for x in a]

def run(pid, tier, seed, cases, replay_path):
    n, W = cases or CASES[tier], 8
    tmp = tempfile.mkdtemp(prefix="vjs.")
    ps = [subprocess.Popen(cmd("run", seed * 1000 + k, (n + W - 1) // W, os.path.join(tmp, str(k))), stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for k in range(W)]
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": [], "classes": {}, "unconfirmed": 0}
    distinct, fails = set(), []
    for k, p in enumerate(ps):
        out = p.communicate()[0].decode("utf-8", "replace")
        f = os.path.join(tmp, str(k))
        if not os.path.exists(f):
            print("CHECK ERROR\n" + out[-3000:]); sys.exit(3)
        st = json.load(open(f))
        cov["evaluations"] += st["evals"]; distinct.update(st["distinct"]); cov["samples"] += st["samples"][:2]
        for l, c in st["labels"].items():
            cov["classes"][l] = cov["classes"].get(l, 0) + c
        cov["unconfirmed"] += st.get("unconfirmed", 0)
        if st.get("fail"): fails.append(st["fail"])
    shutil.rmtree(tmp)
    cov["samples"] = cov["samples"][:8]
    cov["distinct_nontrivial"] = len(distinct)
    if fails:
        f = min(fails, key=lambda f: len(json.dumps(f["case"])))
        with open(replay_path, "w") as o:
            json.dump({"property": pid, "message": f["message"], "case": f["case"]}, o, indent=1)
        print("FAILS: %s\n  case: %s" % (f["message"], json.dumps(f["case"])))
    return cov, 1 if fails else 0, replay_path

def replay(pid, path):
    return subprocess.run(cmd("replay", path)).returncode
