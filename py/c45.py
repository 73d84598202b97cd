"""C45: the certificates that the load tester trusts."""
import json, subprocess, time
from common import *
import build
PROGRAMS = []
CASES = {"quick": 480, "thorough": 8000}
RULE = ("case = history of 1..4 runs of getcerts.py in one directory, each with a bundle (0..14 certificates, or hundreds, comments with quotes, backslashes and non-ASCII text, line ends of either kind), the age of what is there, and a transfer that succeeds, "
        "is refused, breaks off, ends early, is killed, or cannot be stored; what the load tester then trusts is asked of its own code; non-trivial = at least two runs download something and one of them fails, or a certificate has been trusted")
NAME = "root_certificates_generated.hpp"

def prepare():
    # the load tester's own code, except that the generated header is that of the case
    d = os.path.join(build.BUILD, "c45"); os.makedirs(d, exist_ok=True)
    def put(n, data):
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p, "rb").read() != data:
            with open(p + ".tmp", "wb") as f: f.write(data)
            os.replace(p + ".tmp", p)
        return p
    src = build.src("pwned-server/loadtest/root_certificates.cpp")[0]
    put(NAME, b"#include <string>\nextern std::string certificatesForTest;\n#define ROOT_CERTIFICATES (certificatesForTest)\n")
    put("root_certificates.hpp", open(os.path.join(os.path.dirname(src), "root_certificates.hpp"), "rb").read())
    s = [put("root_certificates.cpp", open(src, "rb").read()), build.VERIF + "/cxx/roots.cpp"]
    progs = build.build({"roots": (s, build.BASE + build.SAN, build.LIBS + ["-lssl"])})
    progs["getcerts"] = os.path.join(build.REPO, "pwned-server/loadtest/cert/getcerts.py")
    return progs

PEM = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c45_roots.pem")).read()
ROOTS = [x.strip() + "\n" for x in PEM.replace("-----END CERTIFICATE-----\n", "-----END CERTIFICATE-----\n|").split("|") if x.strip()]
COMMENTS = ["##\n## Bundle of CA Root Certificates\n##\n", "\n", "GlobalSign Root CA\n==================\n", "A \"quoted\" name\n===\n", "back\\slash \\\n", "NetLock Arany (Class Gold) F\u0151tan\u00fas\u00edtv\u00e1ny\n", "-----BEGIN SOMETHING-----\n", "/* */ // ??/ %s %d\n", "# MD5 -----END CERTIFICATE-----\n", "# \"-----BEGIN CERTIFICATE-----\" starts one\n", "x-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE----- x\n", "   \t \n"]

def strategy(tier):
    part = weighted((3, st.integers(0, len(ROOTS) - 1)), (2, st.sampled_from(COMMENTS)))
    bundle = st.fixed_dictionaries({"parts": st.lists(part, max_size=14), "crlf": st.sampled_from([False, False, True]), "tail": st.booleans(), "times": weighted((7, st.just(1)), (1, st.integers(2, 60)), (1, st.integers(50, 900)))})
    how = weighted((5, st.just("ok")), (1, st.just("refused")), (1, st.just("missing")), (2, st.just("breaks")), (2, st.just("ends")), (2, st.just("killed")), (2, st.just("full")))
    run = st.fixed_dictionaries({"bundle": bundle, "how": how, "at": st.integers(0, 1000), "pieces": st.sampled_from([1, 7, 100, 4096, 1 << 20]), "chunked": st.booleans(), "age": st.sampled_from([0, 3, 22, 27, 27, 50, 50, 1000])})
    return st.fixed_dictionaries({"runs": st.lists(run, min_size=1, max_size=4), "there": st.sampled_from([None, None, "old", "foreign"])})

DRIVER = r'''
import http.client, io, json, os, resource, runpy, signal, sys, urllib.error, urllib.request
o = json.loads(sys.argv[1])
body = open(o["body"], "rb").read()
class Raw(io.RawIOBase):
    def __init__(self, data): self.d, self.i = data, 0
    def readable(self): return True
    def readinto(self, b):
        n = min(len(b), o["pieces"], len(self.d) - self.i)
        if n == 0:
            if o["how"] == "breaks": raise ConnectionResetError(104, "Connection reset by peer")
            if o["how"] == "killed": os.kill(os.getpid(), signal.SIGKILL)
            return 0
        b[:n] = self.d[self.i:self.i + n]; self.i += n
        return n
class Sock:
    def __init__(self, data): self.data = data
    def makefile(self, *a, **k): return io.BufferedReader(Raw(self.data), 16)
    def close(self): pass
    def sendall(self, *a): pass
def urlopen(url, *a, **k):
    open(o["log"], "a").write("asked\n")
    u = getattr(url, "full_url", url)
    if o["how"] == "refused": raise urllib.error.URLError("no route to host")
    if o["how"] == "missing": raise urllib.error.HTTPError(u, 404, "Not Found", None, None)
    cut = body if o["how"] in ("ok", "full") else body[:o["at"]]
    if o["how"] == "full": resource.setrlimit(resource.RLIMIT_FSIZE, (o["limit"], o["limit"]))
    if o["chunked"]:
        data = b"".join(b"%x\r\n%s\r\n" % (len(cut[i:i + 1000]), cut[i:i + 1000]) for i in range(0, len(cut), 1000))
        if o["how"] in ("ok", "full"): data += b"0\r\n\r\n"
        head = b"Transfer-Encoding: chunked\r\n"
    else: data, head = cut, b"Content-Length: %d\r\n" % len(body)
    r = http.client.HTTPResponse(Sock(b"HTTP/1.1 200 OK\r\nContent-Type: application/x-pem-file\r\n" + head + b"\r\n" + data), method="GET")
    r.begin(); r.url = u
    return r
urllib.request.urlopen = urlopen
sys.argv = [o["script"]]
runpy.run_path(o["script"], run_name="__main__")
'''

def parts(b):
    """a large bundle names most authorities again and again, the last one only once"""
    return b["parts"][:-1] * min(b["times"], 1 + 1800 // max(1, len(b["parts"]))) + b["parts"][-1:]

def text(b):
    s = "".join(ROOTS[p] if isinstance(p, int) else p for p in parts(b))
    if not b["tail"] and s.endswith("\n"): s = s[:-1]
    return s.replace("\n", "\r\n" if b["crlf"] else "\n").encode("utf-8")

def value(env, what):
    """what the header says, according to the compiler"""
    src = env.write("v.c", b'#include <stdio.h>\n#include "w/%s"\n#include "w/%s"\nint main(void) { fputs(ROOT_CERTIFICATES, stdout); return 0; }\n' % (NAME.encode(), NAME.encode()))
    p = subprocess.run(["gcc", "-w", "-x", "c", src, "-o", env.path("v")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    require(p.returncode == 0, what + ": the header does not compile: " + p.stdout[:600])
    return subprocess.run([env.path("v")], stdout=subprocess.PIPE).stdout.decode("utf-8")

def check(case, env):
    w = env.path("w"); os.makedirs(w)
    env.write("w/other.txt", b"other"); env.write("w/root_certificates.cpp", b"// x\n")
    if case["there"]:
        b = b"// foreign\n" if case["there"] == "foreign" else b'#ifndef X\n#define X\n#define ROOT_CERTIFICATES ("" "\\n")\n#endif\n'
        env.write("w/" + NAME, b)
    header = os.path.join(w, NAME)
    tries = failures = trusted = 0
    for no, r in enumerate(case["runs"]):
        what = "run %d (%s)" % (no + 1, r["how"])
        body = text(r["bundle"])
        at = len(body) * r["at"] // 1001
        if r["how"] in ("ends", "breaks", "killed") and at >= len(body): r = dict(r, how="ok")
        env.write("body", body)
        before = open(header, "rb").read() if os.path.exists(header) else None
        if before is not None:
            t = time.time_ns() - r["age"] * 3600 * 10**9
            os.utime(header, ns=(t, t))
        log = env.path("log")
        if os.path.exists(log): os.unlink(log)
        o = {"script": env.progs["getcerts"], "body": env.path("body"), "log": log, "how": r["how"], "at": at, "pieces": r["pieces"], "limit": 20 + (150 + sum(len(ROOTS[x]) for x in parts(r["bundle"]) if isinstance(x, int))) * r["at"] // 1001, "chunked": r["chunked"]}
        p = subprocess.run(["/usr/bin/python3", "-I", "-B", "-c", DRIVER, json.dumps(o)], cwd=w, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env={"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TZ": "Europe/Berlin"})
        said = p.stdout.decode("utf-8", "replace")[-700:]
        now = open(header, "rb").read() if os.path.exists(header) else None
        require(env.read("w/other.txt") == b"other" and env.read("w/root_certificates.cpp") == b"// x\n", what + ": other files are changed")
        asked = os.path.exists(log)
        due = before is None or r["age"] > 24
        # the age of the header on disk counts from its last download
        if not due:
            require(not asked and now == before and p.returncode == 0, "%s: the header is only %d hours old, but is downloaded again or changed, or the run fails\n%s" % (what, r["age"], said)); env.label("up to date"); continue
        require(asked, "%s: nothing is downloaded although the header is %s" % (what, "missing" if before is None else "%d hours old" % r["age"]))
        tries += 1
        if r["how"] != "ok":
            failures += 1; env.label(r["how"])
            require(now == before, "%s after %d of %d bytes: the header has been %s although the download failed" % (what, at, len(body), "created" if before is None else "changed" if now is not None else "removed"))
            require(p.returncode != 0, what + ": success is reported\n" + said)
            if before is not None: require(os.stat(header).st_mtime_ns == t, what + ": the header counts as new, so that the next run does not try again")
            continue
        require(p.returncode == 0 and now is not None, "%s: exit status %d\n%s" % (what, p.returncode, said))
        roots = [x for x in parts(r["bundle"]) if isinstance(x, int)]
        v = value(env, what)
        got = v.replace("\r", "")
        want = "".join(ROOTS[x] for x in roots)
        require(got.strip("\n") == want.strip("\n"), "%s: the header holds %r..., the bundle %d certificates" % (what, got[:200], len(roots)))
        env.write("pem", v.encode("utf-8"))
        out = env.run("roots", [env.path("pem")]).text().split("\n")[:-1]
        if roots:
            names = sorted({"Root %d" % (x + 1) for x in roots})
            require(sorted(out) == names, "%s: the load tester trusts %s instead of %s" % (what, out, names))
            trusted += 1
            if len(v) > 65536: env.label("more than 64 KB")
            if len(v) > 1 << 18: env.label("more than 256 KB")
        else: require(all(l.startswith("error") for l in out), "%s: the load tester trusts %s, the bundle is empty" % (what, out))
    if trusted: env.label("trusted")
    env.nontrivial = (tries >= 2 and failures > 0) or trusted > 0
