"""C40: the load tester with an https address."""
import c40, ssl
from c40 import *
CASES = {"quick": 120, "thorough": 4000}
RULE = ("case = as above with an https address, the server's certificate being signed by the trusted authority, by another one or by itself, or expired, and the ways it ends a connection (orderly, without a word, by reset, during the handshake, not at all); "
        "non-trivial = at least ten requests have been answered, or an untrusted server has been refused")
CERTS = ["good", "chain", "other", "self", "expired"]

def prepare():
    d = os.path.join(build.BUILD, "c40s"); os.makedirs(d, exist_ok=True)
    def put(n, data):
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p, "rb").read() != data:
            with open(p + ".tmp%d" % os.getpid(), "wb") as f: f.write(data)
            os.replace(p + ".tmp%d" % os.getpid(), p)
        return p
    pem = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c40_tls.pem")).read()
    part = dict(re.findall(r"== (\S+)\n((?:(?!== ).*\n?)*)", pem))
    for n in part: put(n + ".pem", part[n].encode())
    put("root_certificates_generated.hpp", b"#define ROOT_CERTIFICATES (" + b"".join(b'"' + l.encode() + b'\\n"' for l in part["ca"].split("\n")) + b")\n")
    src = build.src("pwned-server/loadtest", "pwned-server/uri.cpp")
    roots = [s for s in src if s.endswith("root_certificates.cpp")][0]
    put("root_certificates.hpp", open(roots[:-3] + "hpp", "rb").read())
    s = [x for x in src if x != roots] + [put("root_certificates.cpp", open(roots, "rb").read())] + build.LIB() + [build.VERIF + "/cxx/clock.cpp"]
    r = build.build({"loadtest": (s, build.BASE + build.SAN, build.LIBS + ["-lssl"])})
    r["tls"] = d
    return r

def strategy(tier):
    how = weighted((8, st.just("ok")), (1, st.sampled_from(["slow", "pieces", "text", "close", "reset", "404", "empty", "chunked", "hello", "stall", "mute"])))
    return st.fixed_dictionaries({"n": st.sampled_from([1, 2, 7, 30]), "seed": st.integers(0, 99), "workers": st.integers(1, 6), "threads": st.integers(0, 3), "secs": st.sampled_from([1, 2, 6]), "host": st.sampled_from([None, None, "127.0.0.1", "localhost"]), "path": st.sampled_from(["", "/lookup", "/v1/pwned/api/lookup"]),
                                  "how": st.lists(how, min_size=1, max_size=8), "cert": weighted((5, st.just("good")), (2, st.just("chain")), (1, st.sampled_from(CERTS[2:]))), "end": st.lists(weighted((6, st.just("unwrap")), (6, st.just("close")), (6, st.just("reset")), (1, st.just("hang"))), min_size=1, max_size=3), "plain": weighted((20, st.just(False)), (1, st.just(True)))})

class TLSStub(Stub):
    def __init__(self, how, db, ctx, end, plain, host):
        self.ctx, self.end, self.plain, self.shaken, self.j = ctx, end, plain, 0, 0
        super().__init__(how, db, host)
    def serve(self, c):
        c.settimeout(20)
        with self.lock: how, self.j = self.how[self.j % len(self.how)], self.j + 1
        try:
            if self.plain: c.sendall(b"HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n"); c.close(); return
            if how == "mute": c.settimeout(None); self.drain(c); c.close(); return
            if how == "hello": c.recv(7); c.close(); return
            c = self.ctx.wrap_socket(c, server_side=True)
        except OSError: c.close(); return
        with self.lock: self.shaken += 1
        super().serve(c)
    def drain(self, c):
        try:
            while c.recv(4096): pass
        except OSError: pass
    def rest(self, c):
        super().rest(c)
        with self.lock: end = self.end[self.answered % len(self.end)]
        try:
            if end == "unwrap": c.unwrap()
            elif end == "reset": hc.reset(c)
            elif end == "hang":
                c.settimeout(None)
                while os.read(c.fileno(), 4096): pass
        except (OSError, ValueError): pass

def check(case, env):
    d = bulk(case["n"], case["seed"], 0)
    db = env.write("db", file_of(d))
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    ctx.load_cert_chain(os.path.join(env.progs["tls"], case["cert"] + ".pem"))
    sv = TLSStub(case["how"], d, ctx, case["end"], case["plain"], case["host"] and "127.0.0.1")
    e = dict(SAN_ENV); e["VSPEED"] = "20"
    args = ["-I", db, "-A", "https://%s:%d%s" % (case["host"] or sv.host, sv.port, case["path"]), "-W", case["workers"], "-T", case["threads"], "--secs", case["secs"]]
    p = subprocess.Popen([env.progs["loadtest"]] + [str(a) for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
    try: out, err = p.communicate(timeout=90)
    except subprocess.TimeoutExpired: out = None
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        if out is None: p.communicate()
        p.wait(); sv.stop()
    require(out is not None, "the load test of %d s does not end within 90 s" % case["secs"])
    err = err.decode("utf-8", "replace")
    require(p.returncode != 99 and "AddressSanitizer" not in err and "runtime error:" not in err, "sanitizer report\n" + err[:1500])
    require(p.returncode == 0, "exit status %d\n%s" % (p.returncode, err[-500:]))
    text = out.decode("utf-8", "replace")
    m = re.search(r"(\d+) requests in (\S+) seconds \((\S+) reqs/sec\)", text)
    require(m, "no result in %r" % text[-300:])
    n = int(m.group(1))
    if case["cert"] not in ("good", "chain"):
        require(not sv.asked and not sv.answered and n == 0, "%d requests are sent to a server whose certificate (%s) is not to be trusted" % (len(sv.asked), case["cert"]))
        if not case["plain"]: require(err.strip(), "the untrusted certificate is not reported")
        env.label("certificate: " + case["cert"]); env.nontrivial = not case["plain"]; return
    require(n == sv.answered, "%d requests are reported, %d have been answered" % (n, sv.answered))
    for q in sv.asked:
        r = re.fullmatch(rb"GET (\S*)\?hash=([0-9a-fA-F]{32}) HTTP/1\.1", q.split(b"\r\n")[0])
        require(r and r.group(1) == case["path"].encode(), "request %r" % q.split(b"\r\n")[0])
        require(int(r.group(2), 16) in d, "hash %s is not in the input file" % r.group(2).decode())
    require(sv.most <= case["workers"], "%d requests at once by %d workers" % (sv.most, case["workers"]))
    fine = not case["plain"] and all(h in ("ok", "slow", "pieces", "404", "chunked") for h in case["how"])
    if fine and "reset" not in case["end"] and "hang" not in case["end"]:
        require(n >= case["workers"], "%d requests by %d workers" % (n, case["workers"]))
        require(float(m.group(2)) >= case["secs"], "the test ends after %s of %d s\n%s" % (m.group(2), case["secs"], err[-300:]))
    if n:
        secs, rate = float(m.group(2)), float(m.group(3))
        require(secs > 0 and abs(rate - n / secs) <= rate * 0.01 + 1e-3, "%d requests in %g seconds are not %g per second" % (n, secs, rate))
    env.label("certificate: " + case["cert"])
    env.nontrivial = n >= 10
