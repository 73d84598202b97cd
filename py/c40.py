"""C40: the load tester, against a stand-in server that counts."""
from common import *
import build, json, signal, socket, subprocess, threading, time
import http_client as hc
from pyrun import SAN_ENV
PROGRAMS = []
CASES = {"quick": 500, "thorough": 12000}
RULE = ("case = database (possibly cut within a record), address with a path, workers, threads, duration (its clock runs twenty times as fast) and the ways the server treats requests (answers, answers slowly or in pieces, no JSON, "
        "closes or resets the connection, never answers, does not listen); non-trivial = at least ten requests have been answered")

def prepare():
    s = build.src("pwned-server/loadtest", "pwned-server/uri.cpp") + build.LIB() + [build.VERIF + "/cxx/clock.cpp"]
    return build.build({"loadtest": (s, build.BASE + build.SAN, build.LIBS + ["-lssl"])})

def strategy(tier):
    how = weighted((8, st.just("ok")), (1, st.sampled_from(["slow", "pieces", "text", "close", "reset", "404", "empty", "chunked", "stall"])))
    path = st.sampled_from(["", "/", "/lookup", "/v1/pwned/api/lookup", "/a/b%20c"])
    return st.fixed_dictionaries({"n": weighted((20, st.sampled_from([1, 2, 3, 4, 7, 30, 500])), (1, st.sampled_from([3500, 40000, 120000]))), "seed": st.integers(0, 99), "cut": st.one_of(st.just(0), st.integers(0, 19)), "workers": st.integers(1, 12), "threads": st.integers(0, 5), "secs": st.sampled_from([1, 1, 2, 4]),
                                  "path": path, "how": weighted((5, st.lists(how, min_size=1, max_size=12)), (1, st.lists(st.sampled_from(["ok", "slow", "slow"]), min_size=1, max_size=9)), (1, st.permutations(["slow", "slow", "slow", "ok", "ok"]))), "listen": weighted((15, st.just(True)), (1, st.just(False))), "empty": weighted((15, st.just(False)), (1, st.just(True)))})

class Stub:
    def __init__(self, how, db, host=None):
        self.how, self.lock = how, threading.Lock()
        self.slow = 0
        self.asked, self.answered, self.open, self.most, self.bad, self.i = [], 0, 0, 0, [], 0
        self.s = socket.socket(); self.host = host or hc.address()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind((self.host, 0)); self.port = self.s.getsockname()[1]
        self.s.listen(128)
        self.stopped = False
        self.t = threading.Thread(target=self.accept, daemon=True); self.t.start()
    def accept(self):
        while True:
            try: c, _ = self.s.accept()
            except OSError: return
            if self.stopped: c.close(); return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()
    def serve(self, c):
        c.settimeout(20)
        try:
            data = b""
            while b"\r\n\r\n" not in data:
                d = c.recv(4096)
                if not d: return
                data += d
            with self.lock:
                self.open += 1; self.most = max(self.most, self.open)     # requests not yet answered
                self.asked.append(data); how = self.how[self.i % len(self.how)]; self.i += 1
            body = json.dumps({"hash": "0" * 32, "found": 3, "lookup-time-ms": 0.1}).encode()
            head = b"HTTP/1.1 200 OK\r\nServer: stub\r\nContent-Type: application/json\r\n"
            if how == "slow": time.sleep(0.02)
            with self.lock: self.open -= 1
            if how == "stall": c.settimeout(None); return self.rest(c)
            if how == "close": return
            if how == "reset": hc.reset(c); return
            if how == "text": c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhello"); return self.rest(c)
            if how == "empty": c.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"); return self.rest(c)
            if how == "404": head = head.replace(b"200 OK", b"404 Not Found")
            with self.lock: self.answered += 1; self.slow += how == "slow"
            if how == "chunked":
                c.sendall(head + b"Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n" % (len(body), body)); return self.rest(c)
            msg = head + b"Content-Length: %d\r\n\r\n" % len(body) + body
            if how == "pieces":
                c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                for k in range(0, len(msg), 41): c.sendall(msg[k:k + 41]); time.sleep(0.0005)
            else: c.sendall(msg)
            self.rest(c)
        except OSError as e:
            with self.lock: self.bad.append(str(e))
        finally:
            c.close()
    def rest(self, c):
        try:
            while c.recv(4096): pass
        except OSError: pass
    def stop(self):
        self.stopped = True
        try: self.s.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.s.close(); self.t.join(5)

def check(case, env):
    d = {} if case["empty"] else bulk(case["n"], case["seed"], 0)
    data = file_of(d)
    tail = rec(hash_of(12345), 7)[:case["cut"]]
    db = env.write("db", data + tail)
    sv = Stub(case["how"], d)
    host, port = sv.host, sv.port
    if not case["listen"]: sv.stop()
    e = dict(SAN_ENV); e["VSPEED"] = "20"
    args = ["-I", db, "-A", "http://%s:%d%s" % (host, port, case["path"]), "-W", case["workers"], "-T", case["threads"], "--secs", case["secs"]]
    t0 = time.time()
    p = subprocess.Popen([env.progs["loadtest"]] + [str(a) for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
    try: out, err = p.communicate(timeout=60)
    except subprocess.TimeoutExpired: out = None
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        if out is None: p.communicate()
        p.wait()
        if case["listen"]: sv.stop()
    require(out is not None, "the load test of %d s does not end within 60 s" % case["secs"])
    err = err.decode("utf-8", "replace")
    require(p.returncode != 99 and "AddressSanitizer" not in err and "runtime error:" not in err, "sanitizer report\n" + err[:1500])
    require(p.returncode >= 0, "killed by signal %d\n%s" % (-p.returncode, err[-500:]))
    if not d:
        require(p.returncode != 0 and err.strip(), "an input file without hashes is not refused"); env.label("no hashes"); return
    require(p.returncode == 0, "exit status %d\n%s" % (p.returncode, err[-500:]))
    text = out.decode("utf-8", "replace")
    m = re.search(r"(\d+) requests in (\S+) seconds \((\S+) reqs/sec\)", text)
    require(m, "no result in %r" % text[-300:])
    n = int(m.group(1))
    require(n == sv.answered, "%d requests are reported, %d have been answered" % (n, sv.answered))
    want = (case["path"] or "").encode()
    seen = set()
    for q in sv.asked:
        line = q.split(b"\r\n")[0]
        r = re.fullmatch(rb"GET (\S*)\?hash=([0-9a-fA-F]{32}) HTTP/1\.1", line)
        require(r, "request %r" % line)
        require(r.group(1) == want, "request for %r, the address has %r" % (r.group(1), want))
        k = int(r.group(2), 16)
        require(k in d, "hash %s is not in the input file" % hx(k)); seen.add(k)
        require(re.search(rb"(?im)^host: *" + re.escape(host.encode()), q), "no Host in %r" % q)
    require(sv.most <= case["workers"], "%d requests at once by %d workers" % (sv.most, case["workers"]))
    if case["listen"]: require(len(sv.asked) >= case["workers"], "%d requests by %d workers" % (len(sv.asked), case["workers"]))
    if len(sv.asked) >= 60 * len(d) + 60: require(len(seen) == len(d), "%d of %d hashes are never asked for in %d requests" % (len(d) - len(seen), len(d), len(sv.asked)))
    parts = min(16, len(sv.asked) // 40)
    if len(d) >= 64 and parts >= 2:
        # each of these has a probability of less than 10^-15
        order = {k: i for i, k in enumerate(sorted(d))}
        at = [order[int(re.search(rb"hash=([0-9a-fA-F]{32})", q).group(1), 16)] for q in sv.asked]
        for e in range(parts): require(any(e * len(d) <= parts * i < (e + 1) * len(d) for i in at), "the %d requests ask for none of the hashes of part %d of %d of the file" % (len(at), e + 1, parts))
        env.label("%d parts" % parts)
    if n:
        secs, rate = float(m.group(2)), float(m.group(3))
        require(secs > 0 and abs(rate - n / secs) <= rate * 0.01 + 1e-3, "%d requests in %g seconds are not %g per second" % (n, secs, rate))
        if all(h in ("ok", "slow", "pieces", "404", "chunked") for h in case["how"]):
            require(secs >= case["secs"], "the test ends after %g of %d s" % (secs, case["secs"]))
        v = {k: float(x) for k, x in re.findall(r"(min|max|avg|median) RTT *: *(\S+) ms", text)}
        require(len(v) == 4, "no times in %r" % text[-300:])
        slack = 1e-4 * v["max"]
        require(0 < v["min"] <= v["median"] + slack and v["median"] <= v["max"] + slack and v["min"] <= v["avg"] + slack and v["avg"] <= v["max"] + slack, "round trip times %s" % v)
        if len(v) == 4 and all(h in ("ok", "slow") for h in case["how"]):
            # slow answers take at least 20 ms, which the program sees as 400
            if 2 * sv.slow >= n + 2: require(v["median"] > 390, "%d of %d answers took at least 400 ms, but the median is %g ms" % (sv.slow, n, v["median"])); env.label("mostly slow answers")
            require(v["avg"] >= 390 * sv.slow / n, "%d of %d answers took at least 400 ms, but the average is %g ms" % (sv.slow, n, v["avg"]))
            require(not sv.slow or v["max"] > 390, "an answer took at least 400 ms, but the longest is %g ms" % v["max"])
            require(v["avg"] * n <= 1000 * secs * case["workers"] * 1.01 + 50, "%d round trips of %g ms do not fit into %g seconds with %d workers" % (n, v["avg"], secs, case["workers"]))
    for h in set(case["how"]): env.label(h)
    env.nontrivial = n >= 10
