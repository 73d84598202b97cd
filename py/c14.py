"""C14: the web service under any behaviour of its clients, on one running server per case."""
from common import *
import build, socket, time
import http_client as hc
PROGRAMS = ["index"]
CASES = {"quick": 640, "thorough": 8000}
CONFIRM = (10, 1)
SHRINK_SECONDS = 60
RULE = ("case = database, index or none, workers, threads, history of up to 40 steps (well-formed requests, bursts of concurrent ones, requests begun and finished later, garbage, truncated and oversized requests, resets before and after "
        "the request is complete, idle connections fewer than the workers), or all workers held by idle clients until the timeout, with the clock running 100 times faster; "
        "non-trivial = well-formed requests are answered after and during misbehaviour")

def prepare():
    spec = (build.PROGRAMS["server"]() + [build.VERIF + "/cxx/shim.cpp"], build.BASE + build.SAN, build.LIBS)
    return build.build({"server-shim": spec})

def strategy(tier):
    inside = st.integers(0, 5000).map(lambda i: ["in", i])
    which = weighted((2, inside), (1, st.tuples(st.integers(0, 5000), st.sampled_from([-1, 1, 1 << 64])).map(lambda t: ["near", t[0], str(t[1])])), (1, key().map(lambda k: ["key", k])))
    ending = st.sampled_from(["close", "half", "reset"])
    get = which.map(lambda w: ["get", w])
    info = st.just(["info"])
    bad = st.sampled_from([["post"], ["bad"], ["missing"]])
    burst = st.tuples(st.lists(which, min_size=2, max_size=30), st.integers(0, 3), st.integers(0, 7)).map(lambda t: ["burst", *t])
    garbage = st.tuples(st.one_of(st.binary(min_size=1, max_size=60), st.sampled_from([b"\r\n\r\n", b"GET\r\n\r\n", b"GET / HTTP/9.9\r\n\r\n", b"\0" * 50, b"GET / HTTP/1.1\r\nContent-Length: -1\r\n\r\n", b"GET / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\n",
                                     b"GET / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nab", b"GET /?hash=%%% HTTP/1.1\r\nHost\r\n\r\n", b"GET ?=&=#?& HTTP/1.1\r\n\r\n", b"GET " + b"&" * 300 + b" HTTP/1.0\r\n\r\n",
                                     b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"])).map(lambda b: b.hex()), ending).map(lambda t: ["garbage", *t])
    partial = st.tuples(which, st.integers(0, 120), ending).map(lambda t: ["partial", *t])
    noread = st.tuples(which, st.sampled_from(["reset", "close", "half"]), st.integers(1, 6)).map(lambda t: ["noread", *t])
    idle = st.integers(0, 2).map(lambda n: ["idle", n])
    begin = st.tuples(which, st.integers(0, 120)).map(lambda t: ["begin", *t])
    finish = st.tuples(st.integers(0, 5), st.sampled_from(["finish", "finish", "close", "reset"])).map(lambda t: ["end", *t])
    big = st.sampled_from([["big", "header"], ["big", "body"], ["big", "line"], ["big", "unsent"]])
    step = weighted((2, get), (1, info), (1, bad), (2, burst), (1, garbage), (1, partial), (1, noread), (1, idle), (3, begin), (2, finish), (1, big))
    # the timeout is 60 s: with the clock at 100 times its speed, every worker is back after 0.6 s
    timeout = st.tuples(st.lists(st.sampled_from(["silent", "partial", "silent"]), min_size=1, max_size=4), which, st.integers(1, 3)).map(lambda t: {"holders": t[0], "which": t[1], "rounds": t[2]})
    steps = st.one_of(st.lists(step, min_size=1, max_size=8), st.lists(step, min_size=6, max_size=20), st.lists(step, min_size=12, max_size=40))
    normal = st.fixed_dictionaries({"steps": steps})
    head = st.fixed_dictionaries({"db": model(), "bits": st.sampled_from([None, 4, 8]), "workers": st.sampled_from([2, 3, 4, 8, 64]), "threads": st.sampled_from([0, 1, 4, 8]), "delay": st.sampled_from([0, 0, 30, 200]), "v": st.sampled_from([0, 0, 2])})
    return st.tuples(head, weighted((20, normal), (1, timeout))).map(lambda t: dict(t[0], **t[1]))

def sought(w, keys):
    if w[0] == "key": return int(w[1], 16)
    k = keys[w[1] % len(keys)] if keys else w[1]
    return k if w[0] == "in" else (k + int(w[2])) % (1 << 128)

BASE = "/v1/pwned/api"
def get(k, **kw):
    return hc.request("GET", BASE + "/lookup?hash=" + hx(k), **kw)

def send(s, data):
    try: s.sendall(data)
    except OSError: pass                                 # the server may have given up on a misbehaving client

def end(s, how):
    try:
        if how == "reset": return hc.reset(s)
        if how == "half":
            s.shutdown(socket.SHUT_WR)
            s.settimeout(20)
            while s.recv(4096): pass
    except OSError: pass
    s.close()

def ask(sv, d, k):
    s = sv.connect()
    try:
        s.sendall(get(k))
        hc.lookup_answer(hc.receive(s, sv), k, d.get(k, 0))
    finally: s.close()

def timeouts(case, env, sv, d, keys):
    for r in range(case["rounds"]):
        held = []
        try:
            for h in case["holders"]:
                s = sv.connect(); held.append(s)
                if h == "partial": send(s, b"GET /v1")
            k = sought(case["which"], keys)
            until, done = time.time() + 60, False
            while not done:
                require(time.time() < until, "round %d: with all workers held by idle clients, no request is answered for 100 minutes" % (r + 1))
                s = sv.connect()
                try:
                    s.settimeout(max(0.1, until - time.time()))
                    s.sendall(get(k))
                    data = b""
                    while True:
                        x = s.recv(65536)
                        if not x: break
                        data += x
                    h = data.find(b"\r\n\r\n")
                    # this request itself may be cut off by the fast clock; then it is repeated
                    if data.startswith(b"HTTP/1.1 200") and h >= 0 and data.endswith(b"}\n"):
                        hc.lookup_answer((200, data[:h], data[h + 4:]), k, d.get(k, 0)); done = True
                except OSError: pass
                finally: s.close()
        finally:
            for s in held: s.close()
    env.label("all workers idle until the timeout")
    env.nontrivial = True

def check(case, env):
    d = build_model(case["db"])
    keys = sorted(d)
    db = env.write("db.md5", file_of(d))
    mtime = int(os.stat(db).st_mtime)
    index = None
    if case["bits"]:
        index = env.path("i"); env.run("index", ["-I", db, "-O", index, "-B", case["bits"]])
    timeout = "holders" in case
    W = len(case["holders"]) if timeout else case["workers"]
    sv = hc.Server(env, db, index, BASE, W, case["threads"], case["v"], prog="server-shim",
                   env_extra={"VSHIM_DELAY": str(case["delay"])} if not timeout else {"VSHIM_WARP": "100"})
    held = []                                            # (socket, key, rest of its request)
    bad = good = 0
    try:
        if timeout:
            timeouts(case, env, sv, d, keys)
            sv.finish()
            return
        for q in case["steps"]:
            sv.alive()
            t = q[0]
            if t == "get":
                ask(sv, d, sought(q[1], keys)); good += bool(bad or held)
            elif t == "info":
                s = sv.connect(); s.sendall(hc.request("GET", BASE + "/info")); a = hc.receive(s, sv); s.close()
                hc.info_answer(a, len(d), mtime); good += bool(bad or held)
            elif t == "post":
                s = sv.connect(); s.sendall(hc.request("POST", BASE + "/info", body=b"x" * 10)); a = hc.receive(s, sv); s.close()
                require(a[0] == 400, "POST: status %d" % a[0])
            elif t == "bad":
                s = sv.connect(); s.sendall(hc.request("GET", BASE + "/lookup?hash=" + "0" * 31)); a = hc.receive(s, sv); s.close()
                hc.not_found(a, "31 digits")
            elif t == "missing":
                s = sv.connect(); s.sendall(hc.request("GET", BASE + "/nothing")); a = hc.receive(s, sv); s.close()
                require(a[0] == 404, "other path: status %d" % a[0])
            elif t == "burst":
                ks = [sought(w, keys) for w in q[1]]
                socks = []
                try:
                    for i, k in enumerate(ks):
                        s = sv.connect(); socks.append(s)
                        data = get(k)
                        if q[2] == 1: s.sendall(data[:20])
                        elif q[2] != 2: s.sendall(data)
                        if q[3] and i % (q[3] + 1) == 0:     # a misbehaving client in between
                            x = sv.connect(); send(x, get(k)[:i * 3]); hc.reset(x); bad += 1
                    if q[2] in (1, 2) and len(ks) <= W - len(held):      # all connected, then all at once
                        for s, k in zip(socks, ks): s.sendall(get(k)[20 if q[2] == 1 else 0:])
                    elif q[2] in (1, 2):
                        for s, k in zip(socks, ks): s.sendall(get(k)[20 if q[2] == 1 else 0:])
                    order = list(range(len(ks)))
                    if q[2] == 3: order.reverse()
                    for i in order:
                        hc.lookup_answer(hc.receive(socks[i], sv), ks[i], d.get(ks[i], 0))
                finally:
                    for s in socks: s.close()
                env.label("concurrent requests"); good += bool(bad or held)
            elif t == "garbage":
                s = sv.connect(); send(s, bytes.fromhex(q[1])); end(s, q[2]); bad += 1; env.label("garbage")
            elif t == "partial":
                s = sv.connect(); send(s, get(sought(q[1], keys))[:-1][:q[2]]); end(s, q[3]); bad += 1; env.label("truncated")
            elif t == "noread":
                for _ in range(q[3]):
                    s = sv.connect(); send(s, get(sought(q[1], keys))); end(s, q[2])
                bad += 1; env.label("reply not read")
            elif t == "big":
                s = sv.connect()
                if q[1] == "header": send(s, hc.request("GET", BASE + "/info", headers=[("X%d" % i, "y" * 100) for i in range(300)]))
                elif q[1] == "body": send(s, hc.request("POST", BASE + "/info", body=b"z" * 3000000))
                elif q[1] == "line": send(s, b"GET /" + b"a" * 200000)
                else: send(s, b"POST / HTTP/1.1\r\nContent-Length: 900000\r\n\r\nabc")
                end(s, "close"); bad += 1; env.label("oversized")
            elif t == "idle":
                for _ in range(q[1] + 1):
                    if len(held) < W - 1: held.append((sv.connect(), None, b""))
                env.label("idle clients")
            elif t == "begin":
                if len(held) < W - 1:
                    k = sought(q[1], keys); data = get(k); n = min(q[2], len(data) - 1)
                    s = sv.connect(); s.sendall(data[:n]); held.append((s, k, data[n:]))
            elif t == "end" and held:
                s, k, rest = held.pop(q[1] % len(held))
                if k is not None and q[2] == "finish":
                    s.sendall(rest)
                    hc.lookup_answer(hc.receive(s, sv), k, d.get(k, 0)); s.close(); env.label("finished later")
                else: end(s, "close" if q[2] == "finish" else q[2]); bad += 1
        for k in (keys[:2] + keys[-1:] + [3, md5(b"none")]):
            ask(sv, d, k)
        for s, k, rest in held:
            if k is not None:
                s.sendall(rest); hc.lookup_answer(hc.receive(s, sv), k, d.get(k, 0))
        sv.finish()
    finally:
        for s, _, _ in held: s.close()
        sv.stop()
    env.nontrivial = bad > 0 and good > 0
