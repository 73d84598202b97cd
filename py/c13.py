"""C13: answers of the web service, one request after the other."""
from common import *
import http_client as hc
PROGRAMS = ["server", "index"]
CASES = {"quick": 1800, "thorough": 10000}
RULE = ("case = database with modification time, index or none, base path, workers, threads, up to 40 requests (lookups, info, other paths and methods, invalid hash parameters, decorated targets, cut into segments); "
        "non-trivial = at least one lookup of a contained and one of another hash")

def strategy(tier):
    inside = st.integers(0, 5000).map(lambda i: ["in", i])
    which = weighted((3, inside), (1, st.tuples(st.integers(0, 5000), st.sampled_from([-1, 1, 1 << 64, 1 << 127])).map(lambda t: ["near", t[0], str(t[1])])), (1, key().map(lambda k: ["key", k])))
    deco = st.sampled_from(["", "", "", "upper", "mixed", "&x=1", "x=1&", "#frag", "&a&b", "&=", "a=b=c&", "&hash2=0", "Hash=00&", "#hash=1"])
    look = st.tuples(which, deco).map(lambda t: ["lookup", *t])
    bad = st.tuples(which, st.sampled_from(["short", "long", "empty", "nonhex", "0x", "space", "plus", "double", "first", "last", "sign", "nul"]), st.integers(0, 31)).map(lambda t: ["bad", *t])
    other = st.sampled_from([["path", p] for p in ("BASE", "BASE/", "BASE/lookup2?hash=H", "BASE/Lookup?hash=H", "BASE/lookup/?hash=H", "/nope", "/", "BASE/infos", "BASE/info/", "BASE//info", "XBASE/info", "/lookup/lookup/info2", "BASE/lookup/x?hash=H", "/x?/info",
                                                   "/%00", "/" + "a" * 3000, "/?" + "a=b&" * 500, "BASE?hash=H", "/../BASE/info", "BASE/lookupx?hash=H", "*", "/\xfc")])
    method = st.tuples(st.sampled_from(["HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "get", "FOO", "TRACE", "CONNECT", "PROPFIND", "SEARCH", "PURGE", "LINK", "Get"]), st.sampled_from(["/lookup?hash=H", "/info", "/nope"]), st.sampled_from([0, 0, 5, 3000])).map(lambda t: ["method", *t])
    info = st.sampled_from([["info", ""], ["info", "?x=1"], ["info", "#f"], ["info", "?hash=H"]])
    req = weighted((4, look), (1, bad), (1, other), (1, method), (1, info))
    form = st.tuples(st.sampled_from(["1.1", "1.1", "1.0"]), st.sampled_from([0, 0, 0, 1, 2]), st.sampled_from([0, 0, 1, 60])).map(list)
    return st.fixed_dictionaries({"db": model(), "extreme": st.booleans(), "bits": st.sampled_from([None, None, 1, 5, 9]), "base": st.sampled_from(["/v1/pwned/api", "/v1/pwned/api", "", "/x", "/lookup", "/a/b/c/d", "/info"]),
                                  "workers": st.sampled_from([None, 1, 2, 3, 16]), "threads": st.sampled_from([None, 0, 1, 4]), "v": st.sampled_from([0, 0, 2]), "mtime": st.one_of(st.integers(0, 2**31 + 10), st.sampled_from([0, 1, 10**9, 2**31, 2**32 + 5])),
                                  "reqs": st.one_of(st.lists(st.tuples(req, form), min_size=1, max_size=5), st.lists(st.tuples(req, form), min_size=6, max_size=16), st.lists(st.tuples(req, form), min_size=10, max_size=40))})

def sought(w, keys):
    if w[0] == "key": return int(w[1], 16)
    k = keys[w[1] % len(keys)] if keys else w[1]
    return k if w[0] == "in" else (k + int(w[2])) % (1 << 128)

def spoil(h, how, i):
    return {"short": h[:-1], "long": h + "0", "empty": "", "nonhex": h[:i] + "g" + h[i + 1:], "0x": "0x" + h[2:], "space": h[:i] + "%20" + h[i:], "plus": h[:i] + "+" + h[i + 1:], "double": h + h, "first": "x" + h, "last": h + "x",
            "sign": "-" + h[1:], "nul": h + "%00"}[how]

def check(case, env):
    d = build_model(case["db"])
    if case["extreme"]:
        d[0] = 4294967295; d[(1 << 128) - 1] = 7
    keys = sorted(d)
    db = env.write("db.md5", file_of(d))
    os.utime(db, (5, case["mtime"]))
    index = None
    if case["bits"]:
        index = env.path("i"); env.run("index", ["-I", db, "-O", index, "-B", case["bits"]])
    base = case["base"]
    sv = hc.Server(env, db, index, base, case["workers"], case["threads"], case["v"])
    hit = miss = 0
    try:
        for (q, (version, headers, pieces)) in case["reqs"]:
            hs = [("User-Agent", "t"), ("Accept", "*/*")][:headers]
            body = b""
            method, k = "GET", keys[0] if keys else 1
            if q[0] == "lookup":
                k = sought(q[1], keys); h = hx(k); deco = q[2]
                if deco == "upper": target = base + "/lookup?hash=" + h.upper()
                elif deco == "mixed": target = base + "/lookup?hash=" + "".join(c.upper() if i % 2 else c for i, c in enumerate(h))
                elif deco.endswith("&"): target = base + "/lookup?" + deco + "hash=" + h
                else: target = base + "/lookup?hash=" + h + deco
            elif q[0] == "bad":
                k = sought(q[1], keys); target = base + "/lookup?hash=" + spoil(hx(k), q[2], q[3])
            elif q[0] == "info": target = base + "/info" + q[1].replace("H", hx(k))
            elif q[0] == "path": target = q[1].replace("BASE", base).replace("H", hx(k)) or "/zzz"
            else:
                method, target, body = q[1], base + q[2].replace("H", hx(k)), b"b" * q[3]
            if not target.startswith("/") and q[0] == "path" and target != "*":
                target = "/" + target
            data = hc.request(method, target, version, hs, body)
            s = sv.connect()
            try:
                if pieces:
                    step = max(1, len(data) // pieces) if pieces > 1 else len(data) // 2 + 1
                    for i in range(0, len(data), step): s.sendall(data[i:i + step])
                else: s.sendall(data)
                ans = hc.receive(s, sv)
            finally: s.close()
            what = "%s %s" % (method, target[:120])
            if q[0] == "lookup":
                hc.lookup_answer(ans, k, d.get(k, 0))
                if k in d: hit += 1
                else: miss += 1
            elif q[0] == "bad": hc.not_found(ans, what); env.label("invalid hash")
            elif q[0] == "info": hc.info_answer(ans, len(d), case["mtime"]); env.label("info")
            elif q[0] == "path":
                p = target.split("#")[0].split("?")[0]
                if p not in (base + "/info", base + "/lookup"):
                    require(ans[0] == 404, "%s: status %d instead of 404" % (what, ans[0])); env.label("other path")
            else: require(ans[0] == 400, "%s: status %d instead of 400" % (what, ans[0])); env.label("other method")
        sv.finish()
        require(env.read("db.md5") == file_of(d), "the database is changed")
    finally:
        sv.stop()
    if index: env.label("index")
    if not keys: env.label("empty database")
    env.nontrivial = hit > 0 and miss > 0
