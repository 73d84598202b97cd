"""C32: the Markov programs."""
from common import *
import json
from fractions import Fraction
PROGRAMS = ["markov-generator", "markov-lookup"]
CASES = {"quick": 2400, "thorough": 30000}
RULE = ("case = password or leak file (any valid Unicode), typed passwords built from trained ones, their prefixes, recombinations and unseen symbols; "
        "non-trivial = a symbol has at least two successors and a typed password has probability strictly between 0 and 1")

def strategy(tier):
    alphabet = st.sampled_from(["ab", "abc1", "a\u00fc\u20ac", "\U0001F600x\u00e9", "xyz $"])
    words = alphabet.flatmap(lambda a: st.lists(st.text(alphabet=a, max_size=6), max_size=25))
    uni = st.lists(st.text(alphabet=st.characters(exclude_characters="\n\r\0", exclude_categories=("Cs",)), max_size=8), max_size=12)
    typed_ = st.one_of(st.tuples(st.integers(0, 50), st.integers(0, 8)).map(lambda t: ["prefix", *t]), st.tuples(st.integers(0, 50), st.integers(0, 50), st.integers(0, 5)).map(lambda t: ["mix", *t]),
                       st.text(alphabet="abcxyz1 \u00fc\u20ac", min_size=1, max_size=6).map(lambda s: ["raw", s]), st.sampled_from([" ", "a b", "\r", "a\r", " a"]).map(lambda s: ["raw", s]))
    big = st.tuples(st.integers(500, 3000), st.integers(0, 99)).map(lambda t: {"big": list(t)})
    return st.fixed_dictionaries({"words": weighted((3, words), (1, uni), (1, big)), "user": st.booleans(), "typed": st.lists(typed_, max_size=20), "end": st.sampled_from(["", "\n", "\n\n", "\n\nab\n"]), "v": st.sampled_from([0, 0, 1, 2]),
                                  "tail": st.booleans(), "every": st.sampled_from([None, 1, 7])})

def check(case, env):
    ws = case["words"]
    if isinstance(ws, dict):
        r = random.Random("%d/%d" % tuple(ws["big"]))
        ws = ["".join(r.choice("aabbbcde\u00fc") for _ in range(r.randint(0, 7))) for _ in range(ws["big"][0])]
    data = "".join(("user:" if case["user"] else "") + w + "\n" for w in ws)
    if not case["tail"]: data = data[:-1]
    data = untie(data.encode("utf-8"))
    pws = [p.decode("utf-8") for p in passwords(data)]
    first, trans = {}, {}
    for p in pws:
        first[p[0]] = first.get(p[0], 0) + 1
        for a, b in zip(p, p[1:]):
            t = trans.setdefault(a, {})
            t[b] = t.get(b, 0) + 1
    F = {a: Fraction(c, len(pws)) for a, c in first.items()}
    T = {a: {b: Fraction(c, sum(t.values())) for b, c in t.items()} for a, t in trans.items()}
    src = env.write("pw.txt", data)
    env.write("model", b"old" * 100)
    out = env.run("markov-generator", ["-I", src, "-O", env.path("model")] + ["-v"] * case["v"] + (["-N", case["every"]] if case["every"] else [])).out
    require(env.read("pw.txt") == data, "the input is changed")
    i = out.rfind(b"\n{\n")
    require(i >= 0, "no JSON listing is printed")
    try:
        js = json.loads(out[i:])
    except ValueError as e:
        raise Fail("the listing is no JSON: %s" % e)
    close = lambda x, y, eps: abs(float(x) - float(y)) <= eps * float(y)
    def same(listed, want, what):
        listed = listed or {}
        require({int(k) for k in listed} == {ord(k) for k in want}, "%s lists symbols %s instead of %s" % (what, sorted(map(int, listed))[:9], sorted(map(ord, want))[:9]))
        for k, v in want.items():
            require(close(listed[str(ord(k))], v, 1e-9), "%s: symbol %d has probability %s instead of %s" % (what, ord(k), listed[str(ord(k))], float(v)))
    same(js.get("first"), F, "first")
    succ = js.get("successor") or {}
    require({int(k) for k in succ} == {ord(k) for k in T}, "successors are listed for other symbols than have some")
    for a in T:
        same(succ[str(ord(a))], T[a], "successors of %d" % ord(a))
    lines = list(dict.fromkeys(pws))[:15]
    base = pws or ["ab"]
    for t in case["typed"]:
        if t[0] == "raw": lines.append(t[1])
        elif t[0] == "prefix": lines.append(base[t[1] % len(base)][:t[2] + 1])
        else:
            a, b = base[t[1] % len(base)], base[t[2] % len(base)]
            lines.append(a[:t[3] + 1] + b[-t[3] - 1:])
    lines = [l for l in lines if l]
    text = "\n".join(lines) + (case["end"] if lines else "")
    if not pws:                      # a model of nothing is an empty file, which cannot be loaded
        env.label("no passwords")
        return
    res = env.run("markov-lookup", [env.path("model")], stdin=text.encode("utf-8")).text()
    got = re.findall(r"p = (\S+)", res)
    require(len(got) >= len(lines), "%d passwords typed, %d probabilities printed" % (len(lines), len(got)))
    between = False
    for l, g in zip(lines, got):
        p = F.get(l[0], Fraction(0))
        for a, b in zip(l, l[1:]):
            p *= T.get(a, {}).get(b, Fraction(0))
        between |= 0 < p < 1
        require(close(g, p, 1e-4) if float(p) > 1e-290 else float(g) <= 1e-280, "%r: probability %s printed, should be %.9g" % (l, g, float(p)))
    if any(ord(c) > 127 for p in pws for c in p): env.label("beyond ASCII")
    if any(len(t) > 1 for t in T.values()): env.label("several successors")
    env.nontrivial = between and any(len(t) > 1 for t in T.values())
