"""Strategies and reference models shared by the program-level checks."""
import hashlib, os, random, struct
from hypothesis import strategies as st
from pyrun import Fail, require

M64 = (1 << 64) - 1

def weighted(*pairs):
    """one_of drops repeated alternatives; this does not"""
    index = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]
    return st.sampled_from(index).flatmap(lambda i: pairs[i][1])

# ---- MD5:count files -------------------------------------------------------------------------
def rec(key, count):
    """key: 128-bit integer; a record is the upper and lower half and the count, all little-endian"""
    return struct.pack("<QQI", key >> 64, key & M64, count)

def recs(data):
    require(len(data) % 20 == 0, "file of %d bytes ends within a record" % len(data))
    r = []
    for i in range(0, len(data), 20):
        a, b, c = struct.unpack_from("<QQI", data, i)
        r.append(((a << 64) | b, c))
    return r

def dump(items):
    return b"".join(rec(k, c) for k, c in items)

def hx(k):
    return "%032x" % k

def ascending(rs, what):
    for i in range(1, len(rs)):
        require(rs[i - 1][0] < rs[i][0], "%s: record %d (%s) does not sort after record %d (%s)" % (what, i, hx(rs[i][0]), i - 1, hx(rs[i - 1][0])))

def half():
    return st.one_of(st.integers(0, 3), st.integers(0, M64), st.integers(M64 - 3, M64), st.integers(0, 255).map(lambda x: x << 56),
                     st.integers((1 << 63) - 2, (1 << 63) + 2), st.sampled_from([1 << 32, (1 << 32) - 1, 0x0A0D1A00FF00807F]))

def key():
    return st.tuples(half(), half()).map(lambda t: hx((t[0] << 64) | t[1]))

def count(limit=(1 << 32) - 1):
    return st.one_of(st.integers(1, min(300, limit)), st.just(1), st.integers(1, limit), st.integers(max(1, limit - 3), limit))

def pool(min_size=1, max_size=12):
    """a few related hashes that several files share"""
    return st.lists(key(), min_size=min_size, max_size=max_size, unique=True)

def bulk(n, seed, space, limit=1000):
    """n records drawn from a space of hashes, evenly spread or clustered; a function of its arguments only"""
    r = random.Random("%d/%d/%d" % (n, seed, space))
    d = {}
    for _ in range(n):
        x = r.randrange(space) if space else r.getrandbits(128)
        k = x if not space else (hash_of(x) if seed % 3 else x << (seed % 97))
        d[k] = r.randint(1, limit)
    return d

def hash_of(x):
    return int.from_bytes(hashlib.md5(b"%d" % x).digest(), "big")

def model():
    """sorted file as {hex: count}: explicit records or a bulk description"""
    explicit = st.dictionaries(key(), count(), max_size=40).map(lambda d: {"recs": d})
    big = st.tuples(st.integers(1, 3000), st.integers(0, 999), st.sampled_from([0, 0, 100, 5000])).map(lambda t: {"bulk": list(t)})
    return weighted((2, explicit), (1, big))

def build_model(m):
    if "bulk" in m:
        return bulk(*m["bulk"])
    return {int(k, 16): c for k, c in m["recs"].items()}

def file_of(d):
    return dump(sorted(d.items()))

# ---- leak files ------------------------------------------------------------------------------
SEPS = b":;\t "

def md5(p):
    return int.from_bytes(hashlib.md5(p).digest(), "big")

def split_lines(data):
    return data.split(b"\n")

def winners(lines):
    n = [0, 0, 0, 0]
    for l in lines[:500]:
        for i, s in enumerate(SEPS):
            if bytes([s]) in l:
                n[i] += 1
    best = max(n)
    return [SEPS[i] for i in range(4) if n[i] == best] if best else []

def untie(data):
    """data with lines in front so that one separator wins clearly"""
    for _ in range(600):
        w = winners(split_lines(data))
        if len(w) < 2:
            return data
        data = b"tie" + bytes([w[0]]) + b"break\n" + data
    raise AssertionError("no winner")

def passwords(data):
    lines = split_lines(data)
    w = winners(lines)
    assert len(w) < 2
    out = []
    for l in lines:
        if len(l) == 0 or len(l) > 200:
            continue
        l = l.replace(b"\r", b"")
        if w and bytes([w[0]]) in l:
            l = l.split(bytes([w[0]]), 1)[1]
        if l:
            out.append(l)
    return out

HEXD = b"0123456789abcdefABCDEF"
def is_md5(p):
    return len(p) == 32 and all(c in HEXD for c in p)

def hex_content(p):
    if len(p) >= 8 and p.startswith(b"$HEX[") and p.endswith(b"]"):
        c = p[5:-1]
        if len(c) % 2 == 0 and all(x in HEXD for x in c):
            return bytes.fromhex(c.decode())
    return None

def line_bytes():
    word = st.text(alphabet="abcxyzABC0123456789", max_size=8)
    odd = st.sampled_from(["", " ", ":", "::", ";", "\t", "\r", "a b", "\u00fc", "\u20ac", "\x7f", "$", "$HEX[]", "$HEX[4", "\x01", "'", '"'])
    piece = weighted((3, word), (1, odd))
    long = st.integers(195, 206).map(lambda n: "L" * n)
    user = st.one_of(word, word.map(lambda w: w + "@ex.org"))
    line = st.one_of(
        st.tuples(user, st.sampled_from([":", ":", ":", ";", "\t", " "]), piece).map("".join),
        st.tuples(user, st.just(":"), piece, piece).map("".join),
        piece, long, st.just(""))
    return line

def leak_text(max_lines=30):
    """text as latin-1/utf-8 string with explicit lines; ends with or without newline, possibly CRLF"""
    return st.tuples(st.lists(line_bytes(), max_size=max_lines), st.sampled_from(["\n", "\n", "\n", "\r\n"]), st.booleans()).map(
        lambda t: t[1].join(t[0]) + (t[1] if t[2] and t[0] else ""))

def leak_bytes(text):
    return untie(text.encode("utf-8"))

def bulk_leak(n, words, seed):
    """n lines over a vocabulary of `words` passwords; a function of its arguments only"""
    r = random.Random("%d/%d/%d" % (n, words, seed))
    return b"".join(b"user%d:pw%d\n" % (r.randrange(1000), int(r.random() ** 2 * words)) for _ in range(n))

def tree(path):
    """all files below path with their contents"""
    d = {}
    for base, _, names in os.walk(path):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                d[os.path.relpath(p, path)] = f.read()
    return d

def diff_tree(before, after, what):
    for k in before:
        require(k in after, "%s: file %s is gone" % (what, k))
        require(after[k] == before[k], "%s: file %s was changed" % (what, k))
    extra = sorted(set(after) - set(before))
    require(not extra, "%s: unexpected file %s" % (what, extra[:3]))

# ---- databases of passwords ------------------------------------------------------------------
def typed():
    """what may be typed into a prompt: any bytes but a line feed, as hex"""
    word = st.text(alphabet="abcdeABC0123 ", max_size=10).map(lambda s: s.encode())
    uni = st.text(alphabet=st.characters(exclude_characters="\n", exclude_categories=("Cs",)), max_size=12).map(lambda s: s.encode("utf-8"))
    odd = st.sampled_from([b"", b" ", b"  ", b"\t", b"\r", b"a\r", b" a", b"a ", b"a b", b"\x00", b"a\x00b", b"\xff\xfe", b"\x04", b"\x1a", b"y" * 63, b"y" * 64, b"y" * 55, b"y" * 56, b"z" * 5000,
                           b"q", b"n", b"exit", b"quit", b"\"x\"", b"$HEX[61]", b"0123456789abcdef0123456789abcdef", b"%s%n"])
    raw = st.binary(max_size=20).map(lambda b: b.replace(b"\n", b""))
    return weighted((2, word), (1, uni), (1, odd), (1, raw)).map(bytes.hex)

def password_db():
    """{"pw": [[password hex, count]], "near": bits, "noise": [n, seed]}: passwords, hashes next to them, unrelated ones"""
    return st.fixed_dictionaries({
        "pw": st.lists(st.tuples(typed(), count()), max_size=14, unique_by=lambda t: t[0]),
        "near": st.integers(0, 3),
        "noise": st.tuples(st.one_of(st.just(0), st.integers(0, 30), st.integers(0, 3000)), st.integers(0, 999)),
    })

def build_password_db(case):
    n, seed = case["noise"]
    d = bulk(n, seed * 3 + 1, 0, (1 << 32) - 1) if n else {}
    for p, c in case["pw"]:
        k = md5(bytes.fromhex(p))
        if case["near"] & 1: d.setdefault((k + 1) % (1 << 128), 1)
        if case["near"] & 2: d.setdefault((k - 1) % (1 << 128), 77)
    for p, c in case["pw"]:
        d[md5(bytes.fromhex(p))] = c
    return d

import re
ANSWER = re.compile(rb"MD5 hash:? *([0-9a-fA-F]{32})\s*\n(Found (\d+) times|Not found)")

def lookup(env, args, lines, tail=True, **kw):
    """types the lines into the lookup program; [(hash, count)]"""
    data = b"\n".join(lines) + (b"\n" if tail and lines else b"")
    r = env.run("lookup", args, stdin=data, **kw)
    return [(int(h, 16), int(c) if c else 0) for h, _, c in ANSWER.findall(r.out)]

def require_answers(got, lines, db, what):
    for i, l in enumerate(lines):
        require(i < len(got), "%s: %d lines typed, but only %d answers" % (what, len(lines), len(got)))
        k = md5(l)
        require(got[i][0] == k, "%s: line %d (%r): hash %s printed, its MD5 is %s" % (what, i, l[:80], hx(got[i][0]), hx(k)))
        require(got[i][1] == db.get(k, 0), "%s: line %d (%r): count %d printed, the database says %d" % (what, i, l[:80], got[i][1], db.get(k, 0)))
    require(len(got) == len(lines), "%s: %d answers to %d lines" % (what, len(got), len(lines)))

def expected_index(keys, bits):
    """keys ascending; file contents of the index"""
    import array
    a = array.array("Q", b"\xff" * 8 * (1 << bits))
    seen = -1
    for i, k in enumerate(keys):
        b = k >> (128 - bits)
        if b != seen:
            a[b] = i * 20; seen = b
    return a.tobytes()

def require_index(data, keys, bits, what="index"):
    want = expected_index(keys, bits)
    if data == want:
        return
    require(len(data) == len(want), "%s: %d entries instead of %d" % (what, len(data) // 8, len(want) // 8))
    for i in range(0, len(want), 8):
        if data[i:i + 8] != want[i:i + 8]:
            raise Fail("%s: entry %#x is %d, should be %d" % (what, i // 8, int.from_bytes(data[i:i + 8], "little"), int.from_bytes(want[i:i + 8], "little")))
