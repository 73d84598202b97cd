"""Large inputs for the program-level checks: hundreds of thousands of records or lines, with sizes around those at which buffers,
blocks and narrow counters end.  A few cases each; the data are a function of the case."""
from common import *
import bz2
import numpy as np

REC = np.dtype([("u", "<u8"), ("l", "<u8"), ("c", "<u4")])
RULE = "large inputs: up to some hundred thousand records or lines, with sizes at and next to powers of two and multiples of usual buffer sizes; every case is non-trivial"

def size(top):
    """number of records of 20 bytes"""
    edges = sorted({max(1, e + d) for k in range(9, 20) for e in (1 << k, (1 << k) // 20, ((1 << k) // 20) * 3) for d in (-1, 0, 1) if e + d <= top} | {n for n in (1000, 10000, 65535, 65536, 65537, 100000) if n <= top})
    return st.one_of(st.sampled_from(edges), st.integers(1, top))

def table(n, seed, kind):
    """n different sorted records"""
    r = np.random.default_rng([n, seed])
    t = np.zeros(n, REC)
    if kind == "even":
        t["u"] = r.integers(0, 1 << 64, n, dtype=np.uint64); t["l"] = r.integers(0, 1 << 64, n, dtype=np.uint64)
    elif kind == "shared":                                     # many hashes in common with others of this kind
        k = r.permutation(n + n // 4 + 1)[:n].astype(np.uint64)
        t["u"] = k * np.uint64(0x9E3779B97F4A7C15); t["l"] = k
    elif kind == "one upper":                                  # the upper half decides nothing
        t["u"] = 77; t["l"] = r.permutation(2 * n)[:n].astype(np.uint64)
    else:                                                      # clusters
        t["u"] = (r.integers(0, 50, n, dtype=np.uint64) << np.uint64(56)) + r.integers(0, 1000, n, dtype=np.uint64); t["l"] = r.integers(0, 1 << 64, n, dtype=np.uint64)
    t["c"] = r.integers(1, 1000, n)
    return total([t])

def total(ts):
    """sum of tables, sorted"""
    t = np.concatenate(ts)
    if len(t) == 0: return t
    t = t[np.lexsort((t["l"], t["u"]))]
    first = np.concatenate(([True], (t["u"][1:] != t["u"][:-1]) | (t["l"][1:] != t["l"][:-1])))
    at = np.flatnonzero(first)
    r = t[at].copy(); r["c"] = np.add.reduceat(t["c"].astype(np.uint64), at)
    return r

KINDS = ["even", "shared", "one upper", "clusters"]
def same(data, want, what):
    require(len(data) % 20 == 0, what + ": ends within a record")
    got = np.frombuffer(data, REC)
    if len(got) == len(want) and (got == want).all(): return
    n = min(len(got), len(want))
    bad = np.flatnonzero(got[:n] != want[:n])
    i = int(bad[0]) if len(bad) else n
    raise Fail("%s: %d records instead of %d; the first difference is record %d: %s instead of %s" % (what, len(got), len(want), i, got[i] if i < len(got) else "none", want[i] if i < len(want) else "none"))

def lines(n, seed, space, long=False):
    r = np.random.default_rng([n, seed, 7])
    k = r.integers(0, space, n)
    return [b"p%d" % x if not long else b"p%d" % x + b"w" * (x % 190) for x in k.tolist()]
def key_of(t, i): return (int(t["u"][i]) << 64) | int(t["l"][i])
def md5_table(pwds):
    c = {}
    for p in pwds: c[p] = c.get(p, 0) + 1
    t = np.zeros(len(c), REC)
    d = b"".join(hashlib.md5(p).digest() for p in c)
    h = np.frombuffer(d, ">u8").reshape(-1, 2)
    t["u"] = h[:, 0]; t["l"] = h[:, 1]; t["c"] = list(c.values())
    return total([t])
