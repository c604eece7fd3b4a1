"""C33 robust averages."""
import math

import qc
import trackqc as tqc
import numpy as np
from core import Stream

RULE = ("Lists of 1..200 values (distinct, tied, constant, huge outliers, mixed scales; ascending, descending and shuffled; lists and arrays), trims 0 and 3..60 (2 for odd lengths), "
        "missing values anywhere; oracle: order statistics and exact sums (fsum), plus permutation, shift, scale and outlier metamorphic relations.")


def gen(r, i):
    n = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 20, r.randint(1, 40), r.randint(1, 200)])
    kind = r.choice(["tenths", "uniform", "ties", "constant", "outliers", "wide"])
    if kind == "tenths":
        v = [r.randint(-50, 350) / 10.0 for _ in range(n)]
    elif kind == "uniform":
        v = [r.uniform(-10, 10) for _ in range(n)]
    elif kind == "ties":
        v = [float(r.randint(-2, 2)) for _ in range(n)]
    elif kind == "constant":
        v = [r.choice([0.0, 7.25, -3.1])] * n
    elif kind == "outliers":
        v = [r.gauss(0, 1) if r.random() < 0.7 else r.choice([-1, 1]) * r.uniform(50, 900) for _ in range(n)]
    else:
        v = [r.choice([-1, 1]) * 10 ** r.uniform(-3, 4) for _ in range(n)]
    o = r.choice(["as is", "up", "down"])
    if o == "up":
        v.sort()
    elif o == "down":
        v.sort(reverse=True)
    trim = r.choice([0, 3, 4, 5, 10, 10, 20, r.randint(3, 60), n + 1 if n > 1 else 3, max(n, 3), 2 if n % 2 else 4])
    return (v, trim, r.random(), r.choice([0.5, 2.0, -1.0, 3.7]), r.choice([1.0, -40.0, 0.25]), r.choice([0.0, 0.2, 0.6, 1.0]))


def wins(v):
    s = sorted(v)
    n, k = len(s), len(s) // 4
    return math.fsum(s[min(max(j, k), n - 1 - k)] for j in range(n)) / n


def cut(v, trim):
    s = sorted(v)
    k = len(s) // trim if trim else 0
    return s[k:len(s) - k]


def mean(v):
    return math.fsum(v) / len(v)


def std(v):
    a = mean(v)
    return math.sqrt(math.fsum((x - a) ** 2 for x in v) / len(v))


def check(c, m):
    import random
    v, trim, seed, a, b, pmiss = c
    r = random.Random(seed)
    sc = max(1.0, max(abs(x) for x in v))
    tol = 1e-9 * sc
    tol2 = 3e-8 * sc  # spreads: the square root of rounding errors
    ctx = lambda: repr(c)[:300]
    kept = cut(v, trim)
    n, k = len(v), (len(v) - len(kept)) // 2
    sh = list(v)
    r.shuffle(sh)
    # values that are trimmed away, moved outwards
    s = sorted(v)
    out = list(s)
    for j in range(k):
        out[j] -= r.choice([0.0, 1.0, 1e3]) * r.random()
        out[n - 1 - j] += r.choice([0.0, 1.0, 1e3]) * r.random()
    r.shuffle(out)
    for name, fn, want, t, loc, in (("winsorised", lambda x, t: qc.winsorised_mean(x), wins(v), tol, True),
                                    ("trimmed", qc.trimmed_mean, mean(kept), tol, True),
                                    ("trim_mean", tqc.trim_mean, mean(kept), tol, True),
                                    ("trim_std", tqc.trim_std, std(kept), tol2, False)):
        got = fn(list(v), trim)
        m.near(got, want, t, name, ctx)
        if loc:
            m.ok(min(v) - t <= got <= max(v) + t, name + "-range", lambda: (got, min(v), max(v)))
        else:
            m.ok(0 <= got <= (max(v) - min(v)) / 2 + t, name + "-range", lambda: (got, min(v), max(v)))
        m.near(fn(list(sh), trim), want, t, name + "-order", ctx)
        if name != "winsorised":
            m.near(fn(list(out), trim), want, 1e-9 * max(sc, 2e3) if loc else tol2, name + "-outliers", ctx)
        w2 = a * want + b if loc else abs(a) * want
        m.near(fn([a * x + b for x in v], trim), w2, 50 * t, name + "-affine", ctx)
    for fn in (tqc.trim_mean, tqc.trim_std):
        arr = np.array(v)
        fn(arr, trim)
        m.eq([float(x) for x in arr], [float(x) for x in v], "input-array-kept", ctx)
    if n >= 4:
        q = n // 4
        o2 = list(s)
        for j in range(q):
            o2[j] -= r.choice([0.0, 5.0, 1e3]) * r.random()
            o2[n - 1 - j] += r.choice([0.0, 5.0, 1e3]) * r.random()
        r.shuffle(o2)
        m.near(qc.winsorised_mean(o2), wins(v), 1e-9 * max(sc, 2e3), "winsorised-outliers", ctx)
    mv = [None if r.random() < pmiss else x for x in v]
    have = [x for x in mv if x is not None]
    got = qc.missing_mean(mv)
    if not have:
        m.ok(got is None, "missing-mean-none", lambda: repr(got))
        m.event("all-missing")
    else:
        m.near(got, mean(have), tol, "missing-mean", ctx)
    m.eq(len(mv), n, "missing-mean-input", ctx)
    m.event("cut-%s" % ("none" if k == 0 else "one" if k == 1 else "more"))
    m.event("length-%s" % ("under-4" if n < 4 else "4-or-more"))
    m.decided(1)


STREAMS = [Stream("averages", gen, check, 120000, 2000000, need=3000)]
