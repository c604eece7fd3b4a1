"""C06 value checks: documented inequalities evaluated on exact rationals."""
from fractions import Fraction as F

import qc
from core import Stream
from related import related

RULE = ("Values, limits, climatologies and spreads on a dyadic lattice (so that 'exactly at the limit' is exact), just inside and outside, plus arbitrary floats away from the limits, and None in every argument; "
        "oracle: the documented inequality in exact rational arithmetic.")


def lattice(rng, lo=-64, hi=64):
    return rng.randint(lo * 8, hi * 8) / 8.0


def maybe(rng, v, p=0.12):
    return None if rng.random() < p else v


def around(rng, at):
    """a value at, just inside or just outside a limit, or elsewhere"""
    return rng.choice([at, at, at + 0.125, at - 0.125, at + 2.0 ** -20, at - 2.0 ** -20, lattice(rng), at + lattice(rng, -3, 3)])


def gen(rng, i):
    kind = KINDS[i % len(KINDS)]
    if kind in ("value", "nonorm"):
        return (kind, rng.choice([None, 0.0, 0, -0.0, 1.5, -99.9, lattice(rng)]))
    if kind == "hard":
        a = lattice(rng)
        b = a + rng.choice([0.125, 1.0, 10.0, 100.0])
        return (kind, maybe(rng, around(rng, rng.choice([a, b]))), [a, b])
    if kind == "clim":
        c = lattice(rng)
        l = rng.choice([8.0, 10.0, 8.0, 0.0, 0.125, 3.5, 100.0])
        v = around(rng, c + rng.choice([-1, 1]) * l)
        return (kind, maybe(rng, v), maybe(rng, c), maybe(rng, l, 0.05))
    if kind == "clim-default":
        c = lattice(rng)
        return (kind, maybe(rng, around(rng, c + rng.choice([-8.0, 8.0]))), maybe(rng, c))
    if kind == "stdev":
        c = lattice(rng)
        lo = rng.choice([0.25, 0.5, 1.0, 2.0])
        hi = lo * rng.choice([2, 4, 16])
        sd = rng.choice([lo, hi, lo / 2, hi * 2, lo * 2, hi / 2, lo / 8, hi * 8, 0.0])
        mult = rng.choice([3.0, 5.5, 1.0, 2.0])
        eff = min(max(sd, lo), hi)
        v = around(rng, c + rng.choice([-1, 1]) * mult * rng.choice([eff, eff, sd, lo, hi]))
        return (kind, maybe(rng, v), maybe(rng, c), maybe(rng, sd), [lo, hi], mult)
    if kind == "lowbar":
        c = lattice(rng)
        sd = rng.choice([0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 0.0])
        mult = rng.choice([3.0, 5.5, 1.0, 2.0])
        low = rng.choice([10.0, 1.0, 0.5, 0.0, mult * sd, mult * sd * 2, mult * sd / 2])
        v = around(rng, c + rng.choice([-1, 1]) * rng.choice([mult * sd, low]))
        return (kind, maybe(rng, v), maybe(rng, c), maybe(rng, sd), mult, low)
    if kind == "supersat":
        t = lattice(rng)
        return (kind, maybe(rng, around(rng, t)), maybe(rng, t))
    if kind == "freeze":
        fp = rng.choice([-1.75, -1.875, 0.0, -2.0, 1.0])
        un = rng.choice([0.0, 0.125, 0.5, 1.0])
        n = rng.choice([2.0, 1.0, 0.0, 3.0])
        return (kind, maybe(rng, around(rng, fp - n * un)), un, fp, n)
    if kind == "freeze-default":
        return (kind, maybe(rng, rng.choice([-1.8, -1.81, -1.79, -1.7, -1.9, 0.0, 20.0, -3.0, -1.8001, -1.7999])))
    if kind == "wind":
        lim = rng.choice([3.0, 5.0, 2.5, 0.0])
        return (kind, rng.choice([0, 0.0, around(rng, lim), abs(around(rng, lim)), lattice(rng, 0, 60)]),
                rng.choice([361, 362, 361, 362, 360, 0, 1, 90, 363, None, rng.randint(1, 362)]), lim)
    raise AssertionError(kind)


KINDS = ["value", "nonorm", "hard", "hard", "clim", "clim", "clim-default", "stdev", "stdev", "stdev", "lowbar", "lowbar", "lowbar",
         "supersat", "freeze", "freeze", "freeze-default", "wind", "wind"]


def check(case, m):
    kind, a = case[0], case[1:]
    f = [None if x is None else (x if isinstance(x, list) else F(x)) for x in a]
    ctx = lambda: repr(case)
    if kind == "value":
        got, want = qc.value_check(*a), int(a[0] is None)
    elif kind == "nonorm":
        got, want = qc.no_normal_check(*a), int(a[0] is None)
    elif kind == "hard":
        lim = list(a[1])
        got = qc.hard_limit(*a)
        want = 1 if a[0] is None else int(not (F(lim[0]) <= f[0] <= F(lim[1])))
        m.eq(a[1], lim, "limits-altered", ctx)
    elif kind == "clim":
        got = qc.climatology_check(*a)
        want = 1 if None in a else int(abs(f[0] - f[1]) > f[2])
    elif kind == "clim-default":
        got = qc.climatology_check(*a)
        want = 1 if None in a else int(abs(f[0] - f[1]) > 8)
    elif kind == "stdev":
        got = qc.climatology_plus_stdev_check(*a)
        if None in a[:3]:
            want = 1
        else:
            sd = min(max(f[2], F(a[3][0])), F(a[3][1]))
            want = int(abs(f[0] - f[1]) > f[4] * sd)
    elif kind == "lowbar":
        got = qc.climatology_plus_stdev_with_lowbar(*a)
        if None in a[:3]:
            want = 1
        else:
            d = abs(f[0] - f[1])
            want = int(d > f[3] * f[2] and d > f[4])
    elif kind == "supersat":
        got = qc.supersat_check(*a)
        want = 1 if None in a else int(f[0] > f[1])
    elif kind == "freeze":
        got = qc.sst_freeze_check(*a)
        want = 0 if a[0] is None else int(f[0] < f[2] - f[3] * f[1])
    elif kind == "freeze-default":
        got = qc.sst_freeze_check(*a)
        want = 0 if a[0] is None else int(a[0] < -1.8)
    elif kind == "wind":
        got = qc.wind_consistency(*a)
        want = int((a[1] == 361 and f[0] != 0) or (a[1] == 362 and f[0] > f[2]))
    m.eq(got, want, kind, ctx)
    m.event(kind + ("-fail" if want else "-pass"))
    if None in a:
        m.event("missing-argument")


def gen_float(rng, i):
    return tuple(rng.uniform(-60, 60) for k in range(6))


def check_float(case, m):
    """Arbitrary floats: the same inequalities, cases within rounding of a limit left out, and symmetry."""
    v, c, s, lo, w, u = case
    s, w, u = abs(s) / 8, abs(w), abs(u) / 10 + 0.1

    def judge(got, margin, label):
        if abs(margin) > 1e-9:
            m.eq(got, int(margin > 0), label, lambda: repr(case))
    d = abs(v - c)
    judge(qc.climatology_check(v, c, w), d - w, "clim-float")
    judge(qc.climatology_check(c, v, w), d - w, "clim-float-mirrored")
    lims = [u, u + 2]
    judge(qc.climatology_plus_stdev_check(v, c, s, lims, 3.3), d - 3.3 * min(max(s, lims[0]), lims[1]), "stdev-float")
    judge(qc.climatology_plus_stdev_with_lowbar(v, c, s, 3.3, w), min(d - 3.3 * s, d - w), "lowbar-float")
    judge(qc.hard_limit(v, [lo, lo + w + 1]), max(lo - v, v - lo - w - 1), "hard-float")
    judge(qc.supersat_check(v, c), v - c, "supersat-float")
    judge(qc.sst_freeze_check(v, u, c, 2.0), (c - 2.0 * u) - v, "freeze-float")
    judge(qc.sst_freeze_check(v / 20, u), (-1.8 - 2.0 * u) - v / 20, "freeze-default-sigma")


STREAMS = [
    Stream("lattice", gen, check, 480000, 2000000, need=10000),
    Stream("floats", gen_float, check_float, 80000, 300000, need=5000),
    Stream("related", *related(gen, check, nudge=False, kind=0), 40000, 200000, need=500),
]
