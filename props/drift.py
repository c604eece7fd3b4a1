"""Drifter records and reference models shared by the aground, speed, tail and bias checks."""
import datetime
import random

import Extended_IMMA as ex
import geo

TOL = geo.dist(0, 0, 0.01, 0.01)


def times(r, n, step=None, gap=None):
    """hours from the start; multiples of 0.1875 h so that the day fractions are exact"""
    step = step or r.choice([0.75, 1.5, 3, 6, 6, 12, 24])
    gap = r.choice([0, 0, 0.02, 0.2]) if gap is None else gap
    out, t = [], 0.0
    ragged = r.random() < 0.25 and step >= 0.75
    for k in range(n):
        if k:
            x = r.random()
            if x >= gap:
                t += 0.1875 * r.randint(1, int(step / 0.1875) * 2) if ragged else step
            else:
                t += r.choice([0, step, 2 * step, 5 * step, 36, 96, 240, 264, 24 * r.randint(1, 15), 0.75 * r.randint(1, 40)])
        out.append(t)
    return out


def mk(c):
    """c: dict(base=(y, m, d), t=[...], lat=[...], lon=[...], plus optional columns) -> list of report dictionaries"""
    base = datetime.datetime(*c["base"])
    out = []
    for k, t in enumerate(c["t"]):
        d = geo.stamp(base, t)
        d.update(ID=c.get("id", "2300123  "), PT=c.get("pt", 7), LAT=c["lat"][k], LON=c["lon"][k])
        out.append(d)
    return out


def voyage(recs, ext=None):
    v = ex.Voyage()
    for k, d in enumerate(recs):
        p = geo.mk(d)
        if ext:
            for name, val in ext[k].items():
                p.setext(name, val)
        v.add_report(p)
    return v


def ordered(recs):
    """the order the sort puts them in: time, ties as given"""
    return sorted(range(len(recs)), key=lambda k: geo.hours(recs[k]))


def conv(lon, how):
    if how == "0-360":
        return lon if lon >= 0 else round(lon + 360, 2)
    return lon


def entry_rules(c, mk_voyage, call, flags, seed, m, ctx):
    """The voyage-level entry of a drifter check: only drifters are looked at, and the order the reports arrive in does not matter.

    mk_voyage(c) -> voyage, call(v, **sort) runs the check, flags: [(area, name)]."""
    r = random.Random(seed)
    old = r.choice([0, 1, 9])

    def fresh():
        v = mk_voyage(c)
        for k, p in enumerate(v.reps):
            p.setext("place", k)
            for f in flags:
                p.set_qc(f[0], f[1], old)
        return v

    def read(v):
        return [x[1] for x in sorted((p.getext("place"), tuple(p.get_qc(*f) for f in flags)) for p in v.reps)]

    v = fresh()
    pt = r.choice([5, None, 6, 2, 13])
    for p in v.reps:
        p.setvar("PT", pt)
    call(v)
    m.eq(read(v), [(old,) * len(flags)] * len(v.reps), "flagged-although-not-a-drifter", ctx)
    m.event("not-a-drifter")
    if not c["t"] or sorted(set(c["t"])) != list(c["t"]):
        return
    v = fresh()
    v.sort()
    call(v, sort=False)
    want = read(v)
    m.ok(all(x in (0, 1) for row in want for x in row), "flag-value", lambda: "%r %s" % (want, ctx()))
    for how in ("given", "shuffled", "reversed"):
        v = fresh()
        if how == "shuffled":
            r.shuffle(v.reps)
        elif how == "reversed":
            v.reps.reverse()
        call(v, **r.choice([dict(), dict(sort=True)]))
        m.eq(read(v), want, "order-of-arrival", lambda: "%s %s" % (how, ctx()))
        m.eq([p.getext("place") for p in v.reps], list(range(len(v.reps))), "not-left-in-time-order", ctx)
    if any(any(row) for row in want):
        m.event("entry-flagged")
    m.event("orders")
