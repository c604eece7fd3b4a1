"""C16 report order, subtraction and the motion data of a voyage."""
import datetime
import itertools

import Extended_IMMA as ex
import geo
from core import Stream, size

RULE = ("Pairs and triples of reports compared both ways round against tuple order; differences against vector arithmetic; voyages put through random histories of adding (in any order, with equal times, coincident positions, "
        "dateline and polar positions), sorting, and moving reports, with the motion data of every report compared with that from its predecessor after every step.")
EXTS = ("speed", "course", "distance", "time_diff")


def pos(r, last):
    k = r.random()
    if last and k < 0.15:
        return last
    if last and k < 0.6:
        la, lo = geo.dest(last[0], last[1], r.uniform(0, 360), r.choice([1, 10, 60, 300]) * r.random())
        return round(la, 2), round(lo, 2)
    if k < 0.7:
        return round(r.uniform(-5, 5), 2), r.choice([179.9, -179.9, 180.0, -180.0, 359.9, 0.05, 181.0])
    if k < 0.75:
        return r.choice([89.9, -89.95, 90.0, -90.0, 88.0]), round(r.uniform(-180, 180), 1)
    return round(r.uniform(-89, 89), 2), round(r.uniform(-180, 359), 2)


def gen_reports(r, n, ids=("SHIP",)):
    base = datetime.datetime(r.choice([1899, 1900, 1980, 1999, 2000, 2004]), r.choice([1, 2, 2, 6, 12]), r.randint(1, 28))
    span = r.choice([2, 24, 24 * 5, 24 * 40, 24 * 400])
    out, last = [], None
    times = [r.choice([round(r.uniform(0, span), 2), float(r.randint(0, span)), r.randint(0, span) + 0.5]) for k in range(n)]
    for k in range(n):
        d = geo.stamp(base, r.choice(times) if r.random() < 0.15 else times[k])
        last = pos(r, last)
        d.update(ID=r.choice(ids), LAT=last[0], LON=last[1], SST=float(k))
        if r.random() < 0.05:
            d["HR"] = int(d["HR"])
        out.append(d)
    return out


def key(d, rep):
    return (d["ID"], rep.dt)


def gen_order(r, i):
    return gen_reports(r, 4, ids=r.choice([("A",), ("A", "B", "AB"), ("12", "2", " 2"), ("SHIP     ", "SHIP")]))


def check_order(c, m):
    reps = [geo.mk(d) for d in c]
    # the time used for ordering is the report's own
    for d, p in zip(c, reps):
        h = (p.dt - datetime.datetime(1800, 1, 1)).total_seconds() / 3600.
        m.ok(abs(h - geo.hours(d)) <= 1e-4, "time-of-report", lambda: "%s for %r" % (p.dt, d))
    for a, b in itertools.product(range(len(c)), repeat=2):
        ka, kb = key(c[a], reps[a]), key(c[b], reps[b])
        ctx = lambda: "%r against %r" % (c[a], c[b])
        m.eq(bool(reps[a] == reps[b]), ka == kb, "equal", ctx)
        m.eq(bool(reps[a] != reps[b]), ka != kb, "not-equal", ctx)
        m.eq(bool(reps[a] > reps[b]), ka > kb, "later", ctx)
        m.eq(bool(reps[a] < reps[b]), ka < kb, "earlier", ctx)
        m.eq(bool(reps[a] >= reps[b]), ka >= kb, "not-earlier", ctx)
        m.eq(bool(reps[a] <= reps[b]), ka <= kb, "not-later", ctx)
        if c[a]["ID"] == c[b]["ID"]:
            m.event("same-platform-same-time" if ka == kb else "same-platform")
            if geo.hours(c[a]) > geo.hours(c[b]) + 1e-3:
                m.ok(bool(reps[a] > reps[b]), "later", ctx)
    un = geo.mk(dict(c[0], HR=None))       # a report without a time is neither before nor after the others of its platform
    m.ok(un.dt is None, "time-of-report", lambda: repr(un.dt))
    for p in reps:
        if p.getvar("ID") == c[0]["ID"]:
            m.ok(not un > p and not p > un and not un < p and not p < un and not un == p, "undated-order", lambda: repr(c))
    for reverse in (False, True):
        order = sorted(reps[::-1] if reverse else reps)
        m.eq([(p.getvar("ID"), p.dt) for p in order], sorted(key(d, p) for d, p in zip(c, reps)), "sorted", lambda: repr(c))


def motion(a, b):
    """speed, distance, course, hours from report dictionary a to b (course None when not defined)."""
    dk = geo.dist(a["LAT"], a["LON"], b["LAT"], b["LON"])
    hr = 0.0 if a.get("HR") is None or b.get("HR") is None else geo.hours(b) - geo.hours(a)
    if abs(hr) < 1e-6:
        hr = 0.0
    crs = geo.course(a["LAT"], a["LON"], b["LAT"], b["LON"])
    if a["LAT"] == b["LAT"] and a["LON"] == b["LON"]:
        crs = 0.0
    elif dk < 0.05 or dk > 20000 or abs(a["LAT"]) > 89.995 or abs(b["LAT"]) > 89.9999:
        crs = None
    return (dk / hr if hr else dk), dk, crs, hr


def same_motion(m, got, want, label, ctx):
    spd, dk, crs, hr = got
    wspd, wdk, wcrs, whr = want
    m.near(dk, wdk, 1e-3 + 1e-7 * wdk + (0.2 if wdk > 20000 else 0), label + "-distance", ctx)
    m.near(hr, whr, 1e-5, label + "-hours", ctx)
    m.near(spd, wspd, 0.1 + 2e-3 * abs(wspd) if 0 < abs(whr) < 0.05 else 1e-2 + 1e-4 * abs(wspd), label + "-speed", ctx)
    if wcrs is not None:
        m.ok(crs is not None and geo.dang(crs, wcrs) < 0.05 + 0.05 / max(wdk, 0.05) and 0 <= crs <= 360, label + "-course", lambda: "%r, expected %r %s" % (crs, wcrs, ctx()))


def gen_sub(r, i):
    a, b = gen_reports(r, 2)
    for d in (a, b):
        if r.random() < 0.06:
            d["HR"] = None
    if r.random() < 0.1:
        b.update(YR=a["YR"], MO=a["MO"], DY=a["DY"], HR=a["HR"])
    return (a, b)


def check_sub(c, m):
    a, b = c
    ra, rb = geo.mk(a), geo.mk(b)
    w = motion(a, b)
    spd, dk, crs, hr = rb - ra
    same_motion(m, (spd, dk, crs, hr), w, "difference", lambda: repr(c))
    m.event("no-elapsed-time" if w[3] == 0 else "backwards" if w[3] < 0 else "forwards")
    if w[1] < 1e-9:
        m.event("coincident")
    # reversing the order keeps the distance and negates the time
    s2, d2, c2, h2 = ra - rb
    m.near(d2, dk, 1e-6 + 1e-9 * dk, "difference-not-symmetric", lambda: repr(c))
    m.near(h2, -hr, 1e-6, "hours-not-antisymmetric", lambda: repr(c))


def gen_voyage(r, i):
    n = size(r, [1, 2, 3, 5, 8, 14, 25], 500)
    reps = gen_reports(r, n)
    if r.random() < 0.5:
        r.shuffle(reps)
    ops, k = [], 0
    while k < n:
        x = r.random()
        if x < 0.75:
            ops.append(("add", k))
            k += 1
        elif x < 0.87:
            ops.append(("sort",))
        elif x < 0.93:
            ops.append(("alt",))
        elif k and x < 0.97:
            d = geo.stamp(datetime.datetime(reps[0]["YR"], reps[0]["MO"], reps[0]["DY"]), r.randint(-48, 48))
            f = r.choice([None, None, "DY", "HR", "YR", "MO"])
            ops.append(("edit", r.randrange(k), d if f is None else {f: d[f] if f == "YR" else r.randint(1, 28) if f == "DY" else r.randint(1, 12) if f == "MO" else float(r.randint(0, 23))}))
        elif k:
            ops.append(("edit", r.randrange(k), {r.choice(["LAT", "LON"]): round(r.uniform(-80, 80), 2)}))
    ops += r.choice([[], [("sort",)], [("sort",), ("alt",)], [("alt",), ("sort",), ("sort",)]])
    return (reps, ops)


def check_voyage(c, m):
    dicts = [dict(d) for d in c[0]]
    reps = [geo.mk(d) for d in dicts]
    idx = {id(p): k for k, p in enumerate(reps)}
    v = ex.Voyage()
    order = []
    stale = False          # a report's time was edited and the voyage has not been sorted since
    alt = False
    for n, o in enumerate(c[1]):
        ctx = lambda: "after step %d %r of %r" % (n, o, c)
        if o[0] == "add":
            v.add_report(reps[o[1]])
            order.append(o[1])
            alt = False
        elif o[0] == "sort":
            before = list(v.reps)
            v.sort()
            order = [idx[id(p)] for p in v.reps]
            m.eq(sorted(order), sorted(idx[id(p)] for p in before), "reports-lost-or-added", ctx)
            for a, b in zip(v.reps, v.reps[1:]):
                m.ok(geo.hours(dicts[idx[id(a)]]) <= geo.hours(dicts[idx[id(b)]]) + 1e-6, "not-in-time-order", ctx)
            stale = False
            alt = False
        elif o[0] == "alt":
            v.calc_alternate_speeds()
            alt = True
        else:
            if ("MO" in o[2] or "YR" in o[2]) and len(o[2]) == 1 and dicts[o[1]]["DY"] > 28:
                o = (o[0], o[1], {"HR": 3.0})
            for k in ("YR", "MO", "DY", "HR", "LAT", "LON"):
                if k in o[2]:
                    if v.reps and v.reps[0] is reps[o[1]]:
                        v.setvar(0, k, o[2][k])
                    else:
                        reps[o[1]].setvar(k, o[2][k])
                    dicts[o[1]][k] = o[2][k]
            stale = True
            alt = False
        m.event("op-" + o[0])
        m.eq([idx[id(p)] for p in v.rep_feed()], order, "reports", ctx)
        m.eq(len(v), len(order), "length", ctx)
        if not order:
            continue
        m.ok(v.last_rep() is reps[order[-1]] and all(v.getrep(k) is reps[j] for k, j in enumerate(order)), "report-at-position", ctx)
        if stale:
            continue
        spd = []
        for k, j in enumerate(order):
            got = tuple(reps[j].getext(e) for e in ("speed", "distance", "course", "time_diff"))
            if k == 0:
                m.ok(all(g is None for g in got), "first-report-has-motion", lambda: "%r %s" % (got, ctx()))
                spd.append(None)
            else:
                w = motion(dicts[order[k - 1]], dicts[j])
                same_motion(m, got, w, "motion", lambda: "report %d %s" % (k, ctx()))
                spd.append(w[0])
        gs = v.get_speed()
        m.ok(len(gs) == len(spd) and gs[0] is None and all(x is v.reps[k].getext("speed") or x == v.reps[k].getext("speed") for k, x in enumerate(gs)), "speeds", ctx)
        if len(order) == 1:
            m.eq(v.meansp(), None, "mean-speed", ctx)
        else:
            want = sum(spd[1:]) / (len(spd) - 1)
            m.near(v.meansp(), want, 0.2 + 3e-3 * max(abs(x) for x in spd[1:]), "mean-speed", ctx)
        if alt:
            for k, j in enumerate(order):
                got = tuple(reps[j].getext(e) for e in ("alt_speed", "alt_distance", "alt_course", "alt_time_diff"))
                if 0 < k < len(order) - 1:
                    same_motion(m, got, motion(dicts[order[k - 1]], dicts[order[k + 1]]), "alternate", lambda: "report %d %s" % (k, ctx()))
                else:
                    m.ok(all(g is None for g in got), "end-report-has-alternate-motion", ctx)
    # reports reused in another voyage carry the motion of that one
    if len(order) > 1:
        w = ex.Voyage()
        for j in reversed(order):
            w.add_report(reps[j])
        w.sort()
        got = [w.getrep(0).getext(e) for e in EXTS]
        m.ok(all(g is None for g in got), "first-report-has-motion", lambda: "reused reversed: %r %r" % (got, c))
        for a, b in zip(w.reps, w.reps[1:]):
            same_motion(m, tuple(b.getext(e) for e in ("speed", "distance", "course", "time_diff")), motion(dicts[idx[id(a)]], dicts[idx[id(b)]]), "motion-reused", lambda: repr(c))


STREAMS = [
    Stream("order", gen_order, check_order, 6000, 40000, need=50000),
    Stream("differences", gen_sub, check_sub, 12000, 120000, need=5000),
    Stream("voyages", gen_voyage, check_voyage, 2400, 25000, need=20000),
]
