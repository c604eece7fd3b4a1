"""C22 IQUAM track check."""
import Extended_IMMA as ex
import geo
import trackmodel as tm
from c21 import build, gen_voyage
from core import Stream, size

RULE = ("Voyages of 0 to 40 reports (see C21) of ships, moored and drifting buoys and generic identifiers with random neighbour counts, limits and tolerances; flags compared with a reference greedy removal whose pair violations come from vector arithmetic; "
        "monitors also check that no accepted pair of neighbours is too fast, that an obedient voyage has no flags, and that moving the voyage in time changes nothing.")


def gen_params(r):
    if r.random() < 0.5:
        return dict(buoy_speed_limit=15.0, ship_speed_limit=60.0, delta_d=1.11, delta_t=0.01, number_of_neighbours=5)
    return dict(buoy_speed_limit=r.choice([3.0, 15.0, 40.0]), ship_speed_limit=r.choice([20.0, 60.0, 100.0]), delta_d=r.choice([0.0, 1.11, 11.1]), delta_t=r.choice([0.01, 0.1, 1.0]),
                number_of_neighbours=r.choice([1, 2, 3, 5, 5, 10, 60]))


def gen(r, i):
    v = gen_voyage(r, size(r, [0, 1, 2, 3, 4, 6, 12, 25, 40], 160), ids=r.choice([None, ["BUOY     "]]))
    pt = r.choice([5, 5, 6, 7, None])
    for d in v:
        d["PT"] = pt
        if pt is None:
            del d["PT"]
    if r.random() < 0.1:
        r.shuffle(v)
    return (v, gen_params(r), r.choice([-3, 4, 28, 30]))


def greedy(viol):
    """indices rejected: most violations first, the earliest on ties"""
    viol = {k: set(v) for k, v in viol.items()}
    out = set()
    while any(viol.values()):
        k = max(sorted(viol), key=lambda j: len(viol[j]))
        out.add(k)
        for j in viol[k]:
            viol[j].discard(k)
        viol[k] = set()
    return out


def pairs(reps, par):
    """sets of too-fast neighbours of each report, and whether a pair was too close to call"""
    lim = par["buoy_speed_limit"] if reps[0].get("PT") in (6, 7) else par["ship_speed_limit"]
    v = {k: set() for k in range(len(reps))}
    for a in range(len(reps)):
        for b in range(a + 1, min(len(reps), a + par["number_of_neighbours"] + 1)):
            s, dk, crs, hr = tm.hop(reps[a], reps[b])
            q = tm.gt(max(0.0, dk - par["delta_d"]) / (abs(hr) + par["delta_t"]), lim, 1e-5, 1e-5)
            if q is None:
                return None
            if q:
                v[a].add(b)
                v[b].add(a)
    return v


def check(c, m):
    reps, par, days = c
    v = build(reps)
    v.iquam_track_check(dict(par))
    if not reps:
        return
    ctx = lambda: repr(c)
    got = [p.get_qc("POS", "iquam_track") for p in v.reps]
    m.ok(all(g in (0, 1) for g in got), "flag-value", lambda: "%r %s" % (got, ctx()))
    if tm.generic(reps[0]["ID"], reps[0]["YR"]):
        m.eq(got, [0] * len(reps), "generic-flagged", ctx)
        m.event("generic")
        return
    viol = pairs(reps, par)
    if viol is None:
        m.event("undecided")
        return
    # the end state: nothing accepted is too fast, nothing obedient is rejected
    for a in viol:
        for b in viol[a]:
            m.ok(got[a] or got[b], "accepted-pair-too-fast", lambda: "reports %d and %d of %r" % (a, b, c))
        if not viol[a]:
            m.eq(got[a], 0, "obedient-report-rejected", lambda: "report %d of %r" % (a, c))
    n = sum(len(x) for x in viol.values()) // 2
    m.ok(sum(got) <= n, "more-rejections-than-violations", ctx)
    want = greedy(viol)
    m.eq(got, [int(k in want) for k in range(len(reps))], "rejected-set", ctx)
    m.event("violating-pairs", n)
    m.event("rejected", sum(got))
    m.event("accepted", len(got) - sum(got))
    if n == 0:
        m.event("obedient-voyage")
    # the same voyage at another time
    import datetime
    moved = []
    for d in reps:
        t = datetime.date(d["YR"], d["MO"], d["DY"]) + datetime.timedelta(days=days)
        e = dict(d, YR=t.year, MO=t.month, DY=t.day)
        moved.append(e)
    if not tm.generic(moved[0]["ID"], moved[0]["YR"]):
        w = build(moved)
        w.iquam_track_check(dict(par))
        m.eq([p.get_qc("POS", "iquam_track") for p in w.reps], got, "changed-by-time-shift", ctx)
        m.event("time-shifts")


STREAMS = [Stream("voyages", gen, check, 4000, 40000, need=10000)]
