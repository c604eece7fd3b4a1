"""C23 spike check."""
import Extended_IMMA as ex
import geo
import trackmodel as tm
from c21 import gen_voyage
from c22 import greedy
from core import Stream, size

RULE = ("Voyages of 0 to 40 reports (see C21) with smooth, stepped, noisy, spiky and gappy values, of ships and buoys, random neighbour counts, gradients and noise limits, for four variables; flags compared with a reference greedy removal; "
        "monitors also check that no two accepted neighbours violate the gradients, that reports in line are never flagged, and that adding a constant to all values changes nothing.")


def gen_params(r):
    if r.random() < 0.4:
        return dict(max_gradient_space=0.5, max_gradient_time=1.0, ship_delta_t=2.0, buoy_delta_t=1.0, number_of_neighbours=5)
    return dict(max_gradient_space=r.choice([0.0, 0.01, 0.1, 0.5]), max_gradient_time=r.choice([0.0, 0.05, 0.3, 1.0]), ship_delta_t=r.choice([1.0, 2.0, 0.5]), buoy_delta_t=r.choice([0.3, 1.0, 3.0]),
                number_of_neighbours=r.choice([1, 2, 5, 5, 10, 60]))


def gen(r, i):
    v = gen_voyage(r, size(r, [0, 1, 2, 3, 4, 6, 12, 25, 40], 160))
    if r.random() < 0.5:                  # slow drift, so that the values decide
        la, lo = v[0]["LAT"] if v else 0, v[0]["LON"] if v else 0
        for d in v:
            d["LAT"], d["LON"] = round(min(89.0, max(-89.0, la + r.uniform(-.05, .05))), 2), lo
    var = r.choice(["SST", "SST", "AT", "DPT", "SLP"])
    x, kind = 15.0, r.choice(["flat", "walk", "spikes", "noise", "steps"])
    pt = r.choice([5, 6, 7, None])
    for d in v:
        d.pop("PT", None)
        if pt:
            d["PT"] = pt
        if kind == "walk":
            x += r.uniform(-1, 1)
        elif kind == "steps" and r.random() < 0.15:
            x += r.choice([-6, -3, 3, 6])
        y = x + (r.gauss(0, 1.5) if kind == "noise" else r.uniform(-.3, .3))
        if kind == "spikes" and r.random() < 0.2:
            y += r.choice([-12, -4, -2.2, 2.2, 4, 12])
        if r.random() < r.choice([0, 0, 0.1]):
            continue
        d[var] = round(y, 1)
    return (v, var, gen_params(r))


def pairs(reps, var, par):
    base = par["buoy_delta_t"] if reps[0].get("PT") in (6, 7) else par["ship_delta_t"]
    v = {k: set() for k in range(len(reps))}
    for a in range(len(reps)):
        for b in range(a + 1, min(len(reps), a + par["number_of_neighbours"] + 1)):
            x, y = reps[a].get(var), reps[b].get(var)
            if x is None or y is None:
                continue
            s, dk, crs, hr = tm.hop(reps[a], reps[b])
            lim = max(base, dk * par["max_gradient_space"], abs(hr) * par["max_gradient_time"])
            q = tm.gt(abs(x - y), lim, 1e-6, 1e-6)
            if q is None:
                return None
            if q:
                v[a].add(b)
                v[b].add(a)
    return v


def build(reps):
    v = ex.Voyage()
    for d in reps:
        v.add_report(geo.mk(d))
    return v


def check(c, m):
    reps, var, par = c
    v = build(reps)
    v.spike_check(dict(par), intype=var)
    if not reps:
        return
    ctx = lambda: repr(c)
    got = [p.get_qc(var, "spike") for p in v.reps]
    m.ok(all(g in (0, 1) for g in got), "flag-value", ctx)
    viol = pairs(reps, var, par)
    if viol is None:
        m.event("undecided")
        return
    for a in viol:
        for b in viol[a]:
            m.ok(got[a] or got[b], "accepted-pair-out-of-line", lambda: "reports %d and %d of %r" % (a, b, c))
        if not viol[a]:
            m.eq(got[a], 0, "report-in-line-flagged", lambda: "report %d of %r" % (a, c))
        if reps[a].get(var) is None:
            m.event("missing")
    want = greedy(viol)
    m.eq(got, [int(k in want) for k in range(len(reps))], "flagged-set", ctx)
    m.event("flagged", sum(got))
    m.event("passed", len(got) - sum(got))
    m.event("violating-pairs", sum(len(x) for x in viol.values()) // 2)
    if not any(viol.values()):
        m.event("series-within-limits")
    w = build([dict(d, **({var: d[var] + 8.0} if var in d else {})) for d in reps])
    w.spike_check(dict(par), intype=var)
    m.eq([p.get_qc(var, "spike") for p in w.reps], got, "changed-by-offset", ctx)
    if var == "SST":
        u = build(reps)
        u.spike_check(dict(par))
        m.eq([p.get_qc("SST", "spike") for p in u.reps], got, "default-variable", ctx)


STREAMS = [Stream("series", gen, check, 4000, 40000, need=10000)]
