"""C19 Bayesian buddy check."""
import math
import random

import Extended_IMMA as ex
import buddy
import geo
from c13 import cdf_range
from core import Stream, size

RULE = ("Decks of up to 80 reports clustered in space and time, default and random priors, quantisation, measurement errors, noise scalings, search radii and anomaly limits, standard-deviation fields with gaps and negative values, some reports excluded by the filter; "
        "flags compared with the posterior of an independent model (complementary error functions, sparse neighbourhoods), also after reversing the deck.")


def prepare():
    buddy.make_fields(buddy.KEYS)


def gen_params(r):
    if r.random() < 0.4:
        return dict(p0=0.05, q=0.1, sigma_m=1.0, limits=[2, 2, 4], noise=3.0, hi=8.0)
    return dict(p0=r.choice([0.05, 0.01, 0.3, 0.9, 1e-4, 1.0]), q=r.choice([0.1, 0.05, 1.0, 0.5]), sigma_m=r.choice([0.3, 1.0, 0.0, 2.0]),
                limits=[r.randint(0, 3), r.randint(0, 2), r.randint(0, 4)], noise=r.choice([3.0, 1.0, 0.0, 5.0]), hi=r.choice([8.0, 10.0, 6.5]))


def gen(r, i):
    par = gen_params(r)
    deck = buddy.gen_deck(r, size(r, [1, 2, 4, 12, 30, 80], 800), par["hi"])
    near = (r.random(), r.randint(1, 8), r.choice([-1, 1]) * r.choice([4e-5, 6e-5, 1e-4, 3e-4, 1e-3])) if r.random() < 0.7 else None
    return (deck, par, [r.randrange(len(buddy.KEYS)) for k in range(3)], r.choice(["SST", "AT"]), near)


def place(par, mu, s, want, sign):
    """an anomaly whose posterior is (want) tenths, if there is one"""
    a, b = mu, math.copysign(par["hi"], sign)
    f = lambda x: 10 * posterior(par, x, mu, s)
    if abs(mu) >= par["hi"] or not f(a) < want < f(b):
        return None
    for k in range(70):
        x = (a + b) / 2
        if f(x) < want:
            a = x
        else:
            b = x
    return b


def posterior(par, x, mu, s):
    n = 2 * par["hi"] / par["q"]
    hi, lo, q = par["hi"], -par["hi"], par["q"]
    good = cdf_range(max(x, lo) - q / 2, min(x, hi) + q / 2, mu, s) / cdf_range(lo - q / 2, hi + q / 2, mu, s)
    g = par["p0"] / (n + 1)
    return g / (g + (1 - par["p0"]) * good)


def lookup(c, fk):
    return [buddy.FIELDS[buddy.KEYS[k]][1](c) for k in fk]


def check(c, m):
    deck, par, fk, var, near = c
    clim = 11.0
    # anomalies as the report computes them, inside the limits
    val = [None if o[5] is None else clim + o[5] for o in deck]
    anom = [None if v is None else v - clim for v in val]
    for k, o in enumerate(deck):
        if o[6] and abs(anom[k]) > par["hi"]:
            val[k] = clim + math.copysign(par["hi"] - 0.25, o[5])
            anom[k] = val[k] - clim
    cells = [buddy.cell(o[0], o[1], o[3], o[4]) for o in deck]
    for again in range(2):
        ref = buddy.superobs([(cells[k], anom[k]) for k, o in enumerate(deck) if o[6]])
        lims = {b: buddy.bayes_limits(ref, b, lookup(b, fk), par["limits"], par["sigma_m"], par["noise"]) for b in ref}
        # a report alone in its box does not influence its own limits: give it a posterior next to a tenth
        lone = [k for k, o in enumerate(deck) if o[6] and ref[cells[k]][1] == 1 and lims[cells[k]][1] >= 0.02]
        if again or near is None or not lone or not 0 < par["p0"] < 1:
            break
        k = lone[int(near[0] * len(lone))]
        x = place(par, *lims[cells[k]][:2], near[1] + near[2], near[2])
        if x is None:
            break
        val[k] = clim + x
        anom[k] = val[k] - clim
        if abs(anom[k]) > par["hi"]:
            val[k] = clim + math.copysign(par["hi"] - 0.25, x)
            anom[k] = val[k] - clim
        m.event("placed-next-to-a-tenth")
    params = {"bayesian_buddy_check": dict(prior_probability_of_gross_error=par["p0"], quantization_interval=par["q"], measurement_error=par["sigma_m"],
                                           limits=list(par["limits"]), noise_scaling=par["noise"]), var: dict(maximum_anomaly=par["hi"]), dict(SST="AT", AT="SST")[var]: dict(maximum_anomaly=par["hi"] * 2.5)}
    fields = [buddy.FIELDS[buddy.KEYS[k]][0] for k in fk]
    for order in (list(range(len(deck))), list(range(len(deck)))[::-1]):
        d = ex.Deck()
        for k in order:
            o = deck[k]
            e = dict(ID="P%d" % (k % 5), LAT=o[0], LON=o[1], YR=o[2], MO=o[3], DY=o[4], HR=6.0)
            if val[k] is not None:
                e[var] = val[k]
            p = geo.mk(e)
            p.add_climate_variable(var, clim)
            p.set_qc("POS", "sel", 0 if o[6] else 1)
            d.append(p)
        f = ex.QC_filter()
        f.add_qc_filter("POS", "sel", 0)
        d.add_filter(f)
        d.bayesian_buddy_check(var, *fields, params)
        for k, p in zip(order, d.reps):
            o = deck[k]
            got = p.get_qc(var, "bbud")
            ctx = lambda: "report %d %r, mean/spread %r, of %r" % (k, o, o[6] and lims[cells[k]], c)
            if not o[6]:
                m.eq(got, 0, "excluded-report-flagged", ctx)
                m.event("excluded")
                continue
            mu, s, n = lims[cells[k]]
            if s < 0.02:
                m.event("spread-negligible")
                continue
            w = 10 * posterior(par, anom[k], mu, s)
            if abs(w - round(w)) < 2e-5 and round(w) not in (0, 10):
                m.ok(got in (round(w) - 1, round(w)), "flag-value", ctx)
                m.event("at-a-tenth")
                continue
            m.eq(got, min(9, int(w + 2e-5 if round(w) == 10 else w)) if par["p0"] < 1 else 9, "flag", lambda: "posterior %g %s" % (w / 10, ctx()))
            m.event("flag-%d" % min(9, int(w)))
            m.event("with-neighbours" if n else "alone")


def gen_lim(r, i):
    par = dict(gen_params(r), **(dict(hi=8.0, sigma_m=1.0, limits=[2, 2, 4], noise=3.0) if i % 3 == 0 else {}))
    return (buddy.gen_deck(r, r.choice([2, 3, 6, 20, 60]), par["hi"]), par, [r.randrange(len(buddy.KEYS)) for k in range(3)])


def check_lim(c, m):
    deck, par, fk = c
    deck = [o for o in deck if o[6]]
    ref = buddy.superobs([(buddy.cell(o[0], o[1], o[3], o[4]), o[5]) for o in deck])
    g = ex.Np_Super_Ob()
    for o in deck:
        g.add_rep(*o[:6])
    g.take_average()
    g.get_new_buddy_limits(*[buddy.FIELDS[buddy.KEYS[k]][0] for k in fk], *([] if par["hi"] == 8.0 and (par["sigma_m"], par["limits"], par["noise"]) == (1.0, [2, 2, 4], 3.0) else [par["limits"], par["sigma_m"], par["noise"]]))
    for o in deck:
        b = buddy.cell(o[0], o[1], o[3], o[4])
        mu, s, n = buddy.bayes_limits(ref, b, lookup(b, fk), par["limits"], par["sigma_m"], par["noise"])
        ctx = lambda: "%r of %r" % (o, c)
        m.near(g.get_buddy_mean(o[0], o[1], o[3], o[4]), mu, 1e-9, "neighbour-mean", ctx)
        m.near(g.get_buddy_stdev(o[0], o[1], o[3], o[4]), s, 1e-5 * (1 + s), "spread", ctx)
        m.event("limits")
        m.event("neighbours", n)


STREAMS = [
    Stream("flags", gen, check, 300, 7000, need=3000),
    Stream("limits", gen_lim, check_lim, 250, 5000, need=2000),
]
