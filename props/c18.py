"""C18 MDS buddy check."""
import random

import Extended_IMMA as ex
import buddy
import geo
from core import Stream, size

RULE = ("Decks of up to 120 reports clustered in space and time (dateline, poles, year ends, 29 February), default and random radii, thresholds and multipliers, standard-deviation fields with gaps and negative values, plain and masked, some reports excluded by the deck's filter; "
        "lone reports are moved to just inside and just outside their limit; every verdict is compared with sparse reference neighbourhoods, also after reversing the deck.")
DEFAULT = dict(limits=[[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]],
               number_of_obs_thresholds=[[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
               multipliers=[[4.0, 3.5, 3.0, 2.5], [4.0], [4.0, 3.5, 3.0, 2.5], [4.0]])


def prepare():
    buddy.make_fields(buddy.KEYS)


def gen_params(r):
    k = r.random()
    if k < 0.4:
        return DEFAULT
    lim, th, mu = [], [], []
    for j in range(r.randint(1, 4)):
        lim.append([r.randint(0, 2), r.randint(0, 2), r.randint(0, 4)])
        n = r.randint(1, 4)
        th.append([0] + sorted(r.sample(range(1, 30), n - 1)))
        mu.append([round(r.uniform(0.5, 4), 1) for i in range(n)])
    return dict(limits=lim, number_of_obs_thresholds=th, multipliers=mu)


def gen(r, i):
    deck = buddy.gen_deck(r, size(r, [1, 2, 4, 12, 40, 120], 1500), 9.0)
    return (deck, gen_params(r), r.randrange(len(buddy.KEYS)), r.choice(["SST", "SST", "AT", "DPT", "SLP"]), r.choice([0.5, 0.98, 1.02, 1.5, 0.9999, 1.0001, 0.99999, 1.00001, 0.99999, 1.00001]), r.randint(0, 10 ** 9))


def make(o, k, var, clim):
    d = dict(ID="P%d" % (k % 7), LAT=o[0], LON=o[1], YR=o[2], MO=o[3], DY=o[4], HR=12.0)
    if o[5] is not None:
        d[var] = clim + o[5]
    p = geo.mk(d)
    p.add_climate_variable(var, clim)
    p.set_qc("POS", "sel", 0 if o[6] else 1)
    return p


def limits_of(deck, par, look):
    ref = buddy.superobs([(buddy.cell(o[0], o[1], o[3], o[4]), o[5]) for o in deck if o[6]])
    return ref, {c: buddy.mds_limits(ref, c, look(c), par["limits"], par["number_of_obs_thresholds"], par["multipliers"]) for c in ref}


def check(c, m):
    deck, par, fk, var, factor, seed = c
    deck = [tuple(o) for o in deck]
    clim = dict(SST=10.0, AT=8.0, DPT=5.0, SLP=1000.0)[var]
    field, look = buddy.FIELDS[buddy.KEYS[fk]]
    r = random.Random(seed)
    ref, lims = limits_of(deck, par, look)
    # a report alone in its box does not influence its own limit: put it near the limit
    lone = [k for k, o in enumerate(deck) if o[6] and ref[buddy.cell(o[0], o[1], o[3], o[4])][1] == 1]
    if lone:
        k = r.choice(lone)
        o = deck[k]
        mean, lim, n = lims[buddy.cell(o[0], o[1], o[3], o[4])]
        if n and lim * factor < 40:
            deck[k] = o[:5] + (mean + r.choice([-1, 1]) * lim * factor,) + o[6:]
            ref, lims = limits_of(deck, par, look)
            m.event("placed-near-limit")
    import copy
    params = copy.deepcopy(par)
    for order in (list(range(len(deck))), list(range(len(deck)))[::-1]):
        d = ex.Deck()
        for k in order:
            d.append(make(deck[k], k, var, clim))
        f = ex.QC_filter()
        f.add_qc_filter("POS", "sel", 0)
        d.add_filter(f)
        d.mds_buddy_check(var, field, params)
        m.eq(params, par, "parameters-altered", lambda: repr(c))
        for k, p in zip(order, d.reps):
            o = deck[k]
            got = p.get_qc(var, "bud")
            ctx = lambda: "report %d %r, limits %r, of %r" % (k, o, o[6] and lims[buddy.cell(o[0], o[1], o[3], o[4])], c)
            if not o[6]:
                m.eq(got, 0, "excluded-report-flagged", ctx)
                m.event("excluded")
                continue
            mean, lim, n = lims[buddy.cell(o[0], o[1], o[3], o[4])]
            diff = abs(o[5] - mean)
            if abs(diff - lim) < 1e-6 * (1 + lim):
                m.ok(got in (0, 1), "flag-value", ctx)
                m.event("at-limit")
                continue
            m.eq(got, 1 if diff > lim else 0, "verdict", ctx)
            m.event("flagged" if diff > lim else "passed" if n else "no-neighbours")


def gen_lim(r, i):
    n = r.choice([2, 3, 6, 20, 60, 200])
    return (buddy.gen_deck(r, n, 9.0), gen_params(r), r.randrange(len(buddy.KEYS)), r.random() < 0.3)


def check_lim(c, m):
    deck, par, fk, old = c
    if old:
        par = DEFAULT
    field, look = buddy.FIELDS[buddy.KEYS[fk]]
    deck = [o for o in deck if o[6]]
    ref, lims = limits_of(deck, par, look)
    g = ex.Np_Super_Ob()
    for o in deck:
        g.add_rep(o[0], o[1], o[2], o[3], o[4], o[5])
    g.take_average()
    if old:
        g.get_buddy_limits(field)
    else:
        g.get_buddy_limits_with_parameters(field, par["limits"], par["number_of_obs_thresholds"], par["multipliers"])
    for o in deck:
        mean, lim, n = lims[buddy.cell(o[0], o[1], o[3], o[4])]
        ctx = lambda: "%r of %r" % (o, c)
        m.near(g.get_buddy_mean(o[0], o[1], o[3], o[4]), mean, 1e-9, "neighbour-mean", ctx)
        m.near(g.get_buddy_stdev(o[0], o[1], o[3], o[4]), lim, 1e-5 * (1 + lim), "limit", ctx)
        m.event("limits-old" if old else "limits")


def gen_mult(r, i):
    n = r.randint(1, 6)
    th = [0] + sorted(r.sample(range(1, 120), n - 1))
    return (th, [round(r.uniform(0.1, 5), 2) for k in th], r.choice([0, 1, r.choice(th), r.choice(th) + 1, r.randint(0, 200)]))


def check_mult(c, m):
    th, mu, n = c
    want = 4.0 if n == 0 else mu[max(k for k in range(len(th)) if n > th[k])]
    m.eq(ex.get_threshold_multiplier(n, th, mu), want, "multiplier", lambda: repr(c))


STREAMS = [
    Stream("verdicts", gen, check, 360, 8000, need=6000),
    Stream("limits", gen_lim, check_lim, 300, 6000, need=3000),
    Stream("multipliers", gen_mult, check_mult, 2000, 20000, need=2000),
]
