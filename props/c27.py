"""C27 drifter SST tail check."""
import drift
import sstdrift as sd
import trackqc as tqc
from core import Stream

RULE = ("Drifter records of 0 to 420 reports with matched background, ice and variance: good, biased, noisy and sprinkled stretches at either end and in the middle, polar night and day/night mixtures, ice at, below and above 0.15, missing "
        "background, variances at and above the limit, for default and random window lengths and limits; both flags of every report compared with a reference; a monitor checks that reversing the data swaps the two tails.")

DEFAULT = dict(long_win_len=121, long_err_std_n=3.0, short_win_len=30, short_err_std_n=3.0, short_win_n_bad=2, drif_inter=0.29, drif_intra=1.0, background_err_lim=0.3)
ORDER = ["long_win_len", "long_err_std_n", "short_win_len", "short_err_std_n", "short_win_n_bad", "drif_inter", "drif_intra", "background_err_lim"]


def gen(r, i):
    nice = r.random() < 0.3
    par = dict(DEFAULT)
    if nice:
        par.update(long_win_len=r.choice([1, 3, 5, 7, 9]), short_win_len=r.choice([1, 2, 3, 5]), long_err_std_n=r.choice([1.0, 2.0, 3.0]), short_err_std_n=r.choice([1.0, 2.0, 3.0]), short_win_n_bad=r.choice([1, 2, 3]),
                   drif_inter=0.0, drif_intra=1.0, background_err_lim=0.25)
    elif r.random() < 0.8:
        par.update(long_win_len=r.choice([1, 3, 5, 7, 9, 21, 99, 101, 201]), short_win_len=r.choice([1, 2, 3, 5, 10, 30]), long_err_std_n=r.choice([0.5, 3.0]), short_err_std_n=r.choice([0.5, 1.0, 3.0]), short_win_n_bad=r.choice([1, 2, 3, 5]),
                   drif_inter=r.choice([0.29, 0.1]), drif_intra=r.choice([1.0, 0.3]))
    c = sd.gen(r, i, par["long_win_len"], par["short_win_len"], nice)
    return (c, par, r.choice(["api", "voyage"]), r.choice([0, 1, 9]))


def run(c, par, how, old):
    v = sd.voyage(c)
    for p in v.reps:
        p.set_qc("SST", "drf_tail1", old)
        p.set_qc("SST", "drf_tail2", old)
    if how == "api":
        if v.reps:
            v.sort()
        tqc.sst_tail_check(v.reps, *([] if par == DEFAULT and len(v.reps) % 3 else [par[k] for k in ORDER]))
    else:
        q = dict(par, drift_inter=par["drif_inter"])
        v.buoy_tail_check(q)
    return [p.get_qc("SST", "drf_tail1") for p in v.reps], [p.get_qc("SST", "drf_tail2") for p in v.reps]


def check(case, m):
    c, par, how, old = case
    ctx = lambda: repr(case)
    a, z = run(c, par, how, old)
    m.ok(all(x in (0, 1) for x in a + z), "flag-value", ctx)
    m.ok(a == sorted(a, reverse=True) and z == sorted(z), "not-tails", lambda: "%r %r %s" % (a, z, ctx()))
    m.ok(not any(x and y for x, y in zip(a, z)), "both-tails", ctx)
    try:
        wa, wz, why = sd.tail_model(c, par)
    except sd.Unsure:
        m.event("undecided")
        return
    m.eq(a, wa, "start-tail", ctx)
    m.eq(z, wz, "end-tail", ctx)
    m.event(why)
    m.event("flagged", sum(a) + sum(z))
    n = len(c["t"])
    if n and c["lat"][0] > 70 and how == "api" and sd.all_night(c):
        # all night: the same values in the opposite order
        d = dict(c, sst=c["sst"][::-1], ext=c["ext"][::-1])
        try:
            sd.tail_model(d, par)
        except sd.Unsure:
            return
        b, y = run(d, par, how, old)
        m.eq((b[::-1], y[::-1]), (z, a), "not-symmetric", ctx)
        m.event("reversed")


BADARGS = [("long_win_len", 0), ("long_win_len", 4), ("long_err_std_n", -1.0), ("short_win_len", 0), ("short_err_std_n", -0.1), ("short_win_n_bad", 0), ("drif_inter", -1.0), ("drif_intra", -1.0), ("background_err_lim", -0.1)]


def check_args(case, m):
    v = sd.voyage(dict(base=(2003, 12, 1), t=[6.0 * k for k in range(10)], lat=[80.0] * 10, lon=[0.0] * 10, sst=[1.0] * 10, ext=[(1.0, None, 0.1)] * 10))
    v.sort()
    par = dict(DEFAULT)
    par[case[0]] = case[1]
    try:
        tqc.sst_tail_check(v.reps, *[par[k] for k in ORDER])
    except AssertionError:
        m.ok(True, "refused")
        m.event("refused")
        return
    m.ok(False, "nonsense-parameters-accepted", repr(case))


def check_entry(case, m):
    c, par, how, old = case
    q = dict(par, drift_inter=par["drif_inter"])
    drift.entry_rules(c, sd.voyage, lambda v, **kw: v.buoy_tail_check(q, **kw), [("SST", "drf_tail1"), ("SST", "drf_tail2")], len(c["t"]) * 7 + old, m, lambda: repr(case))


STREAMS = [Stream("entry", gen, check_entry, 600, 6000, need=800), Stream("records", gen, check, 4000, 40000, need=2000), Stream("nonsense-parameters", BADARGS, check_args, None, None, need=9)]
