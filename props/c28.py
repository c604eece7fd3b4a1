"""C28 drifter bias, noise and short-record checks."""
import drift
import sstdrift as sd
import trackqc as tqc
from core import Stream

RULE = ("Records as for C27 with numbers of usable reports around the short/long boundary; the three flags of every report compared with a reference; monitors check that all reports of a record get the same flags, that the short flag excludes the "
        "others and that the order of the data and a change of sign of the differences do not matter.")

DEFAULT = dict(n_eval=30, bias_lim=1.10, drif_intra=1.0, drif_inter=0.29, err_std_n=3.0, n_bad=2, background_err_lim=0.3)
ORDER = ["n_eval", "bias_lim", "drif_intra", "drif_inter", "err_std_n", "n_bad", "background_err_lim"]
FLAGS = ["drf_bias", "drf_noise", "drf_short"]


def gen(r, i):
    nice = r.random() < 0.3
    par = dict(DEFAULT)
    if nice:
        par.update(n_eval=r.choice([1, 5, 10, 30]), bias_lim=r.choice([1.0, 1.25, 2.0]), drif_inter=0.0, drif_intra=r.choice([1.0, 0.0, 3.0]), err_std_n=r.choice([1.0, 2.0, 3.0]), n_bad=r.choice([1, 2, 3]), background_err_lim=0.25)
    elif r.random() < 0.7:
        par.update(n_eval=r.choice([1, 2, 5, 10, 30, 60]), bias_lim=r.choice([0.5, 1.1, 2.0]), drif_inter=r.choice([0.29, 0.1]), drif_intra=r.choice([1.0, 0.3]), err_std_n=r.choice([0.5, 1.0, 3.0]), n_bad=r.choice([1, 2, 3, 6]))
    c = sd.gen(r, i, par["n_eval"], par["n_eval"], nice)
    if r.random() < 0.5 and c["t"]:
        # as many usable reports as the boundary, give or take one
        k = par["n_eval"] + r.choice([-1, -1, 0, 0, 1])
        if 0 < k <= len(c["t"]):
            c = dict(c, **{f: c[f][:k] for f in ("t", "lat", "lon", "sst", "ext")})
            c["lat"] = [80.0] * k
            c["base"] = (c["base"][0], 12, 5) if c["t"][-1] < 24 * 50 else c["base"]
    if r.random() < 0.4:
        # no unreliable background
        c["ext"] = [(b, e, min(v, 0.25) if v is not None else v) for b, e, v in c["ext"]]
    return (c, par, r.choice(["api", "voyage"]), r.choice([0, 1, 9]))


def run(c, par, how, old):
    v = sd.voyage(c)
    for p in v.reps:
        for f in FLAGS:
            p.set_qc("SST", f, old)
    if how == "api":
        if v.reps:
            v.sort()
        tqc.sst_biased_noisy_check(v.reps, *([] if par == DEFAULT and len(v.reps) % 3 else [par[k] for k in ORDER]))
    else:
        v.buoy_bias_noise_check(dict(par))
    return [tuple(p.get_qc("SST", f) for f in FLAGS) for p in v.reps]


def check(case, m):
    c, par, how, old = case
    ctx = lambda: repr(case)
    got = run(c, par, how, old)
    n = len(c["t"])
    if not n:
        m.eq(got, [], "empty-record")
        m.event("empty")
        return
    m.ok(len(set(got)) == 1, "flags-differ-within-record", lambda: "%r %s" % (got, ctx()))
    g = got[0]
    m.ok(all(x in (0, 1) for x in g) and not (g[2] and (g[0] or g[1])), "flag-value", lambda: "%r %s" % (g, ctx()))
    try:
        want, why = sd.bias_model(c, par)
    except sd.Unsure:
        m.event("undecided")
        return
    m.eq(g, want, "flags", ctx)
    m.event(why)
    if c["lat"][0] > 70 and not c["nice"] and sd.all_night(c):
        flip = dict(c, sst=[s if e[0] is None else round(2 * e[0] - s, 2) for s, e in zip(c["sst"], c["ext"])][::-1], ext=c["ext"][::-1])
        try:
            sd.bias_model(flip, par)
        except sd.Unsure:
            return
        m.eq(run(flip, par, how, old)[0], g, "changed-by-order-or-sign", ctx)
        m.event("reordered-and-negated")


BADARGS = [("n_eval", 0), ("bias_lim", -0.1), ("drif_intra", -1.0), ("drif_inter", -1.0), ("err_std_n", -1.0), ("n_bad", 0), ("background_err_lim", -1.0)]


def check_args(case, m):
    v = sd.voyage(dict(base=(2003, 12, 1), t=[6.0 * k for k in range(10)], lat=[80.0] * 10, lon=[0.0] * 10, sst=[1.0] * 10, ext=[(1.0, None, 0.1)] * 10))
    v.sort()
    par = dict(DEFAULT)
    par[case[0]] = case[1]
    try:
        tqc.sst_biased_noisy_check(v.reps, *[par[k] for k in ORDER])
    except AssertionError:
        m.ok(True, "refused")
        m.event("refused")
        return
    m.ok(False, "nonsense-parameters-accepted", repr(case))


def check_entry(case, m):
    c, par, how, old = case
    drift.entry_rules(c, sd.voyage, lambda v, **kw: v.buoy_bias_noise_check(dict(par), **kw), [("SST", f) for f in FLAGS], len(c["t"]) * 7 + old, m, lambda: repr(case))


STREAMS = [Stream("entry", gen, check_entry, 600, 6000, need=800), Stream("records", gen, check, 5000, 40000, need=1500), Stream("nonsense-parameters", BADARGS, check_args, None, None, need=7)]
