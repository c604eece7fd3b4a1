"""C34 checks write only their own flags."""
import copy
import math
import random

import Extended_IMMA as ex
import buddy
import c09
import c21
import c22
import c23
import c27
import c28
import geo
import qc
import sstdrift as sd
import track_check as tc
import trackqc as tqc
from core import Stream

RULE = ("Random sequences of 4 to 14 checks (base QC, voyage, drifter and buddy checks, each under its documented parameters) over one pool of reports shared by voyages and a deck, with random flags left from before; before and after every "
        "check all values, identifiers, times, positions, climatologies, background values and flags of every report are compared, every check is repeated at once, and its flags are compared with those it gives alone on fresh reports.")

POSB = ["POSisbuoy", "POSisdrifter", "POSisship", "POSpos", "POSdate", "POStime", "POSblklst"]
SSTB = ["SSTnoval", "SSTfreez", "SSTclim", "SSTnonorm", "SSThardlimit"]
ATB = ["ATnoval", "ATclim", "ATnonorm", "AThardlimit"]
SLPB = ["SLPnoval", "SLPclim", "SLPnonorm"]
WB = ["Wnoval", "Whardlimit", "Wconsistency"]
DPTB = ["DPTclim", "DPTnoval", "DPTnonorm", "DPTssat", "DPThardlimit"]
AT2B = ["AT2clim", "AT2noval", "AT2nonorm", "AT2hardlimit"]
# check -> the flags it is documented to set
REPORT = {
    "perform_base_qc": POSB + ["POSday", "POSis780", "DPThum_blacklist", "ATmat_blacklist", "Wwind_blacklist"] + SSTB + ATB + SLPB + WB + DPTB + AT2B,
    "perform_base_wind_qc": POSB + ["Wwind_blacklist"] + WB,
    "perform_base_dat_qc": POSB + ["POSday", "ATmat_blacklist", "DATnoval", "DATclim", "DATnonorm", "DAThardlimit"],
    "perform_base_slp_qc": POSB + ["POSday", "POSis780"] + SLPB,
    "perform_base_sst_qc": POSB + ["POSday", "POSis780"] + SSTB,
    "do_position_check": ["POSpos"], "do_date_check": ["POSdate"], "do_time_check": ["POStime"], "do_blacklist": ["POSblklst"], "do_day_check": ["POSday"],
    "do_base_wind_qc": WB, "do_base_slp_qc": SLPB, "do_base_sst_qc": SSTB, "do_base_mat_qc": ATB, "do_kate_mat_qc": AT2B, "do_base_dpt_qc": DPTB[:-1],
    "is_deck_780": ["POSis780"], "wind_blacklist": ["Wwind_blacklist"], "humidity_blacklist": ["DPThum_blacklist"], "mat_blacklist": ["ATmat_blacklist"],
    "is_buoy": ["POSisbuoy", "POSisdrifter"], "is_ship": ["POSisship"],
    "base_qc_report": ["POSisbuoy", "POSisship", "POSmat_blacklist", "POSis780", "POSpos", "POSdate", "POSday", "POSblklst"] + SSTB[:4] + ATB[:3],
}
VOYAGE = {
    "track_check": ["POStrk", "POSfew"], "iquam_track_check": ["POSiquam_track"], "spike": None, "repeated": None, "rounded": None, "saturated": ["DPTrepsat"],
    "aground": ["POSdrf_agr"], "new_aground": ["POSdrf_agr"], "speed": ["POSdrf_spd"], "new_speed": ["POSdrf_spd"], "tail": ["SSTdrf_tail1", "SSTdrf_tail2"],
    "bias": ["SSTdrf_bias", "SSTdrf_noise", "SSTdrf_short"], "full_track": ["POSbad_track", "POSfewsome_check"], "mds_track": ["POSbad_track", "POSfewsome_check"],
}
DECK = {"mds": "bud", "bayes": "bbud"}
VARS = ["SST", "AT", "AT2", "DPT", "SLP"]


def prepare():
    buddy.make_fields(buddy.KEYS[:2])


def extra(r, d, k, pt):
    """the remaining variables of a report"""
    for v, lo, hi, dec in [("SST", -2, 32, 1), ("AT", -10, 35, 1), ("DPT", -12, 30, 1), ("SLP", 950, 1040, 1), ("W", 0, 40, 1), ("SHU", 0, 25, 1), ("CRH", 10, 100, 1), ("VAP", 1, 40, 1), ("CWB", -5, 30, 1), ("DPD", 0, 10, 1)]:
        if v not in d and r.random() < 0.85:
            d[v] = round(r.uniform(lo, hi), dec)
    if "AT" in d:
        if r.random() < 0.3:
            d["DPT"] = d["AT"]
        d["AT2"] = d["AT"]
    if r.random() < 0.5:
        d["D"] = r.choice([90, 361, 362])
    d["UID"] = "U%05d" % k
    if pt is not None:
        d["PT"] = pt
    return d


ANYORDER = ["iquam_track_check", "iquam_track_check", "spike", "repeated", "rounded", "saturated"]      # the others ask for reports in time order


def gen(r, i):
    pool, groups = [], []
    n = r.choice([1, 2, 3, 5, 12, 20])
    ship = c21.gen_voyage(r, n)
    mixed = n > 1 and r.random() < 0.15     # not in time order
    if mixed:
        ship.insert(r.randint(0, n - 1), ship.pop(r.randrange(n)))
    warm = round(r.uniform(0, 28), 1)
    for d in ship:
        if r.random() < 0.5:
            d["SST"] = warm
    groups.append(ship)
    if r.random() < 0.6:
        c = sd.gen(r, i, 7, 3, False)
        m = 40
        recs = sd.drift.mk(dict(c, **{f: c[f][:m] for f in ("t", "lat", "lon", "sst", "ext")}))
        for d, s in zip(recs, c["sst"]):
            d["SST"] = s
        groups.append(recs)
        ext = c["ext"][:m]
    else:
        ext = []
    loose = []
    for k in range(r.choice([0, 1, 3])):
        q = c09.gen(r, k)[0]
        q.setdefault("ID", "LOOSE    ")
        loose.append(q)
    groups.append(loose)
    flat, where = [], []
    for g, recs in enumerate(groups):
        for k, d in enumerate(recs):
            pt = d.get("PT")
            if g == 0:       # drifters are in the second group
                pt = d["PT"] = r.choice([5, 5, None]) if pt is None else 6 if pt == 7 else pt
            if recs is not loose:
                extra(r, d, len(flat), pt)
            e = {}
            if len(groups) == 3 and g == 1:
                e = dict(zip(("OSTIA", "ICE", "BGVAR"), ext[k]))
            elif r.random() < 0.3:
                e = dict(OSTIA=round(r.uniform(0, 20), 1), ICE=None, BGVAR=0.1)
            clim = {v: (None if r.random() < 0.1 else round(d.get(v, 10.0) + r.gauss(0, 3), 1), r.choice([None, 0.5, 1.0, 2.0])) for v in VARS if r.random() < 0.95}
            if r.random() < 0.3:
                clim["SST"] = (warm, 1.0)
            flat.append((d, clim, e, r.randint(0, 10 ** 9)))
            where.append(g if recs is not loose else -1)
    ops, written = [], set()
    drifter = len(groups) == 3 and groups[1]
    for k in range(r.randint(4, 14)):
        x = r.random()
        if x < 0.25:
            name = r.choice(sorted(REPORT))
            op = ("report", name, r.choice([None, r.randrange(len(flat))]))
        elif x < 0.8:
            g = 1 if drifter and r.random() < 0.6 else 0
            name = r.choice(ANYORDER if mixed and g == 0 else sorted(VOYAGE))
            var = r.choice(VARS) if name in ("repeated", "spike") else r.choice(["SST", "AT", "DPT"]) if name == "rounded" else None
            op = ("voyage", name, g, var)
        else:
            op = ("deck", r.choice(sorted(DECK)), r.choice(["SST", "AT"]), r.random() < 0.5)
        ops.append(op)
    if not drifter:
        ops = [o for o in ops if not (o[0] == "voyage" and o[1] in ("aground", "new_aground", "speed", "new_speed", "tail", "bias"))] or [("voyage", "iquam_track_check", 0, None)]
    params = c09.gen_params(r)
    params["SST"]["maximum_anomaly"] = params["AT"]["maximum_anomaly"] = r.choice([8.0, 10.0])
    return (flat, where, ops, params, r.randint(0, 10 ** 9))


ALLFLAGS = sorted({f for s in REPORT.values() for f in s} | {f for s in VOYAGE.values() if s for f in s} |
                  {v + f for v in VARS for f in ("rep", "spike", "round", "bud", "bbud")})


def split(flag):
    for t in ("POS", "DAT", "SST", "AT2", "AT", "DPT", "SLP", "W"):
        if flag.startswith(t):
            return t, flag[len(t):]


class World:
    """fresh reports, voyages and deck of a case"""

    def __init__(self, case, old=None):
        flat, where, ops, params, seed = copy.deepcopy(case)
        self.params = params
        self.reps = []
        for d, clim, ext, fs in flat:
            p = geo.mk(d)
            for v, (c, s) in sorted(clim.items()):
                p.add_climate_variable(v, c, s)
            for v, x in sorted(ext.items()):
                p.setext(v, x)
            r = random.Random(fs)
            for f in ALLFLAGS:
                x = r.randint(0, 12) if old is None else old
                if x < 10:
                    p.set_qc(*split(f), x)
            self.reps.append(p)
        self.voy = {}
        for g in sorted(set(where) - {-1}):
            self.voy[g] = ex.Voyage()
            for p, w in zip(self.reps, where):
                if w == g:
                    self.voy[g].add_report(p)
        self.deck = ex.Deck()
        for p in self.reps:
            self.deck.append(p)

    def snap(self):
        out = []
        for p in self.reps:
            out.append(dict(data=[p.getvar(v) for v in ex.VARLIST], who=(p.getvar("ID"), p.getvar("UID")), dt=p.dt, pos=(p.lat(), p.lon()),
                            clim={v: (p.getnorm(v), p.getnorm(v, "stdev")) for v in VARS}, ext={k: p.ext.get(k) for k in ("OSTIA", "ICE", "BGVAR", "speed", "course", "distance", "time_diff", "dsi", "vsi")},
                            qc=dict(p.qc)))
        return out

    def holds(self):
        return {g: list(v.reps) for g, v in self.voy.items()}, list(self.deck.reps)


def targets(world, op, case):
    """(indices of the reports it judges, their flags)"""
    flat, where = case[0], case[1]
    if op[0] == "report":
        return [k for k in range(len(flat)) if op[2] in (None, k)], REPORT[op[1]]
    if op[0] == "voyage":
        fl = VOYAGE[op[1]]
        if fl is None:
            fl = [op[3] + dict(spike="spike", repeated="rep", rounded="round")[op[1]]]
        return [k for k in range(len(flat)) if where[k] == op[2]], fl
    return list(range(len(flat))), [op[2] + DECK[op[1]]]


def able(case, k, name):
    """can this report be given to this check (complete time and a real position)?"""
    d = case[0][k][0]
    if name in ("base_qc_report", "do_day_check"):
        return case[1][k] != -1
    return True


def run(world, op, case):
    P = world.params
    if op[0] == "report":
        todo = [k for k in range(len(world.reps)) if op[2] in (None, k) and able(case, k, op[1])]
        for k in todo:
            p = world.reps[k]
            n = op[1]
            if n == "base_qc_report":
                qc.base_qc_report(p)
            elif n.startswith("perform"):
                getattr(p, n)(P)
            elif n == "do_day_check":
                p.do_day_check(P["base"]["time_since_sun_above_horizon"])
            elif n.startswith("do_base") or n == "do_kate_mat_qc":
                getattr(p, n)(P[dict(do_base_wind_qc="W", do_base_slp_qc="SLP", do_base_sst_qc="SST", do_base_mat_qc="AT", do_kate_mat_qc="AT", do_base_dpt_qc="DPT")[n]])
            else:
                getattr(p, n)()
        return todo
    todo, _ = targets(world, op, case)
    if op[0] == "voyage":
        v, n = world.voy[op[2]], op[1]
        if n == "track_check":
            v.track_check(dict(c21.tm.DEFAULT))
        elif n == "iquam_track_check":
            v.iquam_track_check(dict(IQ))
        elif n == "spike":
            v.spike_check(dict(SPIKE), intype=op[3])
        elif n == "repeated":
            v.find_repeated_values(dict(threshold=0.3, min_count=3), intype=op[3])
        elif n == "rounded":
            v.find_multiple_rounded_values(dict(threshold=0.05, min_count=3), intype=op[3])
        elif n == "saturated":
            v.find_saturated_runs(dict(min_time_threshold=2.0, shortest_run=1))
        elif n == "aground":
            v.buoy_aground_check(dict(smooth_win=3, min_win_period=1, max_win_period=3))
        elif n == "new_aground":
            v.new_buoy_aground_check(dict(smooth_win=3, min_win_period=1))
        elif n == "speed":
            v.buoy_speed_check(dict(speed_limit=0.05, min_win_period=0.125, max_win_period=1.0))
        elif n == "new_speed":
            v.new_buoy_speed_check(dict(IQ), dict(speed_limit=0.05, min_win_period=0.125))
        elif n == "tail":
            v.buoy_tail_check(dict(c27.DEFAULT, long_win_len=7, short_win_len=3, drift_inter=0.29))
        elif n == "bias":
            v.buoy_bias_noise_check(dict(c28.DEFAULT, n_eval=5))
        elif n == "full_track":
            tc.mds_full_track_check(v)
        elif n == "mds_track":
            tc.mds_track_check(v)
        return todo
    var = op[2]
    f = ex.QC_filter()
    if op[3]:
        f.add_qc_filter("POS", "sel", 0)
    lim = P[var]["maximum_anomaly"]
    good = []
    for k, p in enumerate(world.reps):
        a = p.getanom(var)
        good.append(case[1][k] != -1 and a is not None and abs(a) <= lim)
    if op[3]:
        d = world.deck
    else:
        d = ex.Deck()
        for p, g in zip(world.reps, good):
            if g:
                d.append(p)
        todo = [k for k in todo if good[k]]
    before = list(d.reps)
    old = [p.qc.get("POSsel") for p in world.reps]
    if op[3]:
        for p, g in zip(world.reps, good):
            p.set_qc("POS", "sel", int(not g))
    d.add_filter(f)
    fld = [buddy.FIELDS[k][0] for k in buddy.KEYS[:2]]
    if op[1] == "mds":
        d.mds_buddy_check(var, fld[0], dict(limits=[[1, 1, 2], [2, 2, 2]], number_of_obs_thresholds=[[0, 5, 15, 100], [0]], multipliers=[[4.0, 3.5, 3.0, 2.5], [4.0]]))
    else:
        d.bayesian_buddy_check(var, fld[0], fld[1], fld[0], {"bayesian_buddy_check": dict(prior_probability_of_gross_error=(0.05, 0.05, 0.0, 0.3)[case[4] % 4], quantization_interval=0.1, measurement_error=1.0, limits=[2, 2, 4], noise_scaling=3.0),
                                                               var: dict(maximum_anomaly=lim)})
    if list(d.reps) != before or not all(a is b for a, b in zip(d.reps, before)):
        raise Lost()
    for p, o in zip(world.reps, old):
        if o is None:
            p.qc.pop("POSsel", None)
        else:
            p.qc["POSsel"] = o
    return todo


class Lost(Exception):
    pass


IQ = dict(buoy_speed_limit=15.0, ship_speed_limit=60.0, delta_d=1.11, delta_t=0.01, number_of_neighbours=5)
SPIKE = dict(max_gradient_space=0.5, max_gradient_time=1.0, ship_delta_t=2.0, buoy_delta_t=1.0, number_of_neighbours=5)
NODAY = ("POSfewsome_check",)


def same_ids(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def eqv(a, b):
    return a is b or a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def compare(m, before, after, allowed, op, ctx, case):
    for k, (a, b) in enumerate(zip(before, after)):
        for what in ("who", "dt", "pos", "clim", "ext"):
            m.ok(a[what] == b[what], "changed-" + what, lambda: "report %d: %r to %r by %s" % (k, a[what], b[what], ctx()))
        for v, x, y in zip(ex.VARLIST, a["data"], b["data"]):
            if eqv(x, y):
                continue
            # the documented correction
            d = case[0][k][0]
            fix = v == "HR" and op[1].startswith("perform") and x is None and y == 0 and d.get("DCK") == 701 and d["YR"] < 1860
            m.ok(fix, "changed-value", lambda: "report %d: %s %r to %r by %s" % (k, v, x, y, ctx()))
        for f in set(a["qc"]) | set(b["qc"]):
            x, y = a["qc"].get(f), b["qc"].get(f)
            if f not in allowed.get(k, ()):
                m.ok(x == y, "other-flag", lambda: "report %d: %s %r to %r by %s" % (k, f, x, y, ctx()))
            else:
                m.ok(y in range(10) and not isinstance(y, float) and int(y) == y, "flag-not-a-digit", lambda: "report %d: %s %r by %s" % (k, f, y, ctx()))


def check(case, m):
    flat, where, ops, params, seed = case
    w = World(case)
    m.decided()
    for n, op in enumerate(ops):
        ctx = lambda: "step %d %r of %r" % (n, op, case)
        flags = targets(w, op, case)[1]
        before, held = w.snap(), w.holds()
        try:
            done = run(w, op, case)
        except Lost:
            m.ok(False, "reports-lost", ctx)
        after, now = w.snap(), w.holds()
        for g in held[0]:
            m.ok(same_ids(held[0][g], now[0][g]), "reports-lost", ctx)
        m.ok(same_ids(held[1], now[1]), "reports-lost", ctx)
        # the missing hour of old deck 701 reports is corrected by base QC
        for a, b in zip(before, after):
            h = ex.VARLIST.index("HR")
            if a["data"][h] is None and b["data"][h] == 0 and op[0] == "report":
                a["dt"] = b["dt"]
        allowed = {k: set(flags) for k in done}
        compare(m, before, after, allowed, op, ctx, case)
        m.ok(w.params == params, "parameters-altered", ctx)
        m.event(op[1] + ("-" + op[2] if op[0] == "deck" else ""))
        # again at once
        run(w, op, case)
        again = w.snap()
        compare(m, after, again, {}, op, lambda: "the repetition of " + ctx(), case)
        # alone, on fresh reports
        if op[0] == "report" and op[1] == "do_day_check":
            continue                # works on the flags of other checks
        f, g = World(case, 7), World(case, 8)
        run(f, op, case)
        run(g, op, case)
        one, two = f.snap(), g.snap()
        for k in done:
            for name in flags:
                if one[k]["qc"].get(name) != two[k]["qc"].get(name):
                    m.event("flag-not-written")         # a voyage that is not judged
                    continue
                m.ok(one[k]["qc"].get(name) == again[k]["qc"].get(name) or changed_by_hour(case, k), "depends-on-other-checks",
                     lambda: "report %d: %s %r alone, %r after others: %s" % (k, name, one[k]["qc"].get(name), again[k]["qc"].get(name), ctx()))
                if name in again[k]["qc"]:
                    m.event("flag-%s" % ("set" if again[k]["qc"][name] else "clear"))


def changed_by_hour(case, k):
    d = case[0][k][0]
    return case[1][k] == -1 and d.get("DCK") == 701 and d.get("HR") is None


STREAMS = [Stream("sequences", gen, check, 150, 4000, need=50000)]
