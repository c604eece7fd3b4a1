"""Drifter records with matched background SST, ice and variance, and the reference tail and bias/noise verdicts."""
import datetime
import math

import drift
import geo
from core import size
from ephem import is_day, sun_elevation, when


class Unsure(Exception):
    pass


def over(x, lim, nice):
    """x > lim; equality counts only when all the numbers involved are exact (small dyadic fractions)"""
    if abs(x - lim) > 1e-9:
        return x > lim
    if nice and x == lim and (x * 1024).is_integer():
        return False
    raise Unsure()


def usable(c, k):
    """night, free of ice, matched"""
    d = drift_rec(c, k)
    e = c["ext"][k]
    day = is_day(d["YR"], d["MO"], d["DY"], d["HR"], d["LAT"], d["LON"], 0.0, -2.5)
    if e[0] is None or (e[1] is not None and e[1] > 0.15):
        return False
    if day is None:
        raise Unsure()
    return not day


def all_night(c):
    for k in range(len(c["t"])):
        d = drift_rec(c, k)
        if is_day(d["YR"], d["MO"], d["DY"], d["HR"], d["LAT"], d["LON"], 0.0, -2.5) != 0:
            return False
    return True


def drift_rec(c, k):
    d = geo.stamp(datetime.datetime(*c["base"]), c["t"][k])
    d.update(LAT=c["lat"][k], LON=c["lon"][k])
    return d


def gen(r, i, long_len, short_len, nice):
    """a record whose usable reports have good, biased, noisy or sprinkled-bad stretches at either end"""
    n = size(r, [0, 1, 2, short_len, short_len + 1, long_len, long_len + 2, 2 * long_len + 3, 10, 30, 60, 3 * long_len], 1200)
    n = max(n, r.choice([0, n, 2 * long_len + 8]))
    n = min(n, 420)
    polar = r.random() < 0.7
    mo = r.choice([12, 1]) if polar else r.choice([3, 6, 12])
    lat = r.choice([75.0, 85.5]) if polar else round(r.uniform(-60, 60), 1)
    lon = round(r.uniform(-180, 180), 1)
    base = None
    t = drift.times(r, n, r.choice([1, 3, 6, 12, 24] if not polar else [0.5, 1]))
    if not polar and n and r.random() < 0.6:
        # one of the reports close to the end of the night
        d = geo.stamp(datetime.datetime(r.choice([1990, 2003, 2004]), mo, 15), t[r.randrange(n)])
        base = (d["YR"], d["MO"], 15)
        e = lambda x: sun_elevation(when(d["YR"], d["MO"], d["DY"], d["HR"], 0.0), lat, x)[0] + 2.5 - near
        near = r.choice([-1, 1]) * r.choice([0.04, 0.06, 0.1, 0.2])
        best = min((-180 + k * 2 for k in range(181)), key=lambda x: abs(e(x)))
        best = min((best + k * 0.01 for k in range(-200, 201)), key=lambda x: abs(e(x)))
        lon = round((best + 180) % 360 - 180, 2)
    q = (lambda x: round(x * 4) / 4) if nice else (lambda x: round(x, 2))
    edge = sorted(r.choice([0, n, r.randint(0, n), r.randint(0, min(n, 12))]) for k in range(2))
    kinds = [r.choice(["good", "biased", "noisy", "sprinkled", "edge"]) for k in range(3)]
    if r.random() < 0.6:
        kinds[1] = "good"
    scale = r.choice([0.0, 0.1, 0.3]) if not nice else r.choice([0.0, 0.25])
    rate = r.choice([0.1, 0.3, 0.6])
    sign = r.choice([1, -1])
    off = r.choice([1.0, 2.0, 3.0, 1.25, 1.5]) if nice else r.choice([0.8, 1.1, 1.3, 2.0, 5.0])
    ext, sst = [], []
    vlim = 0.25 if nice else 0.3
    for k in range(n):
        kind = kinds[0] if k < edge[0] else kinds[2] if k >= edge[1] else kinds[1]
        a = dict(good=0.0, biased=sign * off, noisy=off * r.choice([1, -1]), sprinkled=sign * off * 3 if r.random() < rate else 0.0, edge=sign * off * r.choice([1, 1, 0.5]))[kind]
        a += scale * r.choice([1, -1, 0, 0.5])
        bg = q(r.uniform(0, 25)) if r.random() > 0.1 else r.choice([-1.75, 0.0, 30.25])
        sst.append(q(bg + a))
        if r.random() < 0.04:
            bg = None
        ice = r.choice([None] * 10 + [0.0] * 10 + [0.15, 0.14, 0.151, 0.155, 0.16, 0.5, 1.0]) if r.random() < 0.5 else None
        x = r.random()
        var = (r.choice([0.0, 0.25]) if nice else round(r.uniform(0, 0.25), 2)) if x < 0.97 else vlim if x < 0.98 or i % 3 else r.choice([round(vlim + 0.01, 2), 1.0, None if bg is None else 9.0])
        if bg is None and r.random() < 0.5:
            var = None
        ext.append((bg, ice, var))
    return dict(base=(r.choice([1990, 2003, 2004]), mo, r.randint(1, 28)) if base is None else base, t=t, lat=[lat] * n, lon=[round(lon + 0.01 * k, 2) if abs(lon + 0.01 * k) < 180 else lon for k in range(n)], sst=sst, ext=ext, nice=nice)


def voyage(c):
    recs = drift.mk(c)
    for d, s in zip(recs, c["sst"]):
        d["SST"] = s
    return drift.voyage(recs, [dict(OSTIA=e[0], ICE=e[1], BGVAR=e[2]) for e in c["ext"]])


def mean(x):
    return math.fsum(x) / len(x)


def std(x):
    a = mean(x)
    return math.sqrt(math.fsum((v - a) ** 2 for v in x) / len(x))


def trimmed(x):
    cut = len(x) // 100
    return sorted(x)[cut:len(x) - cut]


def tail_model(c, par):
    """(flags of the start tail, flags of the end tail, how they came about)"""
    idx = [k for k in range(len(c["t"])) if usable(c, k)]
    n, nice = len(idx), c["nice"]
    an = [c["sst"][k] - c["ext"][k][0] for k in idx]
    bv = [c["ext"][k][2] for k in idx]
    none = [0] * len(c["t"])
    if not n:
        return none, none, "nothing-usable"
    inter, intra, lim = par["drif_inter"], par["drif_intra"], par["background_err_lim"]

    def bad_long(ks):
        x = trimmed([an[k] for k in ks])
        e1 = mean([math.sqrt(bv[k]) for k in ks])
        e2 = mean([bv[k] for k in ks])
        return over(abs(mean(x)), par["long_err_std_n"] * math.sqrt(inter ** 2 + e1 ** 2), nice) or over(std(x), math.sqrt(intra ** 2 + e2), nice)

    def bad_short(ks):
        return sum(over(abs(an[k]), par["short_err_std_n"] * math.sqrt(bv[k] + inter ** 2 + intra ** 2), nice) for k in ks) >= par["short_win_n_bad"]

    def count(seq, w, bad):
        """windows failing one after the other from the start of seq"""
        f = 0
        for j in range(len(seq) - w + 1):
            ks = seq[j:j + w]
            if any(bv[k] > lim for k in ks) or not bad(ks):
                break
            f += 1
        return f

    why = []
    seq = list(range(n))
    head = tail = 0                 # usable reports in either tail
    w = par["long_win_len"]
    if n >= w:
        f, b = count(seq, w, bad_long), count(seq[::-1], w, bad_long)
        head = f - 1 + (w - 1) // 2 + 1 if f else 0
        tail = b - 1 + (w - 1) // 2 + 1 if b else 0
        why.append("long-head" if f else "")
        why.append("long-tail" if b else "")
    if head + tail < n:
        rest = seq[head:n - tail]
        w = par["short_win_len"]
        if len(rest) >= w:
            f, b = count(rest, w, bad_short), count(rest[::-1], w, bad_short)
            whole = len(rest) - w + 1
            head += len(rest) if f == whole else f
            tail += len(rest) if b == whole else b
            why.append("short-head" if f else "")
            why.append("short-tail" if b else "")
    if head + tail >= n:
        return none, none, "whole-record"
    a = [int(head > 0 and k <= idx[head - 1]) for k in range(len(none))]
    z = [int(tail > 0 and k >= idx[n - tail]) for k in range(len(none))]
    return a, z, "+".join(x for x in why if x) or "clean"


def bias_model(c, par):
    """(bias, noise, short) for the whole record, and how"""
    lim, nice = par["background_err_lim"], c["nice"]
    masked = any(e[2] is not None and e[2] > lim for e in c["ext"])
    idx = [k for k in range(len(c["t"])) if usable(c, k) and not (c["ext"][k][2] > lim)]
    if not idx:
        return (0, 0, 0), "nothing-usable"
    an = [c["sst"][k] - c["ext"][k][0] for k in idx]
    bv = [c["ext"][k][2] for k in idx]
    inter, intra = par["drif_inter"], par["drif_intra"]
    if len(idx) >= par["n_eval"]:
        b = over(abs(mean(an)), par["bias_lim"], nice)
        s = over(std(an), math.sqrt(intra ** 2 + mean(bv)), nice)
        return (int(b), int(s), 0), "long" + ("-biased" if b else "") + ("-noisy" if s else "")
    if masked:
        return (0, 0, 0), "short-masked"
    k = sum(over(abs(a), par["err_std_n"] * math.sqrt(v + inter ** 2 + intra ** 2), nice) for a, v in zip(an, bv))
    return (0, 0, int(k >= par["n_bad"])), "short-bad" if k >= par["n_bad"] else "short-good"
