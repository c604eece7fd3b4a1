"""C20 super-observations and their neighbourhoods."""
import math

import Extended_IMMA as ex
import buddy
from core import Stream, size

RULE = ("Clouds of up to 80 reports clustered around mid-latitudes, the dateline, Greenwich, year ends, 29 February and both poles, inserted in random order; after averaging every box (the whole 360x180x73 array) and the neighbours of occupied and "
        "empty boxes at random radii are compared with sparse dictionaries.")


def gen(r, i):
    n = size(r, [1, 2, 5, 20, 80], 2500)
    c = buddy.gen_centre(r)
    c2 = buddy.gen_centre(r) if r.random() < 0.3 else c
    if r.random() < 0.15:
        c2 = (-c[0], c[1], c[2])        # the other hemisphere, e.g. the other pole
    spread, ts = r.choice([0.7, 2, 4, 9]), r.choice([0, 3, 12, 40])
    obs = []
    for k in range(n):
        p = buddy.gen_place(r, c if r.random() < 0.7 else c2, spread, ts)
        obs.append(p + (None if r.random() < 0.05 else round(r.uniform(-8, 8), r.choice([1, 3])),))
    if n > 3 and r.random() < 0.3:
        obs += [obs[0][:4] + (round(r.uniform(-8, 8), 1),) for k in range(3)]
    if i % 12 == 5:         # a very busy box
        obs += [obs[0][:4] + (round(r.uniform(-8, 8), 1),) for k in range(r.choice([130, 257, 300, 600, 1100]))]
    radii = [[r.choice([0, 1, 1, 2, 2, 3]), r.choice([0, 1, 2, 3]), r.choice([0, 1, 2, 2, 4, 5])] for k in range(3)]
    return (obs, radii, r.randint(0, 10 ** 9))


def check(c, m):
    obs, radii, seed = c
    import random
    r = random.Random(seed)
    order = list(obs)
    r.shuffle(order)
    g = ex.Np_Super_Ob()
    for lat, lon, mo, dy, a in order:
        g.add_rep(lat, lon, r.choice([2003, 2004]), mo, dy, a)
    g.take_average()
    ref = buddy.superobs([(buddy.cell(*o[:4]), o[4]) for o in obs if o[4] is not None])
    import numpy as np
    occ = set(zip(*[map(int, k) for k in np.nonzero(g.nobs)]))
    m.eq(sorted(occ), sorted(ref), "occupied-boxes", lambda: repr(c))
    m.near(g.nobs.sum(), sum(n for a, n in ref.values()), 0, "reports-conserved", lambda: repr(c))
    for k, (a, n) in ref.items():
        m.eq(int(g.nobs[k]), n, "box-count", lambda: "%r of %r" % (k, c))
        m.near(g.grid[k], a, 1e-9, "box-mean", lambda: "%r of %r" % (k, c))
    m.near(np.abs(g.grid).sum(), sum(abs(a) for a, n in ref.values()), 1e-6, "empty-box-has-a-value", lambda: repr(c))
    m.event("boxes", len(ref))
    m.event("shared-boxes", sum(n > 1 for a, n in ref.values()))
    cells = sorted(ref)
    r.shuffle(cells)
    cells = cells[:12]
    for k in list(cells)[:4]:
        cells.append(((k[0] + r.randint(-3, 3)) % 360, min(179, max(0, k[1] + r.randint(-2, 2))), (k[2] + r.randint(-3, 3)) % 73))
    for k in cells:
        for rad in radii:
            if k[1] < 2 or k[1] > 177:
                if r.random() < 0.6:
                    continue
                m.event("polar-searches")
            an, no = g.get_neighbour_anomalies(rad, *k)
            want = buddy.neighbours(ref, rad, k)
            ctx = lambda: "box %r radius %r: %r, expected %r; %r" % (k, rad, list(zip(map(float, an), map(float, no))), want, c)
            m.eq(len(an), len(no), "list-lengths", ctx)
            m.eq(len(an), len(want), "neighbours", ctx)
            got = sorted((round(float(a), 6), int(n)) for a, n in zip(an, no))
            exp = sorted((round(v[0], 6), v[1]) for _, v in want)
            m.ok(all(abs(p[0] - q[0]) < 5e-6 and p[1] == q[1] for p, q in zip(got, exp)), "neighbours", ctx)
            m.event("neighbours-found", len(want))
            for (i, j, p), _ in want:
                if abs(i - k[0]) > 180:
                    m.event("across-dateline")
                if abs(p - k[2]) > 36:
                    m.event("across-new-year")


def check_busy(n, m):
    """a box with more reports than small integers can count, next to one with a single report"""
    g = ex.Np_Super_Ob()
    for k in range(n):
        g.add_rep(10.5, 20.5, 2004, 6, 1, 3.0 + k % 2)
    g.add_rep(10.5, 21.5, 2004, 6, 1, 1.0)
    g.take_average()
    b = buddy.cell(10.5, 20.5, 6, 1)
    m.eq(int(g.nobs[b]), n, "busy-box-count", n)
    m.near(g.grid[b], 3.0 + (n // 2) / float(n), 1e-9, "busy-box-mean", n)
    an, no = g.get_neighbour_anomalies([1, 1, 1], *buddy.cell(10.5, 21.5, 6, 1))
    m.eq([int(x) for x in no], [n], "busy-box-neighbour", n)
    m.event("busy-box-reports", n)


def gen_wide(r, i):
    """searches near a pole whose span is half the circle of longitude, or almost, or more"""
    row = r.choice([0, 1, 2, 3, 4, 5, 8, 12, 30, 60])
    if r.random() < 0.5:
        row = 179 - row
    lat = 89.5 - row
    half = 180 * math.cos(math.radians(lat))
    rad = [max(0, int(half) + r.choice([-2, -1, 0, 0, 1, 1, 2, 5])), r.choice([0, 1, 2, 4]), r.choice([0, 1])]
    x0 = r.choice([0, 1, 90, 179, 180, 181, 359, r.randint(0, 359)])
    cells = set()
    for k in range(r.choice([2, 6, 30])):
        y = row + r.randint(-5, 5)
        x = (x0 + r.choice([180, 180, 179, 181, 178, 182, 0, 1, 359, r.randint(0, 359)])) % 360
        if 0 <= y < 180:
            cells.add((x, y))
    return (row, x0, rad, sorted(cells))


def check_wide(c, m):
    row, x0, rad, cells = c
    g, obs = ex.Np_Super_Ob(), []
    for k, (x, y) in enumerate(cells):
        obs.append((89.5 - y, x - 179.5, 1, 1, 1.0 + k))
        g.add_rep(89.5 - y, x - 179.5, 2003, 1, 1, 1.0 + k)
    g.take_average()
    ref = buddy.superobs([(buddy.cell(*o[:4]), o[4]) for o in obs])
    want = buddy.neighbours(ref, rad, (x0, row, 0))
    an, no = g.get_neighbour_anomalies(rad, x0, row, 0)
    m.eq(sorted(map(float, an)), sorted(v[0] for _, v in want), "wide-search", lambda: repr(c))
    m.eq(len(no), len(want), "wide-search-counts", lambda: repr(c))
    m.event("wide-searches")
    for (i, j, p), _ in want:
        if (i - x0) % 360 == 180:
            m.event("opposite-boxes-found")


STREAMS = [Stream("wide", gen_wide, check_wide, 400, 8000, need=300), Stream("busy", [256, 1000, 40000, 70000], check_busy, None, None, need=12), Stream("clouds", gen, check, 480, 9000, need=9000)]
