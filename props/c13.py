"""C13 probability of gross error."""
import math

import qc
from core import Stream
from related import related

RULE = ("Priors 0..1 incl. both ends, quantisation steps, limits, means inside and outside the limits, spreads from a tenth to a hundred steps, every quantised value and values between steps; "
        "oracle: Bayes' rule with complementary-error-function integrals, sums over all quantised values, monotonicity in prior and in distance.")


def cdf_range(a, b, mu, s):
    """P(a < X < b) computed on the side that does not cancel."""
    a, b = (a - mu) / s, (b - mu) / s
    if a > 0:
        return 0.5 * (math.erfc(a / math.sqrt(2)) - math.erfc(b / math.sqrt(2)))
    if b < 0:
        return 0.5 * (math.erfc(-b / math.sqrt(2)) - math.erfc(-a / math.sqrt(2)))
    return 1 - 0.5 * math.erfc(-a / math.sqrt(2)) - 0.5 * math.erfc(b / math.sqrt(2))


def gen(r, i):
    q = r.choice([0.1, 0.1, 1.0, 0.5, 0.01, r.uniform(0.01, 2)])
    n = r.choice([1, 2, 5, 40, 160, r.randint(1, 400)])
    lo = r.choice([-8.0, 0.0, -n * q / 2, r.uniform(-20, 20)])
    mu = lo + r.uniform(-0.3, 1.3) * n * q
    s = r.choice([0.1 * q, q, n * q / 4.0, n * q * 2, r.uniform(0.1, 10)])
    p0 = r.choice([0.05, 0.0, 1.0, 0.5, 1e-6, r.random()])
    return (p0, q, lo, n, mu, s, r.randint(0, n), r.random(), r.random())


def check(c, m):
    p0, q, lo, n, mu, s, k, frac, p1 = c
    hi = lo + n * q
    ctx = lambda: repr(c)
    norm = cdf_range(lo - q / 2, hi + q / 2, mu, s)
    if norm < 1e-3:
        m.event("mean-too-far-outside")
        return
    gross = qc.p_data_given_gross(q, hi, lo)
    m.near(gross, 1.0 / (n + 1), 1e-9, "gross-likelihood", ctx)
    tot = 0.0
    if n <= 60:
        for j in range(n + 1):
            x = min(max(lo + j * q, lo), hi)
            tot += qc.p_data_given_good(x, q, hi, lo, mu, s)
        m.near(tot, 1.0, 1e-9, "good-likelihood-sum", ctx)
        m.near(gross * (n + 1), 1.0, 1e-9, "gross-likelihood-sum", ctx)
        m.event("sums")
    x = min(max(lo + k * q, lo), hi)
    for x in (x, lo + frac * n * q, lo, hi):
        x = min(max(x, lo), hi)
        good = cdf_range(max(x - q / 2, lo - q / 2), min(x + q / 2, hi + q / 2), mu, s) / norm
        g = qc.p_data_given_good(x, q, hi, lo, mu, s)
        m.near(g, good, 1e-9, "good-likelihood", ctx)
        if p0 / (n + 1) + (1 - p0) * good < 1e-9:
            m.event("both-likelihoods-negligible")
            continue
        p = qc.p_gross(p0, q, hi, lo, x, mu, s)
        want = p0 / (n + 1) / (p0 / (n + 1) + (1 - p0) * good)
        den = p0 / (n + 1) + (1 - p0) * good
        m.near(p, want, 1e-12 / den + 1e-9, "posterior", ctx)
        m.ok(0 <= p <= 1, "range", ctx)
        if p0 in (0.0, 1.0):
            m.eq(p, p0, "certain-prior", ctx)
            m.event("prior-%g" % p0)
        if p1 > p0 and p1 / (n + 1) + (1 - p1) * good > 1e-9:
            m.ok(qc.p_gross(p1, q, hi, lo, x, mu, s) >= p - 1e-9, "falls-with-prior", ctx)
        # one step farther from the mean
        y = x + q if x >= mu else x - q
        if lo <= y <= hi and p0 > 1e-6:
            m.ok(qc.p_gross(p0, q, hi, lo, y, mu, s) >= p - 1e-7, "falls-with-distance", ctx)
            m.event("distance-steps")
    m.event("cases")


STREAMS = [Stream("posterior", gen, check, 160000, 300000, need=20000), Stream("related", *related(gen, check, nudge=False, valid=lambda c: c[6] <= c[3]), 15000, 60000, need=500)]
