"""C04 spherical geometry: judged with unit vectors."""
import math

import qc
import spherical_geometry as sg
from core import Stream
from related import related

R = 6371.0088
RULE = ("Pairs of points: random, coincident, tiny separations, same meridian or parallel, poles, dateline, near-antipodal, both longitude conventions; courses 0..360, "
        "distances 0..40000 km, fractions 0..1; oracle: unit-vector geometry.")


def vec(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))


def dot(u, v):
    return sum(a * b for a, b in zip(u, v))


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def ang(u, v):
    # chord form: accurate for small and for large angles
    d = math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
    s = math.sqrt(sum((a + b) ** 2 for a, b in zip(u, v)))
    return 2 * math.atan2(d, s)


def frame(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    north = (-math.sin(a) * math.cos(b), -math.sin(a) * math.sin(b), math.cos(a))
    east = (-math.sin(b), math.cos(b), 0.0)
    return north, east


def point(rng):
    r = rng.random()
    if r < 0.1:
        lat = rng.choice([90.0, -90.0, 0.0, 89.9999, -89.9999])
    elif r < 0.3:
        lat = round(rng.uniform(-90, 90), 1)
    else:
        lat = math.degrees(math.asin(rng.uniform(-1, 1)))
    r = rng.random()
    if r < 0.15:
        lon = rng.choice([180.0, -180.0, 0.0, 179.9, -179.9, 90.0, -90.0])
    elif r < 0.4:
        lon = round(rng.uniform(-180, 180), 1)
    else:
        lon = rng.uniform(-180, 180)
    return lat, lon


def gen_pair(rng, i):
    lat1, lon1 = point(rng)
    r = rng.random()
    if r < 0.1:
        lat2, lon2 = lat1, lon1
    elif r < 0.3:
        s = 10 ** rng.uniform(-7, 0.5)
        lat2, lon2 = lat1 + s * rng.uniform(-1, 1), lon1 + s * rng.uniform(-1, 1)
    elif r < 0.4:
        lat2, lon2 = point(rng)[0], lon1
    elif r < 0.45:
        lat2, lon2 = point(rng)[0], lon1 + rng.uniform(-1e-7, 1e-7)
    elif r < 0.55:
        lat2, lon2 = lat1, point(rng)[1]
    elif r < 0.65:
        s = rng.choice([0, 1e-6, 1e-3, 0.1, 1])
        lat2, lon2 = -lat1 + s * rng.uniform(-1, 1), lon1 + 180 + s * rng.uniform(-1, 1)
    else:
        lat2, lon2 = point(rng)
    lat2 = min(max(lat2, -90.0), 90.0)
    lon2 = (lon2 + 180) % 360 - 180
    f = rng.choice([0.0, 1.0, 0.5, rng.random(), rng.random()])
    return (lat1, lon1, lat2, lon2, f)


def check_pair(case, m):
    lat1, lon1, lat2, lon2, f = case
    u, v = vec(lat1, lon1), vec(lat2, lon2)
    d = ang(u, v)
    ctx = lambda: repr(case)
    got = sg.angular_distance(lat1, lon1, lat2, lon2)
    m.near(got, d, 3e-12, "angle", ctx)
    m.near(sg.sphere_distance(lat1, lon1, lat2, lon2), d * R, 2e-8, "distance", ctx)
    m.near(sg.angular_distance(lat2, lon2, lat1, lon1), float(got), 1e-14, "symmetric", ctx)
    for k in (360, -360):
        m.near(sg.angular_distance(lat1, lon1 + k, lat2, lon2), d, 3e-12, "turn-1", ctx)
        m.near(sg.angular_distance(lat1, lon1, lat2, lon2 + k), d, 3e-12, "turn-2", ctx)
    m.ok(0 <= got <= math.pi, "angle-range", ctx)
    if (lat1, lon1) == (lat2, lon2):
        m.ok(got == 0 and sg.sphere_distance(lat1, lon1, lat2, lon2) == 0, "zero-same-point", ctx)
        la, lo = sg.intermediate_point(lat1, lon1, lat2, lon2, f)
        m.near(la, lat1, 1e-9, "intermediate-same-point", ctx)
        m.near(lo, lon1, 1e-9, "intermediate-same-point", ctx)
    elif d > 1e-11:
        m.ok(got > 0, "positive-distinct-points", ctx)

    # course
    c = float(sg.course_between_points(lat1, lon1, lat2, lon2))
    m.ok(0.0 <= c <= 360.0, "course-range", lambda: "%r course %r" % (case, c))
    cl = math.cos(math.radians(lat1))
    sd = math.sin(d)
    if sd * cl > 1e-10 and d > 1e-10:
        n, e = frame(lat1, lon1)
        want = math.degrees(math.atan2(dot(v, e), dot(v, n)))
        tol = math.degrees(3 * math.sqrt(4e-15 / (sd * cl)) + 1e-7)
        if tol < 20:
            diff = abs((c - want + 180) % 360 - 180)
            m.ok(diff <= tol, "course", lambda: "%r course %r expected %r" % (case, c, want % 360))
            m.event("courses")
            # follow that course over that distance
            la, lo = sg.lat_lon_from_course_and_distance(lat1, lon1, c, d * R)
            m.ok(-90 <= la <= 90 and -180.0000001 <= lo <= 180.0000001, "position-range", lambda: "%r -> %r %r" % (case, la, lo))
            m.near(ang(vec(la, lo), v), 0.0, math.radians(tol) * sd + 5e-8, "course-then-distance", ctx)
    elif cl < 1e-7 and d > 1e-9:
        # from a pole only one direction is possible
        want = 180.0 if lat1 > 0 else 0.0
        diff = abs((c - want + 180) % 360 - 180)
        m.ok(diff <= 1e-6, "course-at-pole", lambda: "%r course %r" % (case, c))

    # a fraction of the way
    if d < math.pi - 1e-3 and d > 1e-12:
        la, lo = sg.intermediate_point(lat1, lon1, lat2, lon2, f)
        m.ok(-90 <= la <= 90 and -180.0000001 <= lo <= 180.0000001, "intermediate-range", lambda: "%r -> %r %r" % (case, la, lo))
        s = math.sin(d)
        w = [(math.sin((1 - f) * d) * a + math.sin(f * d) * b) / s for a, b in zip(u, v)]
        m.near(ang(vec(la, lo), w), 0.0, 1e-10 + 4e-15 / s, "intermediate", lambda: "%r -> %r %r" % (case, la, lo))
        m.near(ang(vec(la, lo), u), f * d, 1e-10 + 4e-15 / s, "intermediate-fraction", ctx)
        m.event("intermediate")
    if abs(lon1 - lon2) > 180:
        m.event("across-dateline")


def gen_move(rng, i):
    lat, lon = point(rng)
    tc = rng.choice([0.0, 90.0, 180.0, 270.0, 360.0, 45.0, 225.0, rng.uniform(0, 360), rng.uniform(0, 360)])
    r = rng.random()
    if r < 0.1:
        d = 0.0
    elif r < 0.2:
        d = math.radians(abs(90 - lat)) * R if rng.random() < 0.5 else math.radians(abs(90 + lat)) * R
    elif r < 0.6:
        d = rng.uniform(0, 1500)
    else:
        d = rng.uniform(0, 40000)
    if rng.random() < 0.15:
        lon += 360 * (lon < 0)
    return (lat, lon, tc, d)


def check_move(case, m):
    lat, lon, tc, d = case
    la, lo = sg.lat_lon_from_course_and_distance(*case)
    la, lo = float(la), float(lo)
    m.ok(-90 <= la <= 90 and -180.0000001 <= lo <= 180.0000001, "position-range", lambda: "%r -> %r %r" % (case, la, lo))
    n, e = frame(lat, lon)
    u = vec(lat, lon)
    t = math.radians(tc)
    dr = d / R
    w = [math.cos(dr) * a + math.sin(dr) * (math.cos(t) * b + math.sin(t) * c) for a, b, c in zip(u, n, e)]
    # arcsine near a pole resolves 2e-8 rad
    if abs(lat) == 90:
        # every direction is south (north): only the latitude is defined
        m.near(math.radians(la), math.asin(max(-1, min(1, w[2]))), 1e-7, "position-from-pole", lambda: repr(case))
    else:
        m.near(ang(vec(la, lo), w), 0.0, 1e-7, "position", lambda: "%r -> %r %r" % (case, la, lo))
    away = sg.sphere_distance(lat, lon, la, lo)
    full = dr % (2 * math.pi)
    m.near(away, min(full, 2 * math.pi - full) * R, 1e-3, "distance-moved", lambda: repr(case))
    if d == 0:
        m.near(la, lat, 2e-6, "no-move", lambda: repr(case))
    if abs(lo - lon) > 180:
        m.event("across-dateline")


def gen_tri(rng, i):
    return tuple(x for k in range(3) for x in point(rng))


def check_tri(case, m):
    a, b, c = case[0:2], case[2:4], case[4:6]
    ab, bc, ac = (sg.sphere_distance(*(p + q)) for p, q in ((a, b), (b, c), (a, c)))
    m.ok(ac <= ab + bc + 1e-6, "triangle", lambda: "%r %r %r %r" % (case, ab, bc, ac))
    m.ok(max(ab, bc, ac) <= math.pi * R + 1e-6, "half-circumference", lambda: repr(case))


def gen_ang(rng, i):
    a = rng.choice([0.0, math.pi, 2 * math.pi, -math.pi, rng.uniform(0, 2 * math.pi), rng.uniform(-math.pi, math.pi)])
    lo, hi = (0, 2 * math.pi) if a > math.pi else (-math.pi, math.pi)
    return (a, rng.choice([rng.uniform(lo, hi), a, 0.0, math.pi, max(lo, min(hi, a + rng.uniform(-0.01, 0.01)))]))


def check_ang(case, m):
    """the angle between two directions is the shorter way round"""
    a, b = case
    want = abs(math.atan2(math.sin(a - b), math.cos(a - b)))
    m.near(qc.angle_diff(a, b), want, 1e-12, "angle", lambda: repr(case))
    m.near(qc.angle_diff(b, a), want, 1e-12, "angle-symmetric", lambda: repr(case))
    m.event("wrapped" if abs(a - b) > math.pi else "direct")


STREAMS = [
    Stream("pairs", gen_pair, check_pair, 240000, 1000000, need=10000),
    Stream("moves", gen_move, check_move, 240000, 1000000, need=10000),
    Stream("triangles", gen_tri, check_tri, 120000, 400000, need=10000),
    Stream("angles", gen_ang, check_ang, 24000, 100000, need=8000),
    Stream("related", *related(gen_pair, check_pair, valid=lambda c: all(abs(x) == 90 or abs(x) < 89.9999 for x in (c[0], c[2])) and -180 <= c[1] <= 180 and -180 <= c[3] <= 180 and 0 <= c[4] <= 1), 30000, 150000, need=500),
]
