"""C29: spherical geography is right for every point, bearing and distance."""

import math

import upstage_des.api as UP
from upstage_des.geography import Spherical
from upstage_des.motion import great_circle_calcs as gc
from upstage_des.units import unit_convert

from symex import trig

from .common import J

R = Spherical.EARTH_RADIUS
BOUNDS = ("latitudes within 89 degrees, longitudes within 179 degrees (90 for the origin of a route), every "
          "bearing, distances up to 20000 km; routes of 2-4 segments, circles of 4 "
          "points, heights of -10 to 1000 km")
ASSUMPTIONS = ["exact real arithmetic and trigonometry",
               "regular configurations: no place at a pole, no coincident or antipodal places, no turn by "
               "exactly half a circle, no compared quantity exactly at the end of its range"]
REACH = []

LAT = (2, -0.41, 0.41)
LON = (2, -1, 1)
LAT2 = (1, -0.99, 0.99)
LON1 = (1, -1, 1)
LAT1, ANY, PART = (1, -1, 1), (1, -100, 100), (1, 0, 100)


def vec(lat, lon):
    """Unit vector of a place in radians."""
    return (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat))


def vdeg(p):
    return vec(math.radians(p[0]), math.radians(p[1]))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def north(lat, lon):
    return (-math.sin(lat) * math.cos(lon), -math.sin(lat) * math.sin(lon), math.cos(lat))


def east(lon):
    return (-math.sin(lon), math.cos(lon), 0)


def go(lat, lon, bearing, d):
    """Unit vector reached from a place."""
    n, e, v = north(lat, lon), east(lon), vec(lat, lon)
    cb, sb, cd, sd = math.cos(bearing), math.sin(bearing), math.cos(d), math.sin(d)
    return tuple(cd * x + sd * (cb * y + sb * z) for x, y, z in zip(v, n, e))


def close(ctx, tr, a, b, label):
    for x, y in zip(a, b):
        ctx.check(tr.zero(x - y), label)


def deg(*xs):
    return tuple(math.degrees(x) for x in xs)


def distance(ctx, units):
    tr = trig.make(ctx)
    lat1, lon1 = tr.angle("lat1", *LAT), tr.angle("lon1", *LON)
    lat2, lon2 = tr.angle("lat2", *LAT), tr.angle("lon2", *LON)
    a, b = vec(lat1, lon1), vec(lat2, lon2)
    tr.unit(a, b)
    d = Spherical.distance(deg(lat1, lon1), deg(lat2, lon2), units=units)
    th = unit_convert(d, units, "m") / R
    ctx.check(tr.zero(math.cos(th) - dot(a, b)), "distance is the angle between the places")
    ctx.check(ctx.And(tr.posi(th), tr.posi(3.15 - th)), "distance is the short way round")
    d2 = Spherical.distance(deg(lat2, lon2), deg(lat1, lon1), units=units)
    ctx.eq(d2, d, "distance is symmetric")
    both = Spherical.distance_and_bearing(deg(lat1, lon1), deg(lat2, lon2), units=units)
    ctx.eq(both[0], d, "distance with bearing")
    ctx.eq(both[1], Spherical.bearing(deg(lat1, lon1), deg(lat2, lon2)), "bearing with distance")
    if units == "nmi":
        ctx.eq(Spherical.distance(deg(lat1, lon1), deg(lat2, lon2)), d, "nautical miles unless asked")


def bearing(ctx):
    tr = trig.make(ctx)
    lat1, lon1 = tr.angle("lat1", *LAT1), tr.angle("lon1", *ANY)
    lat2, lon2 = tr.angle("lat2", *LAT1), tr.angle("lon2", *ANY)
    b = vec(lat2, lon2)
    x, y = dot(b, north(lat1, lon1)), dot(b, east(lon1))
    br = Spherical.bearing(deg(lat1, lon1), deg(lat2, lon2))
    ctx.check(ctx.And(br >= 0, br < 360), "bearing in 0..360")
    cb, sb = math.cos(math.radians(br)), math.sin(math.radians(br))
    ctx.check(tr.zero(sb * x - cb * y), "bearing points along the great circle")
    ctx.check(tr.posi(sb * y + cb * x), "bearing points towards the place")


def forward(ctx):
    tr = trig.make(ctx)
    lat, lon = tr.angle("lat", *LAT1), tr.angle("lon", *ANY)
    br, d = tr.angle("bearing", *ANY), tr.angle("d", *PART)
    want = go(lat, lon, br, d)
    tr.unit(want)
    p = Spherical.point_from_bearing_dist(deg(lat, lon), math.degrees(br), d * R, "m")
    close(ctx, tr, vdeg(p), want, "the place at that bearing and distance")


def place(tr, lat, lon, bearing, d):
    """The place at a bearing and a distance, as an angle pair."""
    v = go(lat, lon, bearing, d)
    tr.unit(v)
    z = min(max(v[2], -1.0), 1.0) if isinstance(v[2], float) else v[2]
    y = math.sin(bearing) * math.sin(d)
    x = math.cos(lat) * math.cos(d) - math.sin(lat) * math.sin(d) * math.cos(bearing)
    return math.asin(z), lon + math.atan2(y, x)


def setup(ctx, n, lo=0):
    """An origin, a bearing, and a place at n times an angle from it."""
    tr = trig.make(ctx)
    lat, lon = tr.angle("lat", *LAT), tr.angle("lon", *LON1)
    br, d = tr.angle("bearing", *ANY), tr.angle("d", n, lo, math.tan(math.pi / 2 / n) * 0.999)
    tr.nonneg(math.sin(0.5 * d), math.cos(0.5 * d))
    tr.nonneg(math.cos(lat))
    tr.known(0.5 * d)
    return tr, lat, lon, br, d


def frac(ctx, k, n):
    return trig.exact(k, n) if ctx.symbolic else k / n


def along(ctx, n, k):
    tr, lat, lon, br, d = setup(ctx, n if n % 2 == 0 else 2 * n)
    lat2, lon2 = place(tr, lat, lon, br, d)
    f = frac(ctx, k, n)
    got = Spherical.point_along(deg(lat, lon), deg(lat2, lon2), f)
    close(ctx, tr, vdeg(got), go(lat, lon, br, f * d), "the place at that fraction of the way")


def linspace(ctx, n, ecef):
    tr, lat, lon, br, d = setup(ctx, n if n % 2 == 0 else 2 * n, 0.001)
    lat2, lon2 = place(tr, lat, lon, br, d)
    p, q = deg(lat, lon), deg(lat2, lon2)
    want = [go(lat, lon, br, frac(ctx, i, n) * d) for i in range(n + 1)]
    tr.unit(*want)
    for w in want:
        ctx.assume(ctx.Not(ctx.same(w[2] * w[2], 1)))
    if ecef:
        h1, h2 = ctx.real("h1", 0, 50000), ctx.real("h2", 0, 50000)
        pts = Spherical.ecef_linspace(p, q, h1, h2, n)
        got = [tuple(x / (R + h1 + (h2 - h1) * i / n) for x in v) for i, v in enumerate(pts)]
    else:
        got = [vdeg(x) for x in Spherical.geo_linspace(p, q, n)]
    ctx.check(len(got) == n + 1, "one point more than segments")
    for v, w in zip(got, want):
        close(ctx, tr, v, w, "evenly spaced along the great circle")


def circle(ctx, n):
    tr = trig.make(ctx)
    lat, lon, d = tr.angle("lat", *LAT1), tr.angle("lon", *ANY), tr.angle("d", *PART)
    for i in range(n):
        tr.unit(go(lat, lon, math.radians(i * 360 / n), d))
    got = Spherical.geo_circle(deg(lat, lon), unit_convert(d * R, "m", "km"), "km", n)
    ctx.check(len(got) == n + 1, "a closed circle")
    for i, p in enumerate(got):
        close(ctx, tr, vdeg(p), go(lat, lon, math.radians((i % n) * 360 / n), d), "on the circle")


def convert(ctx, radians=False):
    tr = trig.make(ctx)
    lat, lon = tr.angle("lat", *LAT2), tr.angle("lon", *LON)
    h = ctx.real("h", -10000, 1000000)
    v = vec(lat, lon)
    tr.unit(v)
    tr.nonneg(math.cos(lat), R + h)
    row = (lat, lon, h) if radians else (*deg(lat, lon), h)
    other, x = Spherical.lla2ecef([(0.0, 0.0, 1000.0), row], input_in_radians=radians)
    close(ctx, tr, other, (R + 1000.0, 0.0, 0.0), "each place of a list")
    for a, b in zip(x, v):
        ctx.check(tr.zero((a - (R + h) * b) / R), "ECEF of a place")
    (lat2, lon2, h2), back = Spherical.ecef2lla([x, other], radians_out=radians)
    close(ctx, tr, back, (0.0, 0.0, 1000.0), "each place of a list, back")
    close(ctx, tr, vec(lat2, lon2) if radians else vdeg((lat2, lon2)), v, "ECEF and back gives the place")
    ctx.check(tr.zero((h2 - h) / 1000), "ECEF and back gives the height")


def crosstrack(ctx, point, behind=False):
    tr, lat, lon, br, d = setup(ctx, 2)
    br2, d2 = tr.angle("bearing2", *ANY), tr.angle("d2", 2, 0, 0.999)
    lat2, lon2 = place(tr, lat, lon, br, d)
    lat3, lon3 = place(tr, lat, lon, br2, d2)
    A, B, P = deg(lat, lon), deg(lat2, lon2), deg(lat3, lon3)
    pn = math.sin(d2) * math.sin(br2 - br)  # sine of the angle to the great circle
    tr.quantity(math.sin(d2), math.cos(br2 - br))
    if not point:
        x = Spherical.cross_track_distance(A, B, P, units="m") / R
        ctx.check(tr.zero(math.sin(x) * math.sin(x) - pn * pn), "distance to the great circle")
        ctx.check(ctx.And(tr.posi(x), tr.posi(1.571 - x)), "the short way")
        return
    ctx.assume(pn * pn < 1)
    pc = math.cos(br2 - br)
    ctx.assume(pc < 0 if behind else pc > 0)
    tr.nonneg(-pc if behind else pc, math.sin(d2), math.sin(d2) * (-pc if behind else pc))
    cx = math.cos(math.asin(pn))  # length of the projection on the plane of the great circle
    tr.nonneg(cx)
    f = go(lat, lon, br, math.pi / 2)
    proj = [math.cos(d2) * x + math.sin(d2) * pc * y for x, y in zip(vec(lat, lon), f)]
    tr.unit([x / cx for x in proj])
    ctx.assume(ctx.Not(ctx.same(proj[2] * proj[2], cx * cx)))
    w = vdeg(Spherical.cross_track_point(A, B, P))
    close(ctx, tr, [cx * x for x in w], proj, "the nearest point of the great circle")


def geo(lat, lon):
    return UP.GeodeticLocation(lat, lon, 0.0, in_radians=True)


def gc_unwrap():
    """The calculations without their caches, which would hash symbolic locations."""
    for name in dir(gc):
        fn = getattr(gc, name)
        if hasattr(fn, "__wrapped__"):
            setattr(gc, name, fn.__wrapped__)


def great_circle(ctx, n, side):
    """Distance and positions along the route, as the analytic motion model uses them."""
    gc_unwrap()
    tr = trig.make(ctx)
    lat, lon = tr.angle("lat", *LAT), tr.angle("lon", *LON1)
    br = tr.angle("bearing", 2, 0.001, 0.999) * side
    d = tr.angle("d", n, 0.001, math.tan(math.pi / 2 / n) * 0.999)
    e = tr.angle("e", *ANY)
    tr.nonneg(math.sin(0.5 * d), math.cos(0.5 * d), math.sin(d), side * math.sin(br), math.cos(lat))
    tr.known(0.5 * d)
    lat2, lon2 = place(tr, lat, lon, br, d)
    with UP.EnvironmentContext():
        a, b = geo(lat, lon), geo(lat2, lon2)
        th = gc.get_dist_rad(a, b)
        ctx.check(tr.zero(math.cos(th) - math.cos(d)), "distance in radians")
        want = go(lat, lon, br, e)
        tr.unit(want)
        ctx.assume(ctx.Not(ctx.same(want[2] * want[2], 1)))
        p = gc.get_pos_from_points_and_distance(a, b, e)
        close(ctx, tr, vec(*p), want, "the place at that distance along the route")


def circle_points(ctx, ahead):
    """Where a route is at a distance from a place, given its courses and distances."""
    gc_unwrap()
    tr = trig.make(ctx)
    with UP.EnvironmentContext():
        A, B, D = (UP.GeodeticLocation(*p, in_radians=True) for p in ((0.0, 0.0), (0.25, 0.5), (0.5, 0.125)))
    key = {(x.lat, x.lon): n for x, n in ((A, "A"), (B, "B"), (D, "D"))}
    cd, cb = tr.angle("course to place", *LON), tr.angle("course of route", *LON)
    b, dab = tr.angle("distance to place", 2, 0.001, 0.999), tr.angle("length", 2, 0.001, 0.999)
    e = tr.angle("radius", 2, 0.001, 0.414)
    turn = math.cos(cd - cb)
    ctx.assume(turn > 0 if ahead else turn < 0)
    tr.nonneg(math.sin(b), math.cos(e), math.sin(e), turn if ahead else -turn)
    course, dist, asked = {"AD": cd, "AB": cb}, {"AD": b, "AB": dab}, []

    def pos(p, q, x):
        assert pair(p, q) == "AB"
        asked.append(x)
        return ("place", len(asked) - 1)

    def pair(p, q):
        p, q = p.to_radians(), q.to_radians()
        return key[p.lat, p.lon] + key[q.lat, q.lon]

    gc.get_course_rad = lambda p, q: course[pair(p, q)]
    gc.get_dist_rad = lambda p, q: dist["".join(sorted(pair(p, q)))]
    gc.get_pos_from_points_and_distance = pos
    r = math.cos(math.asin(math.sin(b) * math.sin(cd - cb)))
    tr.nonneg(r)
    none = math.cos(e) * math.cos(e) > r * r
    if not none:
        dp = math.acos(math.cos(e) / r)
        ctx.assume(dp > 0)
        at = math.atan2(math.sin(b) * turn, math.cos(b))
        none = ctx.any_of([dab < at - dp, at + dp < 0])
    got = gc.get_great_circle_points(A, B, D, e)
    if got is None:
        ctx.check(none, "the route comes that near")
        return
    ctx.check(ctx.Not(none), "the route does not come that near")
    pts, dists = got
    if not asked:
        return  # not by those functions: nothing to compare with
    for p, x in zip(pts, dists):
        ctx.check(isinstance(p, tuple) and p[0] == "place" and ctx.same(asked[p[1]], x),
                  "the point is the one at its distance along the route")
        ctx.check(tr.zero(math.cos(x) * math.cos(b) + math.sin(x) * math.sin(b) * turn - math.cos(e)),
                  "the point is at the radius from the place")
    ctx.check(tr.posi(dists[1] - dists[0]), "in order")


def jobs(tier):
    return [J("distance-m", "distance", units="m"), J("distance-nmi", "distance", units="nmi"),
            J("bearing", "bearing"), J("forward", "forward"),
            J("along-half", "along", n=2, k=1), J("along-third", "along", n=3, k=1),
            J("linspace-2", "linspace", n=2, ecef=False), J("linspace-3", "linspace", n=3, ecef=False),
            J("ecef-linspace-2", "linspace", n=2, ecef=True),
            J("route-east", "great_circle", n=2, side=1), J("route-west", "great_circle", n=2, side=-1),
            J("near-ahead", "circle_points", ahead=True), J("near-behind", "circle_points", ahead=False),
            J("circle-4", "circle", n=4), J("convert", "convert"), J("convert-radians", "convert", radians=True),
            J("crosstrack-distance", "crosstrack", point=False),
            J("crosstrack-ahead", "crosstrack", point=True),
            J("crosstrack-behind", "crosstrack", point=True, behind=True),
            J("along-quarter", "along", n=4, k=1), J("along-2-thirds", "along", n=3, k=2),
            J("linspace-4", "linspace", n=4, ecef=False), J("ecef-linspace-3", "linspace", n=3, ecef=True)]
