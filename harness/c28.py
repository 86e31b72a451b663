"""C28: path / sphere intersections are found, classified and placed to the asked resolution."""

from upstage_des.geography import get_intersection_locations
from upstage_des.geography.geo_types import CrossingCondition
from upstage_des.geography.intersections import IntersectionError
from upstage_des.geography.spherical import Spherical
from upstage_des.motion import geodetic_model as gm
from upstage_des.motion import great_circle_calcs as gc
from upstage_des.units import unit_convert

from .common import UP, J

BOUNDS = ("one straight leg of 0.6-4.6 (quick) or up to 7.4 (thorough) search steps, climbing or "
          "level, four path directions; symbolic sphere centre (along the path and across or above "
          "it; thorough: both) and symbolic radius, one or two (thorough: up to three, and the "
          "default) subdivision levels of 2-9 parts; the two geodetic motion models given any answer of the search "
          "or of the spherical formulas")
ASSUMPTIONS = ["decided against an exact flat earth: the spherical and WGS84 formulas that place the "
               "sample points are not part of this check",
               "no sample point lies on the sphere (to one part in 100000 of the squared distance)",
               "search steps stay above the 100 m limit under which the code refuses to search"]
REACH = ["in-in", "in-out", "out-in", "through", "missed", "short leg", "model searched", "model missed",
         "model solved"]

DIRS = {"x": (1, 0), "-y": (0, -1), "34": (3, 4), "-43": (-4, 3)}


class Plane:
    """A flat earth: latitude and longitude are metres, ECEF is (lat, lon, alt)."""

    def __init__(self, ctx, centre, r):
        self.ctx, self.centre, self.r = ctx, centre, r
        self.units = set()

    def distance(self, a, b, units="nmi"):
        self.units.add(units)
        dx, dy = b[0] - a[0], b[1] - a[1]
        # every path of this harness keeps one of four directions
        n = self.along
        return unit_convert((dx * n[0] + dy * n[1]) / n[2], "m", units)

    def lla2ecef(self, locs):
        return [tuple(p) for p in locs]

    def geo_linspace(self, start, end, num_segments=10):
        if num_segments < 2:
            raise ValueError("Not enough points for interpolation")
        n = num_segments
        return [tuple(a + (b - a) * i / n for a, b in zip(start[:2], end[:2])) for i in range(n + 1)]

    def ecef_and_geo_linspace(self, start, finish, start_alt, finish_alt, segments):
        flat = self.geo_linspace(start, finish, segments)
        pts = [(*p, start_alt + (finish_alt - start_alt) * i / segments) for i, p in enumerate(flat)]
        ctx = self.ctx
        for p in pts:
            d2 = ctx.sum((a - b) * (a - b) for a, b in zip(p, self.centre))
            r2 = self.r * self.r
            ctx.assume(ctx.Or(d2 * 100000 <= r2 * 99999, d2 * 99999 >= r2 * 100000))
        return self.lla2ecef(pts), pts


def cross(ctx, legs, direction, levels, climb, unit="m", shape="any"):
    """One leg against one sphere; every fact about the answer is checked.

    Lengths along and across the path are counted in units of the direction vector.
    """
    dx, dy = DIRS[direction]
    k = 1 if dx * dy == 0 else 5
    step = 100800
    unit_step = step // k
    length = unit_step * legs
    start = (0, 0, 5040)
    finish = (length * dx, length * dy, 5040 + climb)
    u = ctx.real("along", -1.5 * length, 2.5 * length)
    v = 0 if shape in ("line", "tall") else ctx.real("across", -2 * length, 2 * length)
    w = ctx.real("height", -length, length) if shape in ("any", "tall") else 5040
    centre = (u * dx - v * dy, u * dy + v * dx, w)
    r = ctx.real("radius", 0, 3 * k * length, lo_open=True)
    earth = Plane(ctx, centre, r)
    earth.along = (dx, dy, k)
    got = get_intersection_locations(start, finish, centre, unit_convert(r, "m", unit), unit, earth,
                                     dist_between=step, subdivide_levels=list(levels))

    def at(s):
        return (s * dx, s * dy, 5040 + climb * s / length)

    def inside(s):
        h = at(s)[2] - w
        return k * k * ((s - u) * (s - u) + v * v) + h * h <= r * r

    where = [(c.begin[0] * dx + c.begin[1] * dy) / (k * k) for c in got]
    fine = unit_step
    for n in levels:
        fine = fine / n
    kinds = [c.kind for c in got]
    ctx.observe("kinds", kinds)
    ctx.observe("where", where)
    s_in = "START_INSIDE" in kinds
    e_in = "END_INSIDE" in kinds
    ctx.eq(s_in, bool(inside(0)), "START_INSIDE says whether the path starts inside")
    ctx.eq(e_in, bool(inside(length)), "END_INSIDE says whether the path ends inside")
    mid = [x for x in kinds if x not in ("START_INSIDE", "END_INSIDE")]
    ctx.check(kinds == ["START_INSIDE"] * s_in + mid + ["END_INSIDE"] * e_in,
              "the answer is in path order, each end at most once")
    for c, s in zip(got, where):
        for a, b in zip(c.begin, at(s)):
            ctx.near(a, b, 1e-6, "every reported place is on the path")
    ctx.check(ctx.all_of(a <= b for a, b in zip(where, where[1:])), "places are in path order")
    if s_in:
        ctx.eq(where[0], 0, "START_INSIDE reports the start")
    if e_in:
        ctx.near(where[-1], length, 1e-6, "END_INSIDE reports the end")
    if s_in and e_in:
        ctx.reach("in-in")
        ctx.check(mid == [], "a path between two inside points never leaves the sphere")
    elif s_in:
        ctx.reach("in-out")
        ctx.check(mid == ["EXIT"], "inside to outside is one EXIT")
    elif e_in:
        ctx.reach("out-in")
        ctx.check(mid == ["ENTER"], "outside to inside is one ENTER")
    elif mid:
        ctx.reach("through")
        ctx.check(mid == ["ENTER", "EXIT"], "a path through the sphere enters and then leaves")
    else:
        ctx.reach("missed")
        p = ctx.real("p", 0, length)
        ctx.check(ctx.Not(ctx.And(p + unit_step <= length, inside(p), inside(p + unit_step))),
                  "a passage longer than the search step is found")
    for c, s in zip(got, where):
        if c.kind == "ENTER":
            ctx.check(inside(s), "ENTER reports a point inside")
            b = ctx.max(s - fine, 0)
            ctx.check(ctx.Not(inside(b)), "ENTER is within the finest step of the crossing")
        if c.kind == "EXIT":
            ctx.check(inside(s), "EXIT reports a point inside")
            b = ctx.min(s + fine, length)
            ctx.check(ctx.Not(inside(b)), "EXIT is within the finest step of the crossing")
    if legs < 2:
        ctx.reach("short leg")


def tiny(ctx):
    """A leg too short to search is refused rather than answered wrongly."""
    n = ctx.real("length", 1, 60)
    earth = Plane(ctx, (0, 0, 0), 5)
    earth.along = (1, 0, 1)
    ctx.check_raises(IntersectionError, "a leg too short to search is refused",
                     get_intersection_locations, (0, 0, 0), (n, 0, 0), (0, 0, 0), 5, "m", earth,
                     dist_between=10000)


class Line:
    """An earth that is a meridian of places apart as their latitudes."""

    def __init__(self, k):
        self.k = k

    def distance(self, a, b, units="nmi"):
        d = (a[0] - b[0]) * self.k
        return unit_convert(d if d >= 0 else -d, "m", units)


def searched(ctx, kinds, dist, alt, radians):
    """The geodetic model over a search asks it rightly and passes on its answer."""
    asked = []
    earth = Line(1000)
    a0, h0, a1, h1, hs = (ctx.real(n, -40, 40) for n in ("lat", "alt", "lat2", "alt2", "alts"))
    v, r = ctx.real("speed", 1, 1000), ctx.real("radius", 0, 1000)
    where = [ctx.real(f"where{i}", -40, 40) for i in range(len(kinds))]
    high = [ctx.real(f"high{i}", -9000, 9000) for i in range(len(kinds))]
    answer = [CrossingCondition(k, begin=(w, 2.0, h)) for k, w, h in zip(kinds, where, high)]

    def search(start, finish, sphere_center, radius, radius_units, earth, dist_between=None,
               subdivide_levels=None):
        asked.append((start, finish, sphere_center, unit_convert(radius, radius_units, "m"), earth))
        return answer

    with UP.EnvironmentContext():
        for n, x in (("distance_units", dist), ("altitude_units", alt), ("stage_model", earth),
                     ("intersection_model", search)):
            UP.add_stage_variable(n, x)
        s, f = UP.GeodeticLocation(a0, 1.0, h0), UP.GeodeticLocation(a1, 3.0, h1)
        c = UP.GeodeticLocation(5.0, 4.0, hs)
        if radians:
            c = UP.GeodeticLocation(5.0, 4.0, hs).to_radians()
        places, times, types, total = gm.subdivide_intersection(s, f, v, c, r)
    ctx.check(len(asked) == 1, "one search")
    for got, want in zip(asked[0][:3], ((a0, 1.0, h0), (a1, 3.0, h1), (5.0, 4.0, hs))):
        for i in range(3):
            w = want[i] if i < 2 else unit_convert(want[i], alt, "m")
            ctx.near(got[i], w, 1e-6, "the search is asked about these places, heights in metres")
    ctx.near(asked[0][3], unit_convert(r, dist, "m"), 1e-6, "the radius asked for")
    ctx.check(asked[0][4] is earth, "on the earth of the stage")
    ctx.near(total * v, earth.distance((a1, 3.0), (a0, 1.0), dist), 1e-6, "the time of the whole path")
    if not kinds:
        ctx.reach("model missed")
        ctx.check(places == [] and times == [], "no crossing, no places")
        return
    ctx.reach("model searched")
    ctx.check(list(types) == list(kinds), "the kinds found")
    ctx.check(len(places) == len(times) == len(kinds), "a place and a time each")
    for i, p in enumerate(places):
        p = p.to_degrees()
        ctx.near(p.lat, where[i], 1e-6, "the place found")
        ctx.near(unit_convert(p.alt, alt, "m"), high[i], 1e-6, "the height found, in the model's units")
        ctx.near(times[i] * v, earth.distance((where[i], 2.0), (a0, 1.0), dist), 1e-6,
                 "the time to reach the place")


def analytic(ctx, dist, alt):
    """The analytic geodetic model, given the spherical trigonometry that C29 decides."""
    R = unit_convert(Spherical.EARTH_RADIUS, "m", dist)
    h0, h1 = ctx.real("alt", 0, 60000), ctx.real("alt2", 0, 60000)
    v, r = ctx.real("speed", 1, 1000), ctx.real("radius", 0, 900, lo_open=True)
    L = ctx.real("length", 0, 3, lo_open=True)
    d1, d2 = ctx.real("enter", -3, 3), ctx.real("leave", -3, 3)
    ds, df = ctx.real("start to centre", 0, 3), ctx.real("finish to centre", 0, 3)
    lat1, lat2 = ctx.real("lat1", -1, 1), ctx.real("lat2", -1, 1)
    ctx.assume(d1 < d2)
    h = unit_convert((h0 + h1) / 2, alt, dist)
    above = h > r
    ctx.assume(h != r)
    with UP.EnvironmentContext():
        for n, x in (("distance_units", dist), ("altitude_units", alt)):
            UP.add_stage_variable(n, x)
        s, f = UP.GeodeticLocation(10.0, 1.0, h0), UP.GeodeticLocation(20.0, 1.0, h1)
        c = UP.GeodeticLocation(30.0, 4.0, 0.0)
        key = {round(p.to_radians().lat, 6): n for p, n in ((s, "s"), (f, "f"), (c, "c"))}
        asked = []

        def name(p):
            return key[round(p.to_radians().lat, 6)]

        def far(p, q):
            return {"cs": ds, "cf": df, "fs": L}["".join(sorted((name(p), name(q))))]

        def near(a, b, d, radius):
            ctx.check(name(a) + name(b) + name(d) == "sfc", "asked about the path and the sensor")
            e = radius * R
            ctx.check(ctx.And(e >= 0, (lambda x: ctx.And(x <= 1e-6, x >= -1e-6))(e * e + h * h - r * r)), "with the radius at the path's height")
            asked.append(radius)
            for x, y in ((ds, d1), (df, d2)):
                ctx.assume(ctx.Not(ctx.same(x, radius)))
            inside = (ds < radius, df < radius)
            ctx.assume(ctx.same(inside[0], ctx.And(d1 < 0, d2 > 0)))
            ctx.assume(ctx.same(inside[1], ctx.And(d1 < L, d2 > L)))
            ctx.assume(ctx.And(*(ctx.Not(ctx.same(x, y)) for x in (d1, d2) for y in (0, L))))
            return None if L < d1 or d2 < 0 else ([(lat1, 0.25), (lat2, 0.5)], [d1, d2])

        for m in (gm, gc):
            m.get_dist_rad, m.get_great_circle_points = far, near
        places, times, types, total = gm.analytical_intersection(s, f, v, c, r)
    if not asked and places:
        return  # not by those functions: nothing to compare with
    ctx.near(total * v, L * R, 1e-6, "the time of the whole path")
    if above or not asked or L < d1 or d2 < 0:
        ctx.reach("model missed")
        ctx.check(ctx.Or(above, L < d1, d2 < 0), "a path that passes through has crossings")
        ctx.check(places == [] and times == [], "no crossing, no places")
        return
    ctx.reach("model solved")
    ins, ine = d1 < 0, d2 > L
    ctx.eq(types[0], "START_INSIDE" if ins else "ENTER", "kind of the first")
    ctx.eq(types[1], "END_INSIDE" if ine else "EXIT", "kind of the last")
    ctx.check(len(places) == len(times) == len(types) == 2, "two crossings")
    if ins:
        ctx.check(places[0] == s, "it starts at the start")
        ctx.eq(times[0], 0, "at once")
    if ine:
        ctx.check(places[1] == f, "it ends at the finish")
        ctx.near(times[1] * v, L * R, 1e-6, "at the end")
    for skip, p, t, d, lat in ((ins, places[0], times[0], d1, lat1), (ine, places[1], times[1], d2, lat2)):
        if skip:
            continue
        ctx.near(p.to_radians().lat, lat, 1e-6, "the place of the crossing")
        ctx.near(p.alt * L, h0 * L + d * (h1 - h0), 1e-3, "its height is on the slope of the path")
        lo, hi = ctx.min(h0, p.alt), ctx.max(h0, p.alt)
        ctx.check(ctx.And(t * v >= d * (R + unit_convert(lo, alt, dist)) - 0.001,
                          t * v <= d * (R + unit_convert(hi, alt, dist)) + 0.001),
                  "the time to get there at the path's height")


def jobs(tier):
    js = [J("level-x-2.5", "cross", legs=2.5, direction="x", levels=[2], climb=0, shape="flat"),
          J("tall-34", "cross", legs=1.25, direction="34", levels=[2], climb=0, shape="tall"),
          J("short-y", "cross", legs=1.5, direction="-y", levels=[4], climb=0, shape="flat"),
          J("climb-43-2", "cross", legs=2.25, direction="-43", levels=[2], climb=50400, unit="km",
            shape="flat"),
          J("two-levels", "cross", legs=2, direction="x", levels=[3, 5], climb=0, unit="nmi",
            shape="line"),
          J("line-4.5", "cross", legs=4.5, direction="34", levels=[2], climb=0, unit="ft",
            shape="line"),
          J("tiny", "tiny"),
          J("searched", "searched", kinds=["ENTER", "EXIT"], dist="nmi", alt="ft", radians=False),
          J("searched-in", "searched", kinds=["START_INSIDE", "END_INSIDE"], dist="km", alt="m", radians=True),
          J("searched-none", "searched", kinds=[], dist="m", alt="km", radians=False),
          J("analytic", "analytic", dist="nmi", alt="ft"), J("analytic-km", "analytic", dist="km", alt="m")]
    if tier == "thorough":
        js += [J("level-x-any", "cross", legs=2.5, direction="x", levels=[2], climb=0),
               J("level-34", "cross", legs=1.25, direction="34", levels=[2], climb=0),
               J("level-34-3", "cross", legs=3, direction="34", levels=[3], climb=0),
               J("level-y-4.5", "cross", legs=4.5, direction="-y", levels=[3, 2], climb=0),
               J("long-34", "cross", legs=7.5, direction="34", levels=[2], climb=0, shape="flat"),
               J("climb-x-5", "cross", legs=5, direction="x", levels=[4], climb=-201600, unit="ft"),
               J("three-levels", "cross", legs=1.25, direction="-43", levels=[2, 3, 2], climb=0,
                 shape="flat"),
               J("default-levels", "cross", legs=1.25, direction="x", levels=[10, 20], climb=0,
                 shape="line")]
    return js
