"""C25: locations measure distances in the stage's units and never change."""

from upstage_des.utils import waypoint_time_and_dist

from .common import UP, J

BOUNDS = ("any two Cartesian locations with heights in either unit, four pairs of units, up to 3 waypoints at any "
          "speed; geodetic locations with any coordinates over a model that returns any distances")
ASSUMPTIONS = ["the geodetic model (trigonometric) is replaced by one that returns arbitrary distances"]
REACH = ["distance", "altitude", "close", "apart", "frozen", "data", "waypoints", "geodetic", "refused", "hash"]

C = UP.CartesianLocation
G = UP.GeodeticLocation
METERS = {"m": 1.0, "km": 1000.0, "ft": 0.3048, "nmi": 1852.0, "mi": 1609.344}


def stage(dist, alt):
    UP.add_stage_variable("distance_units", dist)
    UP.add_stage_variable("altitude_units", alt)


def height(ctx, z, use, dist, alt):
    return z * METERS[alt] / METERS[dist] if use else z


def cartesian(ctx, dist, alt):
    with UP.EnvironmentContext():
        stage(dist, alt)
        p = [ctx.real(n, -3, 3) for n in ("x0", "y0", "z0", "x1", "y1", "z1")]
        u0, u1 = bool(ctx.bool("u0")), bool(ctx.bool("u1"))
        a, b = C(*p[:3], use_altitude_units=u0), C(*p[3:], use_altitude_units=u1)
        dz = height(ctx, p[2], u0, dist, alt) - height(ctx, p[5], u1, dist, alt)
        d2 = (p[0] - p[3]) ** 2 + (p[1] - p[4]) ** 2 + dz ** 2
        d = a - b
        ctx.check(ctx.leq(0, d), "a distance is not negative")
        ctx.near(d * d, d2, 1e-4 * (1 + d2), "distance")
        ctx.eq(a.straight_line_distance(b), d, "straight line distance")
        ctx.near((b - a) * (b - a), d2, 1e-4 * (1 + d2), "distance back")
        ctx.reach("distance")
        if u0 != u1:
            ctx.reach("altitude")
        same = a == b
        if d <= 0.00001:
            ctx.check(same, "places that are the same are equal")
            ctx.reach("close")
        else:
            ctx.check(ctx.Not(same), "places that are apart are not equal")
            ctx.reach("apart")


def frozen(ctx):
    """Locations cannot be changed, and copies and data objects make the same location."""
    with UP.EnvironmentContext():
        stage("km", "m")
        v = [ctx.real(n, -3, 3) for n in "xyz"]
        use = bool(ctx.bool("use"))
        a = C(*v, use_altitude_units=use)
        names = ["x", "y", "z"]
        for i, n in enumerate(names):
            ctx.check_raises(Exception, "frozen", setattr, a, n, 7.0)
            ctx.eq(a[i], v[i], "coordinate by index")
        ctx.check_raises(Exception, "frozen", setattr, a, "use_altitude_units", not use)
        ctx.check(a.use_altitude_units == use, "units of the height")
        for bad in (-1, 3):
            ctx.check_raises((ValueError, IndexError), "index", a.__getitem__, bad)
        ctx.reach("frozen")
        c = a.copy()
        ctx.check(c is not a, "a copy is another object")
        ctx.eq([c.x, c.y, c.z, c.use_altitude_units], [*v, use], "copy")
        d = UP.CartesianLocationData(*v, use_altitude_units=use)
        m = d.make_location()
        ctx.eq([m.x, m.y, m.z, m.use_altitude_units], [*v, use], "location from data")
        ctx.check(d == UP.CartesianLocationData(*v, use_altitude_units=use), "equal data")
        w = ctx.real("w", -3, 3)
        ctx.assume(ctx.Not(ctx.same(w, v[1])))
        ctx.check(not d == UP.CartesianLocationData(v[0], w, v[2]), "other data")
        ctx.reach("data")
        r = bool(ctx.bool("rad"))
        g = G(*v, in_radians=r)
        for i, n in enumerate(["lat", "lon", "alt"]):
            ctx.check_raises(Exception, "frozen", setattr, g, n, 7.0)
            ctx.eq(g[i], v[i], "coordinate by index")
        c = g.copy()
        ctx.eq([c.lat, c.lon, c.alt, c.in_radians], [*v, r], "copy")
        ctx.check(c == g, "a copy is equal")
        m = UP.GeodeticLocationData(*v, in_radians=r).make_location()
        ctx.eq([m.lat, m.lon, m.alt, m.in_radians], [*v, r], "location from data")
        ctx.check(UP.GeodeticLocationData(*v, in_radians=r) == UP.GeodeticLocationData(*v, in_radians=r),
                  "equal geodetic data")
        for i in range(3):
            o = [x + (w - v[1] if i == k else 0) for k, x in enumerate(v)]
            ctx.check(not UP.GeodeticLocationData(*o, in_radians=r) == UP.GeodeticLocationData(*v, in_radians=r),
                      "other geodetic data")
            ctx.check(not G(*o, in_radians=r) == g, "another place")
        for bad in (-1, 3):
            ctx.check_raises((ValueError, IndexError), "index", g.__getitem__, bad)
        for f in (lambda: a - g, lambda: g - a, lambda: a == g, lambda: g == a, lambda: a == 3.0):
            ctx.check_raises((ValueError, TypeError), "different kinds", f)
        ctx.reach("refused")
        x = ctx.choice("hashed", [(1.0, 2.0, 3.0), (0.0, -1.0, 0.5)])
        ctx.check(len({C(*x): 1, C(*x): 2}) == 1 and len({G(*x): 1, G(*x): 2}) == 1, "equal locations hash alike")
        ctx.reach("hash")


class Model:
    """Any distances, by the pair of positions asked for."""

    def __init__(self, ctx):
        self.ctx, self.asked, self.n = ctx, [], 0

    def distance(self, a, b, units):
        d = self.ctx.real(f"d{self.n}", 0, 100)
        self.n += 1
        self.asked.append((a, b, units, d))
        return d

    def lla2ecef(self, points):
        out = [[self.ctx.real(f"e{self.n}{i}{k}", -3, 3) for k in "xyz"] for i in range(len(points))]
        self.n += 1
        self.asked.append((points, out))
        return out


def geodetic(ctx, dist, alt):
    with UP.EnvironmentContext():
        stage(dist, alt)
        model = Model(ctx)
        UP.add_stage_variable("stage_model", model)
        v = [ctx.real(n, -3, 3) for n in ("lat0", "lon0", "alt0", "lat1", "lon1", "alt1")]
        r = bool(ctx.bool("rad"))
        a, b = G(*v[:3]), G(*v[3:], in_radians=r)
        deg = 180 / 3.141592653589793 if r else 1
        d = a - b
        ((p, q, units, want),) = model.asked
        ctx.check(units == dist, "units asked for")
        ctx.eq(d, want, "distance")
        ctx.near(p[0], v[0], 1e-9, "latitude in degrees")
        ctx.near(p[1], v[1], 1e-9, "longitude in degrees")
        ctx.near(q[0], v[3] * deg, 1e-6, "latitude in degrees")
        ctx.near(q[1], v[4] * deg, 1e-6, "longitude in degrees")
        full = a.dist_with_altitude(b)
        want = model.asked[1][3]
        dz = (v[2] - v[5]) * METERS[alt] / METERS[dist]
        full2 = want ** 2 + dz ** 2
        ctx.near(full * full, full2, 1e-4 * (1 + full2), "distance with altitude")
        ctx.check(ctx.leq(0, full), "not negative")
        line = a.straight_line_distance(b)
        (pa, oa), (pb, ob) = model.asked[2:]
        ctx.near(pa[0][2], v[2] * METERS[alt], 1e-4 * (1 + abs(v[2]) * METERS[alt]), "altitude in meters")
        ctx.near(pb[0][2], v[5] * METERS[alt], 1e-4 * (1 + abs(v[5]) * METERS[alt]), "altitude in meters")
        line2 = ctx.sum((x - y) ** 2 for x, y in zip(oa[0], ob[0])) / METERS[dist] ** 2
        ctx.near(line * line, line2, 1e-4 * (1 + line2), "straight line")
        lat, lon = b.latlon()
        ctx.near(lat, v[3] * deg, 1e-6, "latitude in degrees")
        ctx.near(lon, v[4] * deg, 1e-6, "longitude in degrees")
        lat, lon = UP.GeodeticLocationData(*v[3:], in_radians=r).latlon()
        ctx.near(lat, v[3] * deg, 1e-6, "latitude of data in degrees")
        ctx.near(lon, v[4] * deg, 1e-6, "longitude of data in degrees")
        for back in (b.to_radians().to_degrees(), b.to_degrees(), b.to_degrees().to_radians().to_degrees()):
            ctx.check(not back.in_radians, "in degrees")
            ctx.near(back.lat, v[3] * deg, 1e-6, "there and back")
            ctx.near(back.lon, v[4] * deg, 1e-6, "there and back")
            ctx.eq(back.alt, v[5], "altitude is kept")
        ctx.check(b.to_radians().in_radians, "in radians")
        ctx.reach("geodetic")


def waypoints(ctx, n):
    with UP.EnvironmentContext():
        xs = [ctx.real(f"x{i}", -5, 5) for i in range(n + 1)]
        speed = ctx.real("speed", 0.1, 10)
        flip = bool(ctx.bool("flip"))
        locs = [C(3.0, x) if flip else C(x, 4.0, 1.0) for x in xs]
        t, d = waypoint_time_and_dist(locs[0], locs[1:], speed)
        want = ctx.sum(ctx.max(a - b, b - a) for a, b in zip(xs, xs[1:]))
        ctx.near(d, want, 1e-9, "distance over the waypoints")
        ctx.near(t * speed, want, 1e-6, "time over the waypoints")
        ctx.reach("waypoints")


def jobs(tier):
    pairs = [("km", "ft"), ("m", "m"), ("nmi", "ft"), ("mi", "m")]
    out = [J(f"xyz-{d}-{a}", "cartesian", dist=d, alt=a) for d, a in pairs]
    out += [J(f"lla-{d}-{a}", "geodetic", dist=d, alt=a) for d, a in pairs]
    out += [J("frozen", "frozen")] + [J(f"way{n}", "waypoints", n=n) for n in range(4)]
    if tier == "thorough":
        out += [J("way5", "waypoints", n=5)]
    return out
