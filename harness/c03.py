"""C03: a moving actor is exactly where its speed and waypoints put it."""

from .common import UP, J

BOUNDS = ("1-2 (thorough: 3) legs of symbolic length >= 0 in fixed 3D directions (geodetic: a planar "
          "stand-in for the stage's distance model), symbolic start point (geodetic restarts: its altitude only), speed 0.5-20, up to 2 "
          "reads at symbolic times, one interrupt at a symbolic time with a restart on the "
          "remaining waypoints; arrivals up to 1e6 time units on the clock, up to its rounding late")
ASSUMPTIONS = ["geodetic motion is decided against an exact planar distance model; the spherical "
               "and WGS84 formulas themselves are outside this check",
               "positions are compared up to the code's own waypoint tolerances"]
REACH = ["mid-leg", "after", "restarted", "exceeded", "waypoints", "rounded"]

# with an altitude change in every leg, and a length that is a whole number per unit
DIRS = {"cart": [((1, -2, 2), 3), ((-3, 4, 12), 13), ((-2, 3, 6), 7), ((0, -1, 0), 1)],
        "geo": [((1, -3, 2), 4), ((1, 0, -1), 1), ((-2, 2, 1), 4), ((0, -1, 0), 1)]}


class Plane:
    """A flat world with the L1 metric; a bearing is a direction vector."""

    @staticmethod
    def distance(a, b, units="km"):
        return Plane.distance_and_bearing(a, b, units)[0]

    @staticmethod
    def distance_and_bearing(a, b, units="km"):
        dx, dy = b[0] - a[0], b[1] - a[1]
        dist = abs(dx) + abs(dy)
        return dist, (dx, dy, dist)

    @staticmethod
    def point_from_bearing_dist(point, bearing, distance, distance_units="km"):
        dx, dy, dist = bearing
        if dist == 0:
            return tuple(point)
        return point[0] + dx * distance / dist, point[1] + dy * distance / dist


class Cart(UP.Actor):
    loc = UP.CartesianLocationChangingState(recording=True)


class Geo(UP.Actor):
    loc = UP.GeodeticLocationChangingState(recording=True)


class Go(UP.Task):
    def task(self, *, actor):
        g = actor.stage.goal
        yield UP.Wait(g["delay"])
        actor.activate_location_state(state="loc", speed=g["speed"], waypoints=g["left"], task=self)
        self.set_marker("moving", UP.InterruptStates.RESTART)
        yield UP.Wait(g["stay"])
        actor.deactivate_state(state="loc", task=self)

    def on_interrupt(self, *, actor, cause):
        g = actor.stage.goal
        left = actor.get_remaining_waypoints("loc")
        g["seen"] = (actor.env.now, list(left), actor.loc)
        g["left"] = list(left)
        g["delay"] = g["pause"]
        g["stay"] = g["until"] - actor.env.now
        return UP.InterruptStates.RESTART


def xyz(loc):
    return [loc[0], loc[1], loc[2]]


def setup(ctx, kind, legs, p0=None):
    """The world, the actor and the exact path."""
    p0 = p0 or [ctx.real("px", -10, 10), ctx.real("py", -10, 10), ctx.real("pz", -10, 10)]
    if kind == "geo":
        UP.add_stage_variable("stage_model", Plane)
        UP.add_stage_variable("distance_units", "km")
        UP.add_stage_variable("altitude_units", "km")
        Loc, cls, tol = UP.GeodeticLocation, Geo, 2.0 ** -11
    else:
        Loc, cls, tol = UP.CartesianLocation, Cart, 2.0 ** -20
    pts, lens, norms, cur = [p0], [], [], p0
    for k in range(legs):
        # the ground distance of a geodetic leg ignores the change of altitude
        d, n = DIRS[kind][k]
        s = ctx.real(f"s{k}", 0, 10)
        cur = [cur[i] + d[i] * s for i in range(3)]
        pts.append(cur)
        lens.append(n * s)
        norms.append((n, d))
    actor = cls(name="a", loc=Loc(*p0), debug_log=False)
    return actor, Loc, pts, list(zip(lens, norms)), tol


def expected(ctx, pts, lens, gone):
    """The point a distance `gone` along the path."""
    pos = list(pts[0])
    cum = 0.0
    for length, (n, d) in lens:
        part = ctx.max(0, ctx.min(gone - cum, length))
        for i in range(3):
            pos[i] = pos[i] + part * d[i] / n
        cum = cum + length
    return pos


def close(ctx, a, b, tol, label):
    for x, y in zip(a, b):
        ctx.near(x, y, tol, label)


def travel(ctx, kind, legs, nread, speeds):
    with UP.EnvironmentContext() as env:
        actor, Loc, pts, lens, tol = setup(ctx, kind, legs)
        v = speeds if isinstance(speeds, (int, float)) else ctx.real("speed", *speeds)
        total = ctx.sum(x for x, _ in lens)
        t_end = total / v
        delay = ctx.real("delay", 0, 5)
        g = {"speed": v, "left": [Loc(*p) for p in pts[1:]], "delay": delay, "stay": t_end}
        UP.add_stage_variable("goal", g)
        proc = Go().run(actor=actor)

        def reader(k):
            t = ctx.real(f"read{k}", 0, 60)
            yield env.timeout(t)
            e = ctx.max(0, env.now - delay)
            pos = xyz(actor.loc)
            ctx.observe("pos", [env.now] + pos)
            close(ctx, pos, expected(ctx, pts, lens, e * v), tol * v * 4, "position while moving")
            if e > 0 and e < t_end:
                ctx.reach("mid-leg")
            elif e > t_end:
                ctx.reach("after")

        for k in range(nread):
            env.process(reader(k))
        env.run(until=600)
        ctx.check(not proc.is_alive, "the task ended")
        close(ctx, xyz(actor.loc), pts[-1], tol * v * 4, "ends at the last waypoint")


def restart(ctx, kind, legs, speeds):
    """Interrupt at any time, pause, go on over the remaining waypoints."""
    with UP.EnvironmentContext() as env:
        actor, Loc, pts, lens, tol = setup(ctx, kind, legs, None if kind == "cart" else [1.0, -2.0, ctx.real("pz", -10, 10)])
        v = speeds if isinstance(speeds, (int, float)) else ctx.real("speed", *speeds)
        total = ctx.sum(x for x, _ in lens)
        t_end = total / v
        pause = ctx.real("pause", 0, 5)
        ways = [Loc(*p) for p in pts[1:]]
        delay = ctx.real("delay", 0, 5)
        g = {"speed": v, "left": list(ways), "delay": delay, "stay": t_end, "pause": pause,
             "until": delay + t_end, "seen": None}
        UP.add_stage_variable("goal", g)
        proc = Go().run(actor=actor)
        ti = ctx.real("t_int", 0, 60)
        ctx.assume(ti < t_end)
        ctx.assume(ti > 0)

        def stop():
            yield env.timeout(delay + ti)
            proc.interrupt(cause="stop")

        env.process(stop())
        env.run(until=600)
        now, left, pos = g["seen"]
        ctx.eq(now, delay + ti, "interrupt time")
        close(ctx, xyz(pos), expected(ctx, pts, lens, ti * v), tol * v * 4, "position at interrupt")
        # the waypoints that are still ahead are there, those behind are gone
        cum = 0.0
        for w, length in zip(ways, [x for x, _ in lens]):
            cum = cum + length
            inside = any(w is x for x in left)
            if ti * v < cum - 4 * tol * v:
                ctx.check(inside, "a waypoint ahead remains")
            elif ti * v > cum + 4 * tol * v:
                ctx.check(not inside, "a passed waypoint is gone")
                ctx.reach("waypoints")
        ctx.check(not proc.is_alive, "the restarted task ended")
        ctx.reach("restarted")
        close(ctx, xyz(actor.loc), pts[-1], 8 * tol * v, "still ends at the last waypoint")


def overrun(ctx, kind):
    """Moving for longer than the path lasts is an error when the location is read."""
    with UP.EnvironmentContext() as env:
        actor, Loc, pts, lens, tol = setup(ctx, kind, 1)
        t_end = lens[0][0] / 2.0
        g = {"speed": 2.0, "left": [Loc(*p) for p in pts[1:]], "delay": 0.0, "stay": 100.0}
        UP.add_stage_variable("goal", g)
        Go().run(actor=actor)
        t = ctx.real("t", 0, 60)
        ctx.assume(t > t_end + 4 * tol)
        ctx.assume(t > 0)
        env.run(until=t)
        ctx.check_raises(UP.SimulationError, "no position beyond the path",
                         lambda: actor.loc)
        ctx.reach("exceeded")


def late(ctx, kind, legs):
    """A task that waits for its travel time arrives, however far the clock has advanced.

    On a clock of floats the end of the wait can be a few units of rounding of the clock late.
    """
    with UP.EnvironmentContext() as env:
        actor, Loc, pts, lens, tol = setup(ctx, kind, legs)
        t_end = ctx.sum(x for x, _ in lens) / 2.0
        delay = ctx.real("delay", 0, 1e6)
        slack = ctx.real("slack", 0, 1)
        ctx.assume(slack <= (delay + t_end) * 2.0 ** -50)
        g = {"speed": 2.0, "left": [Loc(*p) for p in pts[1:]], "delay": delay, "stay": t_end + slack}
        UP.add_stage_variable("goal", g)
        proc = Go().run(actor=actor)
        env.run(until=2e6)
        ctx.check(not proc.is_alive, "the task ended")
        close(ctx, xyz(actor.loc), pts[-1], tol * 8, "ends at the last waypoint")
        if slack > 0:
            ctx.reach("rounded")


def jobs(tier):
    out = []
    for kind in ("cart", "geo"):
        out += [J(f"{kind}-late-1", "late", kind=kind, legs=1), J(f"{kind}-late-2", "late", kind=kind, legs=2)]
        out += [J(f"{kind}-1-1", "travel", kind=kind, legs=1, nread=1, speeds=(0.5, 20)),
                J(f"{kind}-2-1", "travel", kind=kind, legs=2, nread=1, speeds=(0.5, 20)),
                J(f"{kind}-1-2", "travel", kind=kind, legs=1, nread=2, speeds=2.0),
                J(f"{kind}-restart-1", "restart", kind=kind, legs=1, speeds=4.0),
                *([J("cart-restart-2", "restart", kind=kind, legs=2, speeds=4.0)] if kind == "cart" else []),
                J(f"{kind}-overrun", "overrun", kind=kind)]
    if tier == "thorough":
        out += [J("geo-restart-2", "restart", kind="geo", legs=2, speeds=4.0),
                J("cart-3-1", "travel", kind="cart", legs=3, nread=1, speeds=2.0),
                J("cart-3-2", "travel", kind="cart", legs=3, nread=2, speeds=2.0),
                J("cart-restart-3", "restart", kind="cart", legs=3, speeds=4.0),
                J("geo-2-2", "travel", kind="geo", legs=2, nread=2, speeds=2.0),
                J("cart-restart-2s", "restart", kind="cart", legs=2, speeds=(0.5, 20))]
    return out
