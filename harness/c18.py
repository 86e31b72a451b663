"""C18: sensors are told exactly when movers enter and leave their range."""

import math

from upstage_des.motion.cartesian_model import cartesian_linear_intersection

from .common import UP, J

BOUNDS = ("1-2 movers on up to 3 legs back and forth with symbolic waypoints, stopped and restarted at symbolic "
          "times, 1-2 sensors of symbolic place and radius, one added at a symbolic time, detectability "
          "switched off and on at symbolic times, a probe at any time; crossings of one straight leg in "
          "three fixed 3D directions with a sphere, any offset, radius, length and speed")
ASSUMPTIONS = ["histories of a moving actor use the real manager with an exact one-dimensional intersection "
               "model (models are supplied by the user), the real Cartesian model is decided for single legs",
               "geodetic intersections are trigonometric and outside this check"]
REACH = ["in-view", "not-in-view", "stopped-inside", "restarted", "undetectable", "detectable-again",
         "added-late", "turned-inside", "reacted", "misses", "through", "from-inside", "to-inside", "within",
         "touch", "grazing"]


class Mover(UP.Actor):
    loc = UP.CartesianLocationChangingState()
    detect = UP.DetectabilityState(default=True)


class Plain(UP.Actor):
    loc = UP.CartesianLocationChangingState()


class Sensor:
    def __init__(self, env, x, r, react=None):
        self.env, self.place, self.size = env, UP.CartesianLocation(x, 0), r
        self.log = []
        self.react = react

    def entity_entered_range(self, mover):
        self.log.append((mover, "in", self.env.now, mover.loc.x))
        if self.react:
            self.react(mover)

    def entity_exited_range(self, mover):
        self.log.append((mover, "out", self.env.now, mover.loc.x))


def line(start, finish, speed, place, radius):
    """Exact crossings along a line."""
    a, b, lo, hi = start.x, finish.x, place.x - radius, place.x + radius
    total = abs(b - a) / speed
    inside_a, inside_b = lo <= a <= hi, lo <= b <= hi
    near, far = (lo, hi) if a <= b else (hi, lo)
    if not inside_a and (abs(b - a) < abs(near - a) or (a < lo and b < lo) or (a > hi and b > hi)):
        return [], [], [], total
    pts, times, kinds = [start], [0], ["START_INSIDE"]
    if not inside_a:
        pts, times, kinds = [UP.CartesianLocation(near, 0)], [abs(near - a) / speed], ["ENTER"]
    if inside_b:
        return pts + [finish], times + [total], kinds + ["END_INSIDE"], total
    return (pts + [UP.CartesianLocation(far, 0)], times + [abs(far - a) / speed], kinds + ["EXIT"], total)


class Go(UP.Task):
    def task(self, *, actor):
        for ph in actor.stage.plan[actor.name]:
            yield UP.Wait(ph["wait"])
            ph["start"] = (self.env.now, actor.loc.x)
            actor.activate_location_state(state="loc", speed=ph["speed"], task=self,
                                          waypoints=[UP.CartesianLocation(x, 0) for x in ph["to"]])
            yield UP.Wait(ph["stay"])
            actor.deactivate_state(state="loc", task=self)
            ph["end"] = (self.env.now, actor.loc.x)

    def on_interrupt(self, *, actor, cause):
        for ph in actor.stage.plan[actor.name]:
            if ph.get("start") and not ph.get("end"):
                ph["end"] = (self.env.now, actor.loc.x)
                ph["cut"] = True
        return self.INTERRUPT.END


def where(ph, t):
    """Position at time t in [start, end] of a phase."""
    t0, x = ph["start"]
    if ph.get("end") is not None and t >= ph["end"][0]:
        t = ph["end"][0]
    left = (t - t0) * ph["speed"]
    for y in ph["to"]:
        d = abs(y - x)
        if left <= d:
            return x + left if y >= x else x - left
        left, x = left - d, y
    return x


def plan(ctx, name, legs, speeds, full):
    """Phases with numbers of legs; a phase ends within its path, or at its end if full."""
    x = ctx.real(f"x{name}", -10, 10)
    out, at = [], x
    for i, n in enumerate(legs):
        to = [ctx.real(f"w{name}{i}{j}", -10, 10) for j in range(n)]
        v = speeds[i]
        total = ctx.sum([abs(q - p) for p, q in zip([at] + to[:-1], to)]) / v
        ctx.assume(total > 0)
        if full[i]:
            stay = total
        else:
            stay = ctx.real(f"stay{name}{i}", 0, 60, lo_open=True)
            ctx.assume(stay <= total)
        ph = {"wait": ctx.real(f"wait{name}{i}", 0, 5), "speed": v, "to": to, "stay": stay}
        ph["start"] = (0, at)
        at = where({**ph, "end": None}, stay)
        ph["start"] = None
        out.append(ph)
    return x, out


def alternate(ctx, s, movers):
    for m in movers:
        kinds = [k for a, k, _, _ in s.log if a is m]
        ctx.check(all(k == ("in", "out")[i % 2] for i, k in enumerate(kinds)),
                  "notifications alternate, starting with an entry")
    for _, k, _, x in s.log:
        if k == "in":
            # positions are read up to the tolerance of a waypoint
            ctx.check(ctx.And(s.place.x - s.size - 1e-6 <= x, x <= s.place.x + s.size + 1e-6),
                      "an entry is told inside")


def seen(s, m, t):
    n = 0
    for a, k, at, _ in s.log:
        if a is m and at <= t:
            n += 1 if k == "in" else -1
    return n


def watch(ctx, legs, full, speeds, sensors=1, movers=1, added=False, off=False, on=False, cls="Mover",
          fixed=False):
    with UP.EnvironmentContext() as env:
        man = UP.SensorMotionManager(line)
        UP.add_stage_variable("motion_manager", man)
        plans = {}
        ms = []
        for k in range(movers):
            x, ph = plan(ctx, str(k), legs, speeds, full)
            plans[str(k)] = ph
            ms.append({"Mover": Mover, "Plain": Plain}[cls](name=str(k), loc=UP.CartesianLocation(x, 0), debug_log=False))
        UP.add_stage_variable("plan", plans)
        ss = []
        if fixed:
            # one sensor: place and size are a matter of coordinates
            ss.append(Sensor(env, 0.0, 2.0))
            for ph in plans["0"]:
                ctx.assume(ph["wait"] >= 1)
            ctx.assume(plans["0"][0]["wait"] == 1)
            if on or movers > 1:
                ctx.assume(ms[0].loc.x == -5)
            if movers > 1:
                ctx.assume(plans["1"][0]["to"][0] == -4)
            ctx.assume(plans["0"][0]["to"][0] >= ms[0].loc.x)
        for k in range(len(ss), sensors):
            ss.append(Sensor(env, ctx.real(f"c{k}", -6, 6), ctx.real(f"r{k}", 0, 6, lo_open=True)))
        late = ctx.real("add", 0, 40) if added else None
        for k, s in enumerate(ss):
            if k or not added:
                man.add_sensor(s, "place", "size")

        def adder():
            yield env.timeout(late)
            man.add_sensor(ss[0], "place", "size")

        t_off = ctx.real("off", 0, 40) if off else None
        t_on = ctx.real("on", 0, 20, lo_open=True) if on else None

        def switch():
            yield env.timeout(t_off)
            ms[0].detect = False
            if on:
                yield env.timeout(t_on)
                ms[0].detect = True

        for m in ms:
            Go().run(actor=m)
        if added:
            env.process(adder())
        if off:
            env.process(switch())
        env.run()
        if on:
            t_on = t_off + t_on
        probe = ctx.real("probe", 0, 90)
        for m in ms:
            for ph in plans[m.name]:
                ctx.assume(ctx.Not(ctx.same(probe, ph["start"][0])))
                if off and m is ms[0]:
                    ctx.assume(ctx.Not(ctx.same(t_off, ph["start"][0])))
                    if on:
                        ctx.assume(ctx.Not(ctx.same(t_on, ph["start"][0])))
                if added:
                    ctx.assume(ctx.Not(ctx.same(late, ph["start"][0])))
                    ctx.assume(ctx.Not(ctx.same(late, ph["end"][0])))
        for t in (t_off, t_on, late):
            if t is not None:
                ctx.assume(ctx.Not(ctx.same(probe, t)))
        if added and off:
            ctx.assume(ctx.Not(ctx.same(late, t_off)))
        for k, s in enumerate(ss):
            alternate(ctx, s, ms)
            lo, hi = s.place.x - s.size, s.place.x + s.size
            for m in ms:
                cur = None
                for ph in plans[m.name]:
                    if ph["start"][0] <= probe:
                        cur = ph
                if cur is None:
                    want = False
                else:
                    p = where(cur, probe)
                    ctx.assume(ctx.Not(ctx.Or(ctx.same(p, lo), ctx.same(p, hi))))
                    want = bool(lo <= p) and bool(p <= hi)
                    start, end = cur["start"][0], cur["end"][0]
                    if cls == "Plain":
                        want = False
                    if off and m is ms[0]:
                        hidden = bool(t_off <= start) and not (on and bool(t_on <= start))
                        cut = bool(start <= t_off) and bool(t_off <= probe)
                        if on and want and bool(t_off <= start) and not hidden:
                            ctx.reach("detectable-again")
                        if hidden or cut:
                            if want:
                                ctx.reach("undetectable")
                            want = False
                    if added and k == 0:
                        if bool(late > probe) or bool(late > end):
                            want = False
                        elif want and bool(late > start):
                            ctx.reach("added-late")
                    if want and probe > end:
                        ctx.reach("stopped-inside")
                    if want and cur is not plans[m.name][0]:
                        ctx.reach("restarted")
                    if want and len(cur["to"]) > 1 and lo <= cur["to"][0] <= hi:
                        ctx.reach("turned-inside")
                ctx.check(seen(s, m, probe) == int(want), "in view exactly while inside")
                ctx.reach("in-view" if want else "not-in-view")


def react(ctx, what):
    """A sensor stops the mover, or makes it undetectable, when told about it."""
    with UP.EnvironmentContext() as env:
        man = UP.SensorMotionManager(line)
        UP.add_stage_variable("motion_manager", man)
        x, ph = plan(ctx, "0", [1, 1] if what == "hide" else [1], [1.0, 2.0], [True, True])
        UP.add_stage_variable("plan", {"0": ph})
        m = Mover(name="0", loc=UP.CartesianLocation(x, 0), debug_log=False)
        when = []

        def act(mover):
            if not when:
                when.append(env.now)
                if what == "hide":
                    mover.detect = False
                else:
                    proc.interrupt()

        a = Sensor(env, 0.0, 2.0, act)   # a matter of coordinates
        b = Sensor(env, ctx.real("c1", -6, 6), ctx.real("r1", 0, 6, lo_open=True))
        for s in (a, b):
            man.add_sensor(s, "place", "size")
        proc = Go().run(actor=m)
        env.run()
        probe = ctx.real("probe", 0, 90)
        for s in (a, b):
            alternate(ctx, s, [m])
            if not when:
                continue
            ctx.assume(ctx.Not(ctx.same(probe, when[0])))
            cur = None
            for p in ph:
                if p.get("start"):
                    ctx.assume(ctx.Not(ctx.same(probe, p["start"][0])))
                    if p["start"][0] < probe:
                        cur = p
            if cur is None:
                continue
            ctx.reach("reacted")
            lo, hi = s.place.x - s.size, s.place.x + s.size
            if what == "hide":
                want = False
                if probe < when[0]:
                    p = where(cur, probe)
                    ctx.assume(ctx.Not(ctx.Or(ctx.same(p, lo), ctx.same(p, hi))))
                    want = bool(lo < p < hi)
            else:
                p = where(cur, probe)
                if s is a and when[0] <= probe:
                    want = True
                else:
                    ctx.assume(ctx.Not(ctx.Or(ctx.same(p, lo), ctx.same(p, hi))))
                    want = bool(lo < p < hi)
            ctx.check(seen(s, m, probe) == int(want), "what the sensor did takes effect")


DIRS = [((3, 4, 0), 5, (-4, 3, 0), 5), ((0, 0, 1), 1, (1, 0, 0), 1), ((-2, 3, 6), 7, (3, 2, 0), None)]


def leg(ctx, d, flat):
    """One straight leg against a sphere, in coordinates along and across the leg."""
    with UP.EnvironmentContext():
        crossing(ctx, d, flat)


def crossing(ctx, d, flat):
    (dx, dy, dz), n, (px, py, pz), pn = DIRS[d]
    u = ctx.real("u", -5, 5)            # distance to the closest point to the centre
    L = ctx.real("len", 0, 10, lo_open=True)
    # the distance of the line from the centre, and the radius
    w, r = (0, ctx.real("r", 0, 5, lo_open=True)) if flat else ctx.choice(
        "wr", [(0.6, 1.0), (1.6, 2.0), (2.0, 2.0), (3.0, 2.0)])
    v = ctx.real("v", 0.5, 4) if flat else 2.0
    c = (1.0, -2.0, 0.5) if flat else (0.0, 0.0, 0.0)
    pn = pn or 1
    s = [c[i] - u * (dx, dy, dz)[i] / n + w * (px, py, pz)[i] / pn for i in range(3)]
    f = [s[i] + L * (dx, dy, dz)[i] / n for i in range(3)]
    w2 = w * w * (px * px + py * py + pz * pz) / (pn * pn)
    C = UP.CartesianLocation
    pts, times, kinds, total = cartesian_linear_intersection(C(*s), C(*f), v, C(*c), r)
    ctx.eq(total * v, L, "travel time")

    def inside(t):
        return ctx.leq((v * t - u) * (v * t - u) + w2, r * r)

    t = ctx.real("t", 0, 40)
    ctx.assume(t * v <= L)
    if not pts:
        ctx.check(ctx.Or(ctx.Not(inside(t)), ctx.same((v * t - u) * (v * t - u) + w2, r * r)),
                  "a leg without crossings never is inside")
        ctx.reach("misses")
        return
    ctx.check(len(pts) == len(times) == len(kinds) == 2, "a crossing has two ends")
    (t1, t2) = times
    ctx.check(ctx.And(0 <= t1, t1 <= t2, t2 * v <= L), "crossings lie on the leg, in order")
    ctx.check(ctx.Implies(ctx.And(t1 <= t, t <= t2), inside(t)), "inside between the crossings")
    ctx.check(ctx.Implies(ctx.And(inside(t), ctx.Or(t < t1, t > t2)),
                          ctx.same((v * t - u) * (v * t - u) + w2, r * r)), "outside elsewhere")
    for p, at in zip(pts, times):
        for i, q in enumerate((p.x, p.y, p.z)):
            ctx.eq(q * n, s[i] * n + v * at * (dx, dy, dz)[i], "crossing places match their times")
    ctx.check(kinds[0] == ("START_INSIDE" if bool(inside(0.0)) else "ENTER"), "kind of start")
    ctx.check(kinds[1] == ("END_INSIDE" if bool(inside(L / v)) else "EXIT"), "kind of end")
    if kinds[0] == "START_INSIDE":
        ctx.eq(t1, 0, "inside from the start")
    if kinds[1] == "END_INSIDE":
        ctx.eq(t2 * v, L, "inside until the end")
    if t1 == t2:
        ctx.reach("touch")
    ctx.reach({"ENTEREXIT": "through", "START_INSIDEEXIT": "from-inside", "ENTEREND_INSIDE": "to-inside",
               "START_INSIDEEND_INSIDE": "within"}[kinds[0] + kinds[1]])


# Paths with waypoints on the boundary, as (radius, [(distance in radii, direction)]), where
# rounding alone decides if a waypoint counts as inside and if the crossing there is on a leg.
GRAZING = [
    (1.5, [(2, 4.3), (1, 3.0), (1, 2.9), (0.5, 0.7)]), (7.5, [(2, 5.9), (1, 4.7), (1, 2.0), (2, 4.3)]),
    (0.7, [(1, 5.3), (1, 5.3), (1, 3.4), (0.5, 3.4)]), (3.0, [(3, 1.0), (0.5, 0.8), (1, 4.6), (2, 2.4)]),
    (7.5, [(2, 6.0), (2, 2.4), (1, 3.7), (2, 4.6)]), (0.7, [(2, 1.9), (3, 5.7), (1, 2.9), (0.5, 1.2)]),
    (0.7, [(1, 0.1), (2, 6.2), (1, 5.7), (2, 0.9)]), (1.5, [(1, 3.6), (2, 4.0), (2, 5.4)]),
    (0.7, [(1, 1.4), (2, 3.6), (1, 2.8), (0.5, 5.4)]), (7.5, [(3, 2.0), (1, 3.7), (0.5, 0.1)]),
    (1.5, [(3, 1.1), (1, 4.7), (0.5, 0.1)]), (1.5, [(3, 0.5), (1, 4.9), (1, 4.6), (0.5, 5.0)]),
    (7.5, [(2, 1.5), (1, 1.2), (1, 0.5), (2, 1.6)]), (3.0, [(1, 4.2), (3, 3.5), (1, 4.2), (2, 0.8)]),
    (1.5, [(3, 1.8), (3, 5.3), (1, 4.8), (2, 5.8)]), (1.5, [(0.5, 5.7), (3, 1.3), (1, 1.7), (2, 5.7)]),
    (3.0, [(0.5, 2.7), (3, 5.6), (1, 5.5), (2, 5.3)]), (1.5, [(1, 3.1), (3, 2.8), (1, 3.1), (2, 3.3)]),
    (3.0, [(0.5, 4.8), (2, 3.6), (1, 3.3), (2, 3.8)]), (0.7, [(0.5, 1.6), (2, 1.0), (1, 0.0), (2, 5.8)]),
]


class Legs(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        yield UP.Wait(p["delay"])
        actor.activate_location_state(state="loc", speed=p["speed"], waypoints=p["to"], task=self)
        yield UP.Wait(p["stay"])
        actor.deactivate_state(state="loc", task=self)


def grazing(ctx, exact):
    """Turning around on the boundary of a range is told consistently."""
    r, path = ctx.choice("path", GRAZING)
    C = UP.CartesianLocation
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("motion_manager", UP.SensorMotionManager(cartesian_linear_intersection))
        sensor = Sensor(env, 0, r)
        UP.UpstageBase().stage.motion_manager.add_sensor(sensor, "place", "size")
        pts = [C(r * d * math.cos(b), r * d * math.sin(b)) for d, b in path]
        if exact:
            v, delay = 2.0, 1000.3
        else:
            v, delay = ctx.real("speed", 0.5, 4), ctx.real("delay", 0, 1000)
        stay = ctx.sum([(q - p) / v for p, q in zip(pts, pts[1:])])
        UP.add_stage_variable("plan", {"delay": delay, "speed": v, "to": pts[1:], "stay": stay})
        m = Mover(name="m", loc=pts[0], debug_log=False)
        proc = Legs().run(actor=m)
        env.run(until=3000)
        ctx.check(not proc.is_alive, "the path is travelled")
        told = [what for _, what, *_ in sensor.log]
        ctx.check(told == [("in", "out")[i % 2] for i in range(len(told))], "entries and exits alternate")
        inside = path[-1][0] < 1
        ctx.check(len(told) % 2 == int(inside), "told to be inside or outside at the end")
        for i, (_, what, t, _) in enumerate(sensor.log):
            ctx.check(ctx.And(delay <= t, ctx.leq(t, delay + stay)), "during the travel")
            if i:
                ctx.check(ctx.leq(sensor.log[i - 1][2], t), "in the order of time")
        ctx.reach("grazing")


def jobs(tier):
    out = [J("1leg", "watch", legs=[1], full=[True], speeds=[2.0]),
           J("2legs", "watch", legs=[2], full=[False], speeds=[2.0]),
           J("2phases", "watch", legs=[1, 1], full=[False, True], speeds=[2.0, 1.0]),
           J("added", "watch", legs=[1, 1], full=[True, True], speeds=[2.0, 2.0], added=True,
             fixed=True),
           J("off", "watch", legs=[1, 1], full=[True, True], speeds=[1.0, 2.0], off=True,
             fixed=True),
           J("offon", "watch", legs=[1, 1], full=[True, True], speeds=[1.0, 2.0], off=True, on=True,
             fixed=True),
           J("2sensors", "watch", legs=[1], full=[False], speeds=[2.0], sensors=2),
           J("2movers", "watch", legs=[1], full=[True], speeds=[2.0], movers=2, fixed=True),
           J("plain", "watch", legs=[1], full=[True], speeds=[2.0], cls="Plain"),
           J("grazing", "grazing", exact=False), J("grazing-float", "grazing", exact=True),
           J("react-hide", "react", what="hide"), J("react-stop", "react", what="stop")]
    for d in range(3):
        out.append(J(f"leg{d}", "leg", d=d, flat=True))
    out.append(J("sphere1", "leg", d=1, flat=False))
    if tier == "thorough":
        out += [J("3legs", "watch", legs=[3], full=[False], speeds=[2.0]),
                J("2+2", "watch", legs=[2, 2], full=[False, True], speeds=[2.0, 1.0]),
                J("added2", "watch", legs=[2], full=[True], speeds=[2.0], added=True, sensors=2),
                J("offon2", "watch", legs=[2, 1], full=[True, True], speeds=[1.0, 2.0], off=True, on=True),
                J("sphere0", "leg", d=0, flat=False)]
    return out
