"""C19: the stepped manager tells sensors at each step who came into range and who left it."""

from .common import UP, J

BOUNDS = ("1-2 moving or static detectables and 1-2 moving or static sensors on a line with symbolic places, "
          "speeds, radii, start and stop times over up to 4 (thorough: 6) steps; detectability switched at "
          "symbolic times, faster checks of one detectable, a second run after the manager stopped")
ASSUMPTIONS = ["nothing else happens in the very instant of a step"]
REACH = ["enter", "exit", "stopped-in-view", "both-moving", "hidden", "shown", "restarted", "particular",
         "custom", "static", "hidden-by-sensor"]


class Log:
    """Something with a place that can watch."""

    def start_log(self):
        self.log = []
        return self

    def entity_entered_range(self, what):
        self.log.append(("in", what, self.env.now))

    def entity_exited_range(self, what):
        self.log.append(("out", what, self.env.now))


class Thing(UP.Actor, Log):
    loc = UP.CartesianLocationChangingState()
    radius = UP.State(default=1.0)
    detect = UP.DetectabilityState(default=True)


class Plain(UP.Actor, Log):
    """Without detectability it can always be seen."""

    loc = UP.CartesianLocationChangingState()
    radius = UP.State(default=1.0)


class Spot(Log):
    def __init__(self, env, x, r=None):
        self.env, self.location, self.radius = env, UP.CartesianLocation(x, 0), r
        self.start_log()


class Checker(Spot):
    def detection_checker(self, loc):
        return bool(loc.x > self.radius)


class Go(UP.Task):
    def task(self, *, actor):
        g = actor.stage.plan[actor.name]
        yield UP.Wait(g["wait"])
        g["t0"] = self.env.now
        actor.activate_location_state(state="loc", speed=g["speed"], task=self,
                                      waypoints=[UP.CartesianLocation(g["to"], 0)])
        yield UP.Wait(g["stay"])
        actor.deactivate_state(state="loc", task=self)
        g["t1"] = self.env.now


def place(ctx, g, t):
    if not isinstance(g, dict):
        return g
    if "t0" not in g or t <= g["t0"]:
        return g["x"]
    e = t if ("t1" not in g or t <= g["t1"]) else g["t1"]
    d = (e - g["t0"]) * g["speed"]
    return g["x"] + d if g["to"] >= g["x"] else g["x"] - d


def goal(ctx, n, wait, speed):
    x = ctx.real(f"x{n}", -4, 4)
    to = ctx.real(f"to{n}", -4, 4)
    far = to - x if to >= x else x - to
    ctx.assume(far > 0)
    stay = ctx.real(f"stay{n}", 0, 8, lo_open=True)
    ctx.assume(stay * speed <= far)
    return {"x": x, "to": to, "speed": speed, "wait": wait, "stay": stay}


def steps(ctx, man, env, what, sensors=1, hide=None, sensor_moves=False, second=False, empty=2, span=4):
    dt = ctx.real("dt", 0.5, 2) if what == "dt" else 1.0
    man = UP.SteppedMotionManager(dt, max_empty_events=empty)
    UP.add_stage_variable("motion_manager", man)
    plans = {"m": goal(ctx, "m", ctx.real("wait", 0, 2), 2.0)}
    if sensor_moves:
        plans["s"] = goal(ctx, "s", ctx.real("waits", 0, 2), 1.0)
    UP.add_stage_variable("plan", plans)
    for g in plans.values():
        ctx.assume(g["wait"] + g["stay"] <= span * dt)
    kind = Plain if what == "plain" else Thing
    mover = kind(name="m", loc=UP.CartesianLocation(plans["m"]["x"], 0), debug_log=False).start_log()
    watch = []
    if sensor_moves:
        s = Thing(name="s", loc=UP.CartesianLocation(plans["s"]["x"], 0), radius=ctx.real("rs", 0, 4),
                  debug_log=False).start_log()
        man.add_sensor(s, "radius", "loc")
        watch.append((s, plans["s"], s.radius))
    for k in range(sensors):
        s = (Checker if what == "checker" else Spot)(env, 0.0 if k == 0 else ctx.real(f"c{k}", -4, 4),
                                                     ctx.real(f"r{k}", 0, 4))
        man.add_sensor(s)
        watch.append((s, s.location.x, s.radius))
    off = ctx.real("off", 0, 4) if hide else None
    on = ctx.real("on", 0, 3, lo_open=True) if hide == "both" else None

    def switch():
        yield env.timeout(off)
        mover.detect = False
        if on is not None:
            yield env.timeout(on)
            mover.detect = True

    if hide:
        env.process(switch())
    if what == "run":
        man.run()
    tasks = [Go().run(actor=mover)]
    if sensor_moves:
        tasks.append(Go().run(actor=s_of(watch)))
    env.run()
    end = env.now
    # the steps
    begin = 0 if what == "run" else min_time([g["t0"] for g in plans.values()])
    last = max_time([g["t1"] for g in plans.values()])
    if hide:
        shown = off + on if on is not None else None
        last = max_time([last, off, *([shown] if shown is not None else [])])
    want = {id(s): [] for s, _, _ in watch}
    view = {id(s): False for s, _, _ in watch}
    t, empties, times = begin, 0, []
    while True:
        t = t + dt
        ctx.assume(ctx.Not(ctx.same(t, last)))
        times.append(t)
        if t > last:
            empties += 1
            if empties == empty:
                break
        elif len(times) > span + 6:
            break
    if hide is None or what != "run":
        ctx.eq(end, t, "the manager stops after the given number of empty steps")
    points = [(x, "step") for x in times]
    if hide:
        points.append((off, "off"))
        if on is not None:
            points.append((shown, "on"))
    for x, k in points:
        for y in [g[e] for g in plans.values() for e in ("t0", "t1")] + [y for y, k2 in points if k2 != k]:
            ctx.assume(ctx.Not(ctx.same(x, y)))
    points = order(points)
    known = plans["m"]
    for x, k in points:
        moving = bool(known["t0"] < x) and bool(x < known["t1"])
        visible = True
        if hide and bool(off <= x) and not (on is not None and bool(shown <= x)):
            visible = False
        for s, at, r in watch:
            if k == "off":
                if view[id(s)]:
                    want[id(s)].append(("out", x))
                    view[id(s)] = False
                    ctx.reach("hidden")
                continue
            if not moving or not visible:
                if view[id(s)]:
                    ctx.reach("stopped-in-view")
                continue
            a, b = place(ctx, known, x), place(ctx, at, x)
            seen = bool(a > r) if what == "checker" else bool(b - r <= a) and bool(a <= b + r)
            if seen != view[id(s)]:
                view[id(s)] = seen
                want[id(s)].append(("in" if seen else "out", x))
                ctx.reach("enter" if seen else "exit")
                if k == "on":
                    ctx.reach("shown")
                if what == "checker":
                    ctx.reach("custom")
                if sensor_moves and s is s_of(watch) and bool(at["t0"] < x) and bool(x < at["t1"]):
                    ctx.reach("both-moving")
    for s, _, _ in watch:
        got = [(k, at) for k, w, at in s.log if w is mover]
        ctx.check(len(got) == len(want[id(s)]), "one notification per change")
        ctx.eq(got, want[id(s)], "what is told and when")
    return man, mover, watch, view, plans, dt


def s_of(watch):
    return watch[0][0]


def min_time(ts):
    m = ts[0]
    for t in ts[1:]:
        if t < m:
            m = t
    return m


def max_time(ts):
    m = ts[0]
    for t in ts[1:]:
        if t > m:
            m = t
    return m


def order(points):
    out = []
    for p in points:
        i = len(out)
        while i > 0 and p[0] < out[i - 1][0]:
            i -= 1
        out.insert(i, p)
    return out


def moving(ctx, **kw):
    with UP.EnvironmentContext() as env:
        steps(ctx, None, env, **kw)


def again(ctx):
    """After the manager stopped by itself, new motion is watched again."""
    with UP.EnvironmentContext() as env:
        man, mover, watch, view, plans, dt = steps(ctx, None, env, what="std", span=2)
        (s, c, r), = watch
        x = place(ctx, plans["m"], env.now)
        n = len(s.log)
        to = ctx.real("to2", -4, 4)
        far = to - x if to >= x else x - to
        ctx.assume(far > 0)
        plans["m"] = {"x": x, "to": to, "speed": 2.0, "wait": ctx.real("wait2", 0, 2), "stay": far / 2}
        ctx.assume(far <= 5)
        Go().run(actor=mover)
        env.run()
        g = plans["m"]
        t, cur, want = g["t0"], view[id(s)], []
        for _ in range(3):
            t = t + dt
            ctx.assume(ctx.Not(ctx.same(t, g["t1"])))
            if t < g["t1"]:
                a = place(ctx, g, t)
                seen = bool(c - r <= a) and bool(a <= c + r)
                if seen != cur:
                    cur = seen
                    want.append(("in" if seen else "out", t))
                    ctx.reach("restarted")
        ctx.eq([(k, at) for k, _, at in s.log[n:]], want, "told after a restart")


def static(ctx, particular):
    """Things that do not move, and one that is checked at its own rate."""
    with UP.EnvironmentContext() as env:
        man = UP.SteppedMotionManager(1.0)
        UP.add_stage_variable("motion_manager", man)
        sensors = [Spot(env, 0.0, 2.0)]   # a matter of coordinates
        for s in sensors:
            man.add_sensor(s)
        ts = [Spot(env, ctx.real(f"d{i}", -4, 4), 1.0) for i in range(2)]
        man.add_detectable(ts[0])
        man.add_sensor(ts[0])
        add = ctx.real("add", 0, 3)
        ctx.assume(ctx.Not(ctx.Or(add == 1, add == 2)))
        jump = ctx.real("jump", 0, 3)
        there = ctx.choice("there", [0.0, 3.0])
        ctx.assume(ctx.Not(ctx.Or(jump == 1, jump == 2)))
        rate = ctx.choice("rate", [0.4, 0.75]) if particular else None
        if rate is not None:
            for i in range(1, 8):
                ctx.assume(ctx.Not(ctx.Or(rate * i == jump, rate * i == 1, rate * i == 2, rate * i == add)))
        ctx.assume(ctx.Not(ctx.Or(jump == 3, add == 3)))

        def later():
            yield env.timeout(add)
            man.add_detectable(ts[1])

        def jumper():
            yield env.timeout(jump)
            ts[0].location = UP.CartesianLocation(there, 0)

        home = ts[0].location.x
        env.process(later())
        env.process(jumper())
        man.run()
        if particular:
            man.run_particular(rate, ts[0])
        env.run(until=3.5 if not particular else 2.5)
        stop = 3.5 if not particular else 2.5
        points = [(float(i), ts) for i in range(1, 4) if i < stop]
        if particular:
            i = 1
            while rate * i < stop:
                points.append((rate * i, [ts[0]]))
                i += 1
            points = order(points)
        want = {(id(s), id(d)): [] for s in sensors + [ts[0]] for d in ts}
        for t, ds in points:
            for s in sensors + [ts[0]]:
                for d in ds:
                    if d is s or (d is ts[1] and t < add):
                        continue

                    def at(o):
                        if o is ts[0]:
                            return there if jump < t else home
                        return o.location.x
                    r = s.radius
                    a, b = at(d), at(s)
                    seen = bool(b - r <= a) and bool(a <= b + r)
                    hist = want[id(s), id(d)]
                    if seen != (len(hist) % 2 == 1):
                        hist.append(("in" if seen else "out", t))
                        ctx.reach("static")
                        if particular and len(ds) == 1:
                            ctx.reach("particular")
        for s in sensors + [ts[0]]:
            for d in ts:
                ctx.eq([(k, at) for k, w, at in s.log if w is d], want[id(s), id(d)], "told about static things")


def react(ctx):
    """Sensors hide what they are told about; everything hidden is out of every view."""
    with UP.EnvironmentContext() as env:
        man = UP.SteppedMotionManager(1.0)
        UP.add_stage_variable("motion_manager", man)
        ms = [Thing(name=str(i), loc=UP.CartesianLocation(ctx.real(f"x{i}", -4, 4), 0),
                    debug_log=False).start_log() for i in range(2)]
        on_in, on_out = ctx.choice("in", [None, 0, 1]), ctx.choice("out", [None, 0, 1])
        who = ctx.choice("who", [0, 1])

        class Hider(Spot):
            def entity_entered_range(self, what):
                super().entity_entered_range(what)
                if on_in is not None and ms[on_in].detect:
                    ms[on_in].detect = False

            def entity_exited_range(self, what):
                super().entity_exited_range(what)
                if on_out is not None and ms[on_out].detect:
                    ms[on_out].detect = False

        r = ctx.real("r", 0, 4)
        ss = [(Hider if i == who else Spot)(env, 0.0, r) for i in range(2)]
        for s in ss:
            man.add_sensor(s)
        for m in ms:
            man.add_detectable(m, "loc")
        man.run()

        def go():
            yield env.timeout(1.5)
            ms[0].detect = False

        env.process(go())
        env.run(until=2.5)
        for s in ss:
            for m in ms:
                told = [k for k, w, _ in s.log if w is m]
                ctx.check(told == ["in", "out"][:len(told)], "notifications alternate")
                inside = bool(-r <= m.loc.x) and bool(m.loc.x <= r)
                if not inside:
                    ctx.check(not told, "nothing told from outside")
                elif not m.detect:
                    ctx.check(len(told) in (0, 2), "what is hidden is in nobody's view")
                    ctx.reach("hidden-by-sensor")
                else:
                    ctx.check(len(told) == 1, "what is visible stays in view")


def jobs(tier):
    out = [J("std", "moving", what="std"), J("dt", "moving", what="dt", span=3),
           J("plain", "moving", what="plain", empty=1), J("run", "moving", what="run"),
           J("checker", "moving", what="checker", empty=3),
           J("sensor", "moving", what="std", sensor_moves=True, sensors=0, span=2),
           J("hide", "moving", what="std", hide="off", span=2),
           J("hideshow", "moving", what="std", hide="both", span=2),
           J("two", "moving", what="std", sensors=2, span=2),
           J("again", "again"), J("react", "react"), J("static", "static", particular=False),
           J("particular", "static", particular=True)]
    if tier == "thorough":
        out += [J("std6", "moving", what="std", span=6),
                J("sensor4", "moving", what="std", sensor_moves=True, sensors=1, span=3),
                J("hideshow4", "moving", what="std", hide="both", span=4)]
    return out
