"""C10: events complete exactly when their definition says."""

from .common import UP, J

BOUNDS = ("trees of up to 4 waits under All/Any nested twice with symbolic times; one event with up to "
          "4 (thorough: 6) signals at symbolic times and a waiter with symbolic pauses; 2 (thorough: 3) waiters, "
          "one of them interrupted at a symbolic time; "
          "all time unit pairs; an arbitrary random source; a signal in the instant "
          "in which its waiter returns counts as missed if the event says it is complete")
REACH = ["any-left", "any-right", "tie", "missed", "received", "too-many", "no-reset", "unit",
         "random", "negative", "same-instant",
         "interrupted", "waits-again"]

UNITS = {"s": 1, "second": 1, "seconds": 1, "min": 60, "minute": 60, "minutes": 60, "hr": 3600,
         "hour": 3600, "hours": 3600, "day": 86400, "days": 86400, "week": 604800, "weeks": 604800}


class Act(UP.Actor):
    v = UP.State(default=0.0)


class Tree(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        yield UP.Wait(p["start"])
        yield p["make"]()
        p["at"] = actor.env.now
        p["done"] = p["top"].is_complete()


SHAPES = {
    "w": lambda w: w(0),
    "any2": lambda w: ("any", w(0), w(1)),
    "all2": lambda w: ("all", w(0), w(1)),
    "any(all,w)": lambda w: ("any", ("all", w(0), w(1)), w(2)),
    "all(any,w)": lambda w: ("all", ("any", w(0), w(1)), w(2)),
    "any(any,all)": lambda w: ("any", ("any", w(0), w(1)), ("all", w(2), w(3))),
    "all(all,any)": lambda w: ("all", ("all", w(0), w(1)), ("any", w(2), w(3))),
    "any1": lambda w: ("any", w(0)),
    "all3": lambda w: ("all", w(0), w(1), w(2)),
    "any3": lambda w: ("any", w(0), w(1), w(2)),
}


def tree(ctx, shape):
    """All ends with its last event, Any with its first, at any nesting."""
    with UP.EnvironmentContext() as env:
        p = {"start": ctx.real("start", 0, 5)}
        UP.add_stage_variable("plan", p)
        times = {}

        def w(i):
            times[i] = ctx.real(f"t{i}", 0, 10)
            return i

        plan = SHAPES[shape](w)
        nodes = []

        def build(n):
            if isinstance(n, int):
                ev, t = UP.Wait(times[n]), times[n]
            else:
                kids = [build(k) for k in n[1:]]
                if n[0] == "any":
                    ev, t = UP.Any(*[k[0] for k in kids]), ctx.min(*[k[1] for k in kids])
                else:
                    ev, t = UP.All(*[k[0] for k in kids]), ctx.max(*[k[1] for k in kids])
            nodes.append((ev, t))
            return ev, t

        def make():
            p["top"], p["end"] = build(plan)
            return p["top"]

        seen = []

        class Watch(Tree):
            def task(self, *, actor):
                yield from super().task(actor=actor)
                seen.extend((e.is_complete(), t) for e, t in nodes)

        p["make"] = make
        a = Act(name="a", debug_log=False)
        Watch().run(actor=a)
        env.run(until=50)
        ctx.eq(p["at"], p["start"] + p["end"], "time of the composite event")
        ctx.check(p["done"], "the event that was waited for is complete")
        for done, t in seen:
            if t < p["end"]:
                ctx.check(done, "an earlier part is complete")
            elif t > p["end"]:
                ctx.check(not done, "a later part is not complete")
            else:
                ctx.reach("tie")
        if shape == "any2":
            if times[0] < times[1]:
                ctx.reach("any-left")
            elif times[1] < times[0]:
                ctx.reach("any-right")


class Waiter(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        yield UP.Wait(p["begin"])
        for pause in p["pauses"]:
            p["pre"].append(p["event"].is_complete())
            yield p["event"]
            p["got"].append((dict(p["event"].get_payload()), actor.env.now))
            yield UP.Wait(pause)


def signals(ctx, n, auto):
    """Every signal reaches the waiter that waits for it, with its payload."""
    with UP.EnvironmentContext() as env:
        ev = UP.Event(auto_reset=auto)
        begin = ctx.real("begin", 0, 10)
        pauses = [ctx.real(f"pause{k}", 0, 10) for k in range(n)] + [1000.0]
        p = {"begin": begin, "pauses": pauses, "event": ev, "got": [], "pre": []}
        UP.add_stage_variable("plan", p)
        a = Act(name="a", debug_log=False)
        Waiter().run(actor=a)
        times, vals, t = [], [], 0.0
        for k in range(n):
            t = t + ctx.real(f"gap{k}", 0, 10, lo_open=True)
            times.append(t)
            vals.append(ctx.real(f"val{k}", -5, 5))
        rejected = []

        def signaller():
            for k in range(n):
                yield env.timeout(times[k] - env.now)
                try:
                    ev.succeed(**{"val": vals[k], f"k{k}": k})
                except UP.SimulationError:
                    rejected.append(k)

        env.process(signaller())
        if auto:
            env.run(until=200)
        # reference
        ready, i, pending, got, rej = begin, 0, False, [], []
        for k in range(n):
            missed = times[k] < ready
            if times[k] == ready:
                # the order within this instant decides, and is_complete tells it
                ctx.assume(auto and not pending)
                missed = p["pre"][i]
                if not missed:
                    ctx.reach("same-instant")
            if missed:
                if pending:
                    rej.append(k)
                    ctx.reach("too-many")
                else:
                    pending = True
                    ctx.reach("missed")
                continue
            got.append(({"val": vals[k], f"k{k}": k}, times[k]))
            ctx.reach("received")
            ready = times[k] + pauses[i]
            i += 1
            pending = True  # until the waiter waits again
        if not auto:
            # once it has happened, waiting for it again is an error
            ctx.check_raises(UP.UpstageError, "no reset", env.run, until=200)
            ctx.reach("no-reset")
            if times[0] < begin:
                ctx.check(p["got"] == [], "already happened")
                ctx.eq(env.now, begin, "time of the error")
            else:
                ctx.eq(list(p["got"][0]), [{"val": vals[0], "k0": 0}, times[0]], "first wait")
                ctx.eq(env.now, times[0] + pauses[0], "time of the error")
            return
        ctx.check(len(p["got"]) == len(got), "every signal that was waited for is received")
        for g, w in zip(p["got"], got):
            ctx.eq(list(g), list(w), "payload and time")
        ctx.check(rejected == rej, "succeeding a completed event is an error")


def own(ctx):
    """Waiting for an event that succeeded in this very instant does not miss it."""
    with UP.EnvironmentContext() as env:
        ev = UP.Event()
        at, val = ctx.real("at", 0, 10), ctx.real("val", -5, 5)
        form = ctx.choice("form", ["alone", "any", "all"])
        got = []

        class Own(UP.Task):
            def task(self, *, actor):
                for k in range(2):
                    yield UP.Wait(at)
                    if ev.is_complete():
                        ev.reset()
                    ev.succeed(val=val + k)
                    if form == "alone":
                        yield ev
                    elif form == "any":
                        yield UP.Any(ev, UP.Wait(100.0))
                    else:
                        yield UP.All(UP.Wait(0.0), ev)
                    got.append((env.now, ev.is_complete(), dict(ev.get_payload())))

        Own().run(actor=Act(name="a", debug_log=False))
        env.run(until=50)
        ctx.eq(got, [(at, True, {"val": val}), (at + at, True, {"val": val + 1})],
               "an event that succeeds as it is waited for is received")


def shared(ctx, n):
    """One signal releases everyone who waits for it."""
    with UP.EnvironmentContext() as env:
        ev = UP.Event()
        at, val = ctx.real("at", 0, 10), ctx.real("val", -5, 5)
        got = {}

        class W(UP.Task):
            def task(self, *, actor):
                begin, limit = actor.stage.plan[actor.name]
                yield UP.Wait(begin)
                wait = UP.Wait(limit)
                yield UP.Any(ev, wait)
                got[actor.name] = (actor.env.now, ev.is_complete(), ev.get_payload())

        plan = {}
        UP.add_stage_variable("plan", plan)
        for i in range(n):
            begin, limit = ctx.real(f"b{i}", 0, 10), ctx.real(f"l{i}", 0, 20)
            ctx.assume(ctx.And(begin < at, ctx.Not(begin + limit == at)))
            plan[f"a{i}"] = (begin, limit)
            W().run(actor=Act(name=f"a{i}", debug_log=False))

        def sig():
            yield env.timeout(at)
            ev.succeed(val=val)

        env.process(sig())
        env.run(until=60)
        for i in range(n):
            begin, limit = plan[f"a{i}"]
            t, done, pay = got[f"a{i}"]
            ctx.eq(t, ctx.min(at, begin + limit), "released at the signal or the limit")
            if begin + limit < at:
                ctx.check(not done, "not complete before the signal")
            else:
                ctx.check(done, "complete after the signal")
                ctx.eq(pay, {"val": val}, "payload for everyone")


def interrupted(ctx, n, action):
    """Interrupting one who waits for an event is not a signal: neither for it nor for the others."""
    with UP.EnvironmentContext() as env:
        ev = UP.Event()
        at, val = ctx.real("at", 1, 10), ctx.real("val", -5, 5)
        got, plan, procs = {}, {}, []
        UP.add_stage_variable("plan", plan)

        class W(UP.Task):
            def task(self, *, actor):
                form, limit = actor.stage.plan[actor.name]
                if form == "alone":
                    yield ev
                elif form == "any":
                    yield UP.Any(ev, UP.Wait(limit))
                elif form == "all":
                    yield UP.All(UP.Wait(limit), ev)
                else:
                    yield UP.Any(UP.All(ev, UP.Wait(0.0)), UP.Wait(limit))
                got[actor.name] = (actor.env.now, ev.is_complete())

            def on_interrupt(self, *, actor, cause):
                return self.INTERRUPT[action]

        for i in range(n):
            plan[f"a{i}"] = (ctx.choice(f"form{i}", ["alone", "any", "all", "nested"]), ctx.real(f"l{i}", 0, 20, lo_open=True))
            procs.append(W().run(actor=Act(name=f"a{i}", debug_log=False)))
        t0 = ctx.real("t0", 0, 15, lo_open=True)
        ctx.assume(ctx.And(ctx.Not(t0 == at), *(ctx.Not(x == y) for _, x in plan.values() for y in (t0, at)),
                           *(ctx.Not(t0 + x == at) for _, x in plan.values())))

        def sig():
            yield env.timeout(at)
            ctx.check(not ev.is_complete(), "not complete before the signal")
            ev.succeed(val=val)

        def stop():
            yield env.timeout(t0)
            if procs[0].is_alive:
                procs[0].interrupt()
                ctx.reach("interrupted")

        env.process(sig())
        env.process(stop())
        env.run(until=60)
        reset = None
        for i in range(n):
            form, limit = plan[f"a{i}"]

            def end(start, fresh):
                """When the wait that starts then ends, if the signal is still to come or not."""
                sign = 1000.0 if fresh else at
                return {"alone": sign, "any": ctx.min(sign, start + limit), "nested": ctx.min(sign, start + limit),
                        "all": ctx.max(sign, start + limit)}[form]

            want = end(0.0, False)
            if i == 0 and t0 < want:
                if action == "END":
                    want = None
                elif action == "RESTART":
                    late = bool(t0 > at)
                    want = end(t0, late)
                    if late:
                        reset = t0
                    else:
                        ctx.reach("waits-again")
            if want is None or want > 60:
                ctx.check(f"a{i}" not in got, "still waiting, or stopped")
                continue
            ctx.eq(got[f"a{i}"][0], want, "time of the release")
            if reset is None or want < reset:
                ctx.check(got[f"a{i}"][1] == bool(want >= at), "complete exactly after the signal")
        if reset is None:
            ctx.check(ev.is_complete(), "the signal has happened")
            ctx.eq(ev.get_payload(), {"val": val}, "its payload")


def units(ctx):
    """A wait is converted from its unit to the unit of the stage."""
    rng = ctx.stub_random()
    with UP.EnvironmentContext(random_gen=rng) as env:
        base = ctx.choice("base", [None, "s", "min", "hr", "day", "week", "Hours"])
        unit = ctx.choice("unit", [None, *UNITS])
        if base is not None:
            UP.add_stage_variable("time_unit", base)
        t = ctx.real("t", 0, 1000)
        if ctx.choice("kind", ["wait", "random"]) == "wait":
            w, val = UP.Wait(t, unit), t
        else:
            hi = t + ctx.real("width", 0, 100)
            w = UP.Wait.from_random_uniform(t, hi, unit)
            ((lo2, hi2, val),) = rng.calls
            ctx.eq([lo2, hi2], [t, hi], "bounds of the draw")
            ctx.reach("random")
        want = val
        if unit is not None:  # the unit of the stage is hours unless it is set
            want = val * UNITS[unit] / UNITS[(base or "hr").lower()]
            ctx.reach("unit")
        out = []

        def go():
            yield w.as_event()
            out.append(env.now)

        env.process(go())
        env.run(until=1e10)
        ctx.near(out[0], want, 1e-9 * (1 + want), "length of the wait")


def bad(ctx):
    with UP.EnvironmentContext():
        t = ctx.real("t", -10, 10)
        if t < 0:
            ctx.check_raises(UP.SimulationError, "negative wait", UP.Wait, t)
            ctx.reach("negative")
        else:
            UP.Wait(t)
        ctx.check_raises(UP.SimulationError, "a wait needs a number", UP.Wait, [t, t])
        ctx.check_raises(Exception, "unknown unit", _unknown)


def _unknown():
    UP.add_stage_variable("time_unit", "hr")
    UP.Wait(1.0, "parsec")


def jobs(tier):
    out = [J(s, "tree", shape=s) for s in SHAPES]
    out += [J(f"sig{n}", "signals", n=n, auto=True) for n in (1, 2, 3, 4)]
    out += [J("once", "signals", n=1, auto=False), J("own", "own"),
            J("shared", "shared", n=2), J("units", "units"),
            J("bad", "bad"),
            *(J(f"int-{w}", "interrupted", n=2, action=w) for w in ("END", "RESTART", "IGNORE"))]
    if tier == "thorough":
        out += [J("sig6", "signals", n=6, auto=True), J("shared3", "shared", n=3)]
    return out
