"""C04: exclusive use of states, and a clean actor after any history of interrupts."""

import warnings

from simpy import Interrupt

from .common import UP, J

BOUNDS = ("two tasks with symbolic start and length competing for one state; up to 2 (thorough: 3) "
          "interrupts at symbolic times, each ending, restarting or ignored; two phases of "
          "symbolic length with their own markers; ties of an interrupt with the end of a phase "
          "are excluded where the outcome is not specified")
REACH = ["conflict", "no-conflict", "END", "RESTART", "IGNORE", "two-interrupts", "cleared",
         "default-action", "late", "told"]
STATES = UP.InterruptStates
ACTIONS = {"END": STATES.END, "RESTART": STATES.RESTART, "IGNORE": STATES.IGNORE}


class Worker(UP.Actor):
    x = UP.LinearChangingState()
    y = UP.LinearChangingState()
    loc = UP.CartesianLocationChangingState()


class Use(UP.Task):
    def task(self, *, actor):
        start, rate, dur, log = actor.stage.plan[self]
        yield UP.Wait(start)
        try:
            actor.activate_linear_state(state="x", rate=rate, task=self)
        except UP.SimulationError:
            log.append("refused")
            return
        log.append("got")
        yield UP.Wait(dur)
        actor.deactivate_state(state="x", task=self)
        log.append("done")


def locks(ctx, n):
    with UP.EnvironmentContext() as env:
        plan, logs, info = {}, [], []
        UP.add_stage_variable("plan", plan)
        x0 = ctx.real("x0", -10, 10)
        a = Worker(name="w", x=x0, y=0.0, loc=UP.CartesianLocation(0, 0, 0), debug_log=False)
        prev = 0.0
        for k in range(n):
            start = prev + ctx.real(f"start{k}", 0, 10)
            prev = start
            rate, dur = ctx.real(f"rate{k}", -5, 5), ctx.real(f"dur{k}", 0, 10)
            t, log = Use(), []
            plan[t] = (start, rate, dur, log)
            t.run(actor=a)
            logs.append(log)
            info.append((start, rate, dur))
        for i in range(n):
            for j in range(i + 1, n):
                # when one use ends exactly as another starts either order is fine
                ctx.assume(ctx.Not(info[i][0] + info[i][2] == info[j][0]))
        env.run(until=200)
        total, busy = x0, []
        for k, (start, rate, dur) in enumerate(info):
            free = ctx.all_of(start > e for e in busy)
            if free:
                ctx.check(logs[k] == ["got", "done"], "a free state can be used")
                busy.append(start + dur)
                total = total + rate * dur
                if k:
                    ctx.reach("no-conflict")
            else:
                ctx.check(logs[k] == ["refused"], "a used state cannot be taken by another task")
                ctx.reach("conflict")
        ctx.eq(a.x, total, "only the tasks that held the state changed it")
        ctx.eq(a.y, 0.0, "another state")


class Phases(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        self.clear_marker()
        yield UP.Wait(p["pre"])
        self.set_marker("a", p["default"]["a"])
        p["set_at"]["a"] = actor.env.now
        actor.activate_linear_state(state="x", rate=p["rx"], task=self)
        yield UP.Wait(p["d1"])
        self.set_marker("b", p["default"]["b"])
        p["set_at"]["b"] = actor.env.now
        actor.activate_linear_state(state="y", rate=p["ry"], task=self)
        yield UP.Wait(p["d2"])
        actor.deactivate_all_states(task=self)
        p["finished"].append(actor.env.now)


class Handled(Phases):
    def on_interrupt(self, *, actor, cause):
        p = actor.stage.plan
        p["calls"].append((actor.env.now, cause, self.get_marker(), self.get_marker_time(),
                           p["set_at"].get(self.get_marker())))
        return ACTIONS[cause]


def history(ctx, n, cls):
    """Any history of interrupts against an exact account of the task."""
    with UP.EnvironmentContext() as env:
        pre, d1, d2 = ctx.real("pre", 0, 5), ctx.real("d1", 0, 10), ctx.real("d2", 0, 10)
        rx, ry = ctx.real("rx", -5, 5), ctx.real("ry", -5, 5)
        default = {"a": STATES.END, "b": STATES.END}
        if cls == "Phases":
            for m in "ab":
                default[m] = ACTIONS[ctx.choice(f"act_{m}", list(ACTIONS))]
        p = {"pre": pre, "d1": d1, "d2": d2, "rx": rx, "ry": ry, "calls": [], "finished": [],
             "set_at": {}, "default": default}
        UP.add_stage_variable("plan", p)
        a = Worker(name="w", x=0.0, y=0.0, loc=UP.CartesianLocation(0, 0, 0), debug_log=False)
        task = Handled() if cls == "Handled" else Phases()
        proc = task.run(actor=a)
        ints, t = [], 0.0
        for k in range(n):
            t = t + ctx.real(f"gap{k}", 0, 20, lo_open=True)
            ints.append((t, ctx.choice(f"what{k}", list(ACTIONS)) if cls == "Handled" else "-"))

        def stopper():
            last = 0.0
            for when, what in ints:
                yield env.timeout(when - last)
                last = when
                if proc.is_alive:
                    proc.interrupt(cause=what)

        env.process(stopper())
        # the reference account
        start, alive, fx, fy, calls = 0.0, True, 0.0, 0.0, []
        end = None
        for when, what in ints:
            if not alive:
                continue
            m1, m2, m3 = start + pre, start + pre + d1, start + pre + d1 + d2
            ctx.assume(ctx.And(ctx.Not(when == m1), ctx.Not(when == m2), ctx.Not(when == m3)))
            if when > m3:
                ctx.reach("late")
                continue
            if when < m1:
                mark, mt, act = None, None, STATES.END
            elif when < m2:
                mark, mt, act = "a", m1, default["a"]
            else:
                mark, mt, act = "b", m2, default["b"]
            if cls == "Handled":
                act = ACTIONS[what]
                calls.append((when, what, mark, mt))
            else:
                ctx.reach("default-action")
            ctx.reach(act.name if act.name else "END")
            if act != STATES.IGNORE:
                fx = fx + rx * ctx.max(0, when - m1)
                fy = fy + ry * ctx.max(0, when - m2)
                if act == STATES.END:
                    alive, end = False, when
                else:
                    start = when
        if alive:
            fx, fy = fx + rx * (d1 + d2), fy + ry * d2
            end = start + pre + d1 + d2
        env.run(until=200)
        if cls == "Handled":
            ctx.check(len(p["calls"]) == len(calls), "the handler runs once per interrupt")
            for got, want in zip(p["calls"], calls):
                ctx.observe("call", [got[0], got[1], got[2]])
                ctx.eq(got[0], want[0], "handler time")
                ctx.check(got[1] == want[1] and got[2] == want[2], "handler cause and marker")
                if want[2] is None:
                    ctx.check(got[3] is None, "no marker time without a marker")
                    ctx.reach("cleared")
                else:
                    ctx.eq(got[3], want[3], "marker time")
            if len(calls) == 2:
                ctx.reach("two-interrupts")
        else:
            ctx.reach("two-interrupts")
        ctx.check(not proc.is_alive, "the task is over")
        ctx.check(len(p["finished"]) == (1 if alive else 0), "completes once or not at all")
        if alive:
            ctx.eq(p["finished"][0], end, "completion time")
        ctx.eq(a.x, fx, "x changed exactly while the task ran it")
        ctx.eq(a.y, fy, "y changed exactly while the task ran it")
        # nothing is left behind: every state can be used again
        other = Phases()
        for s in ("x", "y"):
            a.activate_linear_state(state=s, rate=1.0, task=other)
        env.run(until=203)
        ctx.eq(a.x, fx + 3, "x is usable")
        ctx.eq(a.y, fy + 3, "y is usable")
        a.deactivate_all_states(task=other)


def foreign(ctx):
    """A task cannot deactivate what it did not activate."""
    with UP.EnvironmentContext() as env:
        a = Worker(name="w", x=0.0, y=0.0, loc=UP.CartesianLocation(0, 0, 0), debug_log=False)
        t1, t2 = Use(), Use()
        r, d = ctx.real("r", -5, 5), ctx.real("d", 0, 5, lo_open=True)
        d2 = ctx.real("d2", 0, 5, lo_open=True)
        a.activate_linear_state(state="x", rate=r, task=t1)
        env.run(until=d)
        ctx.check_raises(Exception, "foreign deactivation", a.deactivate_state, state="x", task=t2)
        ctx.check_raises(Exception, "unknown state", a.activate_state, state="nope", task=t2, rate=r)
        a.deactivate_all_states(task=t2)
        a.activate_linear_state(state="y", rate=1.0, task=t2)
        ctx.check_raises(Exception, "foreign deactivation of several", a.deactivate_states, states=["x"], task=t2)
        ctx.check_raises(Exception, "a location that is still", a.deactivate_states, states=("loc",), task=t2)
        env.run(until=d + d2)
        ctx.eq(a.x, r * (d + d2), "the owner's change goes on")
        how = ctx.choice("how", ["one", "name", "list", "tuple", "any"])
        if how == "one":
            a.deactivate_state(state="x", task=t1)
        else:
            a.deactivate_states(states={"name": "x", "list": ["x"], "tuple": ("x",), "any": (s for s in "x")}[how], task=t1)
        ctx.check_raises(Exception, "second deactivation", a.deactivate_state, state="x", task=t1)
        ctx.check_raises(Exception, "second deactivation of several", a.deactivate_states, states=["x"], task=t1)
        if how == "list":
            a.activate_linear_state(state="x", rate=0.0, task=t2)
            a.deactivate_states(states=["y", "x"], task=t2)
            y = a.y
            env.run(until=d + d2 + 0.5)
            ctx.eq(a.y, y, "both are stopped")
        env.run(until=d + d2 + 1)
        ctx.eq(a.x, r * (d + d2), "stopped")


class Outside(UP.Task):
    """Waits for a plain simpy process."""

    def task(self, *, actor):
        p = actor.stage.plan
        p["begun"].append(actor.env.now)
        yield UP.Wait(p["pre"])
        actor.activate_linear_state(state="x", rate=p["rx"], task=self)
        got = yield actor.env.process(p["child"](len(p["begun"])))
        p["back"].append((got, actor.env.now))
        yield UP.Wait(p["post"])
        actor.deactivate_all_states(task=self)
        p["finished"].append(actor.env.now)

    def on_interrupt(self, *, actor, cause):
        return ACTIONS[cause[0]]


def process(ctx, n):
    """A plain process that a task waits for hears of the interrupts that end the wait."""
    with UP.EnvironmentContext() as env:
        pre, dur, post = ctx.real("pre", 0, 5), ctx.real("dur", 0, 10, lo_open=True), ctx.real("post", 0, 5)
        rx = ctx.real("rx", -5, 5)
        heard, ran = [], []

        def child(k):
            try:
                yield env.timeout(dur)
            except Interrupt as e:
                heard.append((k, e.cause, env.now))
                return "cut"
            ran.append((k, env.now))
            return ("value", k)

        p = {"pre": pre, "post": post, "rx": rx, "begun": [], "back": [], "finished": [], "child": child}
        UP.add_stage_variable("plan", p)
        a = Worker(name="w", x=0.0, y=0.0, loc=UP.CartesianLocation(0, 0, 0), debug_log=False)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            proc = Outside().run(actor=a)
            ints, t = [], 0.0
            for k in range(n):
                t = t + ctx.real(f"gap{k}", 0, 20, lo_open=True)
                ints.append((t, (ctx.choice(f"what{k}", list(ACTIONS)), k)))

            def stopper():
                for when, what in ints:
                    yield env.timeout(when - env.now)
                    if proc.is_alive:
                        proc.interrupt(cause=what)

            env.process(stopper())
            start, alive, want, fx, count = 0.0, True, [], 0.0, 1
            for when, what in ints:
                m1, m2 = start + pre, start + pre + dur
                m3 = m2 + post
                ctx.assume(ctx.And(ctx.Not(when == m1), ctx.Not(when == m2), ctx.Not(when == m3)))
                if not alive or when > m3:
                    break
                if what[0] == "IGNORE":
                    continue
                fx = fx + rx * ctx.max(0, when - m1)
                if m1 < when and when < m2:
                    want.append((count, what, when))
                    ctx.reach("told")
                if what[0] == "END":
                    alive = False
                else:
                    start, count = when, count + 1
            env.run(until=200)
        ctx.check(len(heard) == len(want), "the process is interrupted with its task")
        for got, exp in zip(heard, want):
            ctx.check(got[0] == exp[0] and got[1] == exp[1], "the process gets the cause")
            ctx.eq(got[2], exp[2], "in the instant of the interrupt")
        ctx.check(len(p["begun"]) == count, "restarts")
        ctx.check(len(p["finished"]) == (1 if alive else 0), "completes once or not at all")
        if alive:
            fx = fx + rx * (dur + post)
            ctx.eq(p["finished"][0], start + pre + dur + post, "completion time")
            ctx.check(p["back"][-1][0] == ("value", count), "the task gets the value of the process")
            ctx.eq(p["back"][-1][1], start + pre + dur, "when the process ends")
        ctx.eq(a.x, fx, "the state changed while the task ran it")


def jobs(tier):
    out = [J("locks2", "locks", n=2), J("locks3", "locks", n=3),
           J("handled1", "history", n=1, cls="Handled"), J("handled2", "history", n=2, cls="Handled"),
           J("default1", "history", n=1, cls="Phases"), J("default2", "history", n=2, cls="Phases"),
           J("foreign", "foreign"), J("process1", "process", n=1), J("process2", "process", n=2)]
    if tier == "thorough":
        out += [J("locks4", "locks", n=4), J("handled3", "history", n=3, cls="Handled"),
                J("default3", "history", n=3, cls="Phases")]
    return out
