"""C27: routines run inside their task as if written there, and clean up after themselves."""

from .common import UP, J
import simpy as SIM

BOUNDS = ("a task of two routines of two or three steps each (waits and gets of symbolic length and arrival times) "
          "and a wait between them, up to 1 (thorough: 2) interrupts at symbolic times which end, restart or are "
          "ignored; windowed gets of up to 4 (thorough: 5) items at symbolic times with a symbolic window, with and "
          "without reset, in three time units, and up to 1 (thorough: 2) interrupts; two tasks sharing a store; up to 3 (thorough: 4) "
          "interrupts of which the later ones can come while a routine is being cancelled")
REACH = ["END", "RESTART", "IGNORE", "in-routine", "between", "after", "returned-nothing", "window-closed",
         "window-empty", "kept-open", "put-back", "late-item", "rehearsed", "refused", "unit",
         "same-instant", "late"]
ASSUMPTIONS = ["an interrupt, an arrival and the end of a step or window never fall on the same instant "
               "(interrupts can fall on the same instant as each other)"]
STATES = UP.InterruptStates
ACTIONS = {"END": STATES.END, "RESTART": STATES.RESTART, "IGNORE": STATES.IGNORE}


class Worker(UP.Actor):
    x = UP.LinearChangingState(default=0.0)


class Steps(UP.Routine):
    """Waits and gets, returning the items to their stores when cancelled."""

    def __init__(self, steps, log, value):
        super().__init__()
        self.steps, self.log, self.value, self.got = steps, log, value, []

    def run(self):
        for kind, what in self.steps:
            if kind == "wait":
                yield UP.Wait(what)
            else:
                evt = UP.Get(what)
                yield evt
                self.got.append((what, evt.get_value()))
        if self.value == "items":
            return [item for _, item in self.got]
        return self.value

    def cancel(self):
        self.log.append(("cancel", self, self.env.now))
        while self.got:
            store, item = self.got.pop()
            yield UP.Put(store, item)


class Job(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        log = p["log"]
        log.append(("start", None, actor.env.now))
        actor.activate_linear_state(state="x", rate=1.0, task=self)
        one = Steps([("wait", p["d0"]), ("get", p["s0"])], log, p["value"])
        log.append(("result", (yield one), actor.env.now))
        log.append(("result", (yield UP.Wait(p["d1"])), actor.env.now))
        two = Steps([("get", p["s1"]), ("wait", p["d2"])], log, "items")
        log.append(("result", (yield two), actor.env.now))
        actor.deactivate_state(state="x", task=self)

    def on_interrupt(self, *, actor, cause):
        return ACTIONS[cause]


def delayed(env, store, item, when):
    yield env.timeout(when)
    yield store.put(item)


def interrupts(ctx, env, proc, ints):
    last = 0.0
    for when, what in ints:
        yield env.timeout(when - last)
        last = when
        if proc.is_alive:
            proc.interrupt(cause=what)


def sequence(ctx, n, value="v", early=None, whats=None):
    """Any history of interrupts of a task made of routines."""
    with UP.EnvironmentContext() as env:
        s0, s1 = SIM.Store(env), SIM.Store(env)
        d0, d1, d2 = (ctx.real(f"d{i}", 0, 6) for i in range(3))
        a0, b0, a1 = 0.0, 0.0, 0.0
        if early != 0:
            a0, b0 = ctx.real("a0", 0, 15), ctx.real("b0", 0, 10)
        if early != 1:
            a1 = ctx.real("a1", 0, 25)
        p = {"log": [], "d0": d0, "d1": d1, "d2": d2, "s0": s0, "s1": s1, "value": value}
        UP.add_stage_variable("plan", p)
        env.process(delayed(env, s0, "A", a0))
        env.process(delayed(env, s0, "B", a0 + b0))
        env.process(delayed(env, s1, "C", a1))
        actor = Worker(name="w", debug_log=False)
        proc = Job().run(actor=actor)
        ints, t = [], 0.0
        for k in range(n):
            t = t + ctx.real(f"gap{k}", 0, 30, lo_open=True)
            ints.append((t, ctx.choice(f"what{k}", whats or list(ACTIONS))))
        env.process(interrupts(ctx, env, proc, ints))
        # the reference account
        in0, in1 = [("A", a0), ("B", a0 + b0)], [("C", a1)]
        want, todo, start, alive, x, xs = [], list(ints), 0.0, True, 0.0, None
        while alive is True:
            want.append(("start", None, start))
            one = (lambda v: [in0[0][0]] if v == "items" else v)(value)
            e0 = start + d0
            e1 = ctx.max(e0, in0[0][1]) if in0 else None
            e2 = e1 + d1 if in0 else None
            e3 = ctx.max(e2, in1[0][1]) if in0 else None
            e4 = e3 + d2 if in0 else None
            ends = [e0] + ([e1, e2, e3, e4] if in0 else [])
            stop, ignored = None, []
            while todo:
                when, what = todo[0]
                for e in ends:
                    ctx.assume(ctx.Not(when == e))
                ctx.assume(ctx.And(ctx.Not(when == a0), ctx.Not(when == a0 + b0), ctx.Not(when == a1)))
                if in0 and when > e4:
                    ctx.reach("after")
                    break
                todo.pop(0)
                ctx.reach(what)
                if what != "IGNORE":
                    stop = when
                    break
            if stop is None:
                if in0:
                    want += [("result", one, e1), ("result", None, e2), ("result", ["C"], e4)]
                    x = x + (e4 - start)
                    in0.pop(0)
                    in1.pop(0)
                    if value is None:
                        ctx.reach("returned-nothing")
                    alive = "done"
                else:
                    alive, xs = "stuck", start
                break
            x = x + (stop - start)
            if not in0 or stop < e1:
                want.append(("cancel", None, stop))
                ctx.reach("in-routine")
            else:
                want.append(("result", one, e1))
                taken = in0.pop(0)
                if stop < e2:
                    ctx.reach("between")
                else:
                    want.append(("result", None, e2))
                    want.append(("cancel", None, stop))
                    if stop > e3:
                        in1 = [("C", stop)]
                        ctx.reach("put-back")
            if what == "END":
                alive = False
            else:
                start = stop
        env.run(until=300)
        log = p["log"]
        ctx.check(len(log) == len(want), "what happened, and nothing else")
        for got, exp in zip(log, want):
            ctx.check(got[0] == exp[0], "order of events")
            ctx.eq(got[2], exp[2], "time of events")
            if exp[0] == "result":
                ctx.check(got[1] == exp[1], "the value a routine returns")
        ctx.check(proc.is_alive == (alive == "stuck"), "the task is over")
        if alive == "stuck":
            x = x + (300 - xs)
        ctx.eq(actor.x, x, "the state of the task")
        ctx.check(s0.items == [i for i, _ in in0] and s1.items == [i for i, _ in in1], "nothing is lost or taken")
        if alive != "stuck":
            ctx.check(not s0.get_queue and not s1.get_queue, "no request is left behind")


class Window(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        routine = UP.WindowedGet(p["store"], p["timeout"], timeout_unit=p["unit"], reset_window=p["reset"])
        answer = yield routine
        p["log"].append((answer, actor.env.now, routine))

    def on_interrupt(self, *, actor, cause):
        return ACTIONS[cause]


UNITS = {None: 1.0, "s": 1 / 60, "min": 1.0, "hr": 60.0}


def window(ctx, items, n, units=(None,)):
    """A windowed get takes what arrives before its window closes, and no more."""
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("time_unit", "min")
        store = SIM.Store(env)
        unit = ctx.choice("unit", list(units))
        timeout = ctx.real("timeout", 0, 10, lo_open=True)
        span = timeout * UNITS[unit]
        reset = bool(ctx.bool("reset"))
        p = {"store": store, "timeout": timeout, "unit": unit, "reset": reset, "log": []}
        UP.add_stage_variable("plan", p)
        t, arrivals = 0.0, []
        for i in range(items):
            t = t + ctx.real(f"gap{i}", 0, 12)
            arrivals.append((f"i{i}", t))
            env.process(delayed(env, store, f"i{i}", t))
        actor = Worker(name="w", debug_log=False)
        proc = Window().run(actor=actor)
        ints, t = [], 0.0
        for k in range(n):
            t = t + ctx.real(f"igap{k}", 0, 30, lo_open=True)
            ints.append((t, ctx.choice(f"what{k}", list(ACTIONS))))
        env.process(interrupts(ctx, env, proc, ints))
        queue, start, todo, result, end, stuck = list(arrivals), 0.0, list(ints), None, None, False
        while True:
            taken, deadline, k = [], None, 0
            for item, when in queue:
                got = ctx.max(start, when)
                if deadline is not None:
                    ctx.assume(ctx.Not(got == deadline))
                    if got > deadline:
                        break
                if deadline is None or reset:
                    deadline = got + span
                taken.append((item, got))
            stop = None
            while todo:
                when, what = todo[0]
                if deadline is not None:
                    ctx.assume(ctx.Not(when == deadline))
                    if when > deadline:
                        break
                for _, at in arrivals:
                    ctx.assume(ctx.Not(when == at))
                todo.pop(0)
                ctx.reach(what)
                if what != "IGNORE":
                    stop = when
                    break
            if stop is None:
                if deadline is None:
                    stuck = True
                    ctx.reach("window-empty")
                else:
                    result, end = [i for i, _ in taken], deadline
                    queue = queue[len(taken):]
                    if unit not in (None, "min"):
                        ctx.reach("unit")
                    ctx.reach("window-closed")
                    if queue:
                        ctx.reach("late-item")
                    if len(taken) > 2 and reset:
                        ctx.reach("kept-open")
                break
            # what was taken goes back behind what is there
            held = [i for i, g in taken if g < stop]
            rest = [(i, w) for i, w in queue if i not in held]
            if held:
                ctx.reach("put-back")
            queue = [(i, stop) for i in held] + rest
            if what == "END":
                break
            start = stop
        env.run(until=2000)
        ctx.check(proc.is_alive == stuck, "over when its window is")
        ctx.check(len(p["log"]) == (result is not None), "answers once or not at all")
        if result is not None:
            answer, when, routine = p["log"][0]
            ctx.check(answer == result and routine.result == result, "the items of the window")
            ctx.eq(when, end, "the end of the window")
        ctx.check(store.items == [i for i, _ in queue], "the other items stay")
        if not stuck:
            ctx.check(not store.get_queue, "no request is left behind")


def two(ctx, items):
    """Two windows on one store share its items: none is lost or taken twice."""
    with UP.EnvironmentContext() as env:
        store, logs, procs = SIM.Store(env), [], []
        actor = Worker(name="w", debug_log=False)
        arrivals, t = [], 0.0
        spans = [ctx.real(f"timeout{k}", 0, 5, lo_open=True) for k in range(2)]
        resets = [bool(ctx.bool(f"reset{k}")) for k in range(2)]

        class One(UP.Task):
            def task(self, *, actor):
                answer = yield UP.WindowedGet(store, spans[self.k], reset_window=resets[self.k])
                logs.append((self.k, answer, actor.env.now))

            def on_interrupt(self, *, actor, cause):
                return STATES.END

        for i in range(items):
            t = t + ctx.real(f"gap{i}", 0, 5, lo_open=True)
            arrivals.append(t)
            env.process(delayed(env, store, i, t))
        for k in range(2):
            task = One()
            task.k = k
            procs.append(task.run(actor=actor))
        stop = ctx.real("stop", 0, 20, lo_open=True)
        for a in arrivals:
            ctx.assume(ctx.Not(stop == a))
            for d in spans:
                for b in arrivals:
                    ctx.assume(ctx.Not(b == a + d))
                ctx.assume(ctx.And(ctx.Not(stop == a + d), ctx.Not(a == stop + d)))
        env.process(interrupts(ctx, env, procs[0], [(stop, "END")]))
        # the waiting windows are served in order, one item each time
        line, got, dead, back, ends = [0, 1], {0: [], 1: []}, {}, [], {}

        def close(now):
            for k in sorted(dead, key=lambda k: k):
                if k in dead and dead[k] < now:
                    ends[k] = dead.pop(k)
                    line.remove(k)

        def give(item, when):
            if not line:
                back.append(item)
                return
            k = line.pop(0)
            got[k].append(item)
            if k not in dead or resets[k]:
                dead[k] = when + spans[k]
            line.append(k)

        stopped = False
        for i, when in enumerate(arrivals):
            if not stopped and stop < when:
                stopped = True
                close(stop)
                halt(0, line, dead, got, give, stop)
            close(when)
            give(i, when)
        if not stopped:
            close(stop)
            halt(0, line, dead, got, give, stop)
        ends.update(dead)
        env.run(until=100)
        final = {k: (a, w) for k, a, w in logs}
        ctx.check(sorted(final) == sorted(ends) and len(logs) == len(ends), "the windows that close")
        for k, end in ends.items():
            ctx.check(final[k][0] == got[k], "the items of each window")
            ctx.eq(final[k][1], end, "the end of each window")
        ctx.check(store.items == back, "the other items stay")


def halt(k, line, dead, got, give, when):
    """A window that is interrupted puts its items back, to be taken by the others."""
    if k not in line:
        return
    line.remove(k)
    dead.pop(k, None)
    for item in got.pop(k):
        give(item, when)


class Plain(UP.Routine):
    def __init__(self, steps, value):
        self.steps, self.value = steps, value

    def run(self):
        for s in self.steps:
            yield s()
        return self.value


class Own(Plain):
    def rehearse(self):
        t, _ = super().rehearse()
        return t, self.value


class Rehearsed(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        for r in p["routines"]:
            value = yield r()
            self.set_actor_knowledge(actor, "got", value, overwrite=True)
            actor.got = actor.got + [value]
        yield UP.Wait(p["d"])


class Rehearser(UP.Actor):
    got = UP.State(default_factory=list)


def rehearsal(ctx):
    """A rehearsed routine takes the time of its events and touches nothing real."""
    start = ctx.real("start", 0, 5)
    with UP.EnvironmentContext(initial_time=start) as env:
        store = SIM.Store(env)
        d, w, r, g = (ctx.real(k, 0, 10) for k in ("d", "w", "r", "g"))
        item = object()
        store.put(item)
        env.run(until=start + 1)
        own = bool(ctx.bool("own"))
        timed = bool(ctx.bool("timed"))
        value = ctx.choice("value", ["v", 0, None])

        def wait():
            return UP.Wait(w, rehearsal_time_to_complete=r) if timed else UP.Wait(w)

        def get():
            return UP.Get(store, rehearsal_time_to_complete=g)

        def window():
            return UP.WindowedGet(store, w, get_kwargs={"rehearsal_time_to_complete": g})

        order = ctx.choice("order", ["plain", "window", "both"])
        routines = []
        if order != "window":
            routines.append(lambda: (Own if own else Plain)([wait, get], value))
        if order != "plain":
            routines.append(window)
        UP.add_stage_variable("plan", {"d": d, "routines": routines})
        a = Rehearser(name="a", debug_log=False)
        c = Rehearsed().rehearse(actor=a)
        t, want = start + 1, []
        if order != "window":
            t = t + (r if timed else w) + g
            want.append(value if own else None)
        if order != "plain":
            t = t + g
            want.append([UP.PLANNING_FACTOR_OBJECT])
        ctx.eq(c.env.now, t + d, "rehearsed time")
        ctx.check(len(c.got) == len(want) and all(x == y for x, y in zip(c.got, want)), "rehearsed values")
        ctx.check(a.got == [] and a.get_knowledge("got") is None, "the actor is unchanged")
        ctx.eq(env.now, start + 1, "the real clock")
        env.run(until=start + 2)
        ctx.check(store.items == [item] and not store.get_queue, "the real store is unchanged")
        ctx.reach("rehearsed")


def refused(ctx):
    """Only the library's events can be used in a routine."""
    with UP.EnvironmentContext() as env:
        what = ctx.choice("what", ["timeout", "process", "routine", "number", "no run"])
        t = ctx.real("t", 0, 5)

        def bad():
            if what == "timeout":
                return env.timeout(t)
            if what == "process":
                return env.process(delayed(env, SIM.Store(env), 1, t))
            if what == "routine":
                return Plain([lambda: UP.Wait(t)], None)
            return t

        class Use(UP.Task):
            def task(self, *, actor):
                yield UP.Routine() if what == "no run" else Plain([lambda: UP.Wait(t), bad], None)

        Use().run(actor=Worker(name="w", debug_log=False))
        ctx.check_raises(NotImplementedError if what == "no run" else UP.SimulationError, "refused", env.run)
        if what != "no run":
            ctx.eq(env.now, t, "when it is reached")
        ctx.reach("refused")


class Hold(UP.Task):
    """Holds an item until it is interrupted."""

    def task(self, *, actor):
        p = actor.stage.plan
        p["log"].append(("start", actor.env.now))
        yield Steps([("get", p["store"]), ("wait", 500.0)], [], None)

    def on_interrupt(self, *, actor, cause):
        actor.stage.plan["log"].append((cause, actor.env.now))
        return ACTIONS[cause]


def again(ctx, first, n):
    """Interrupts that come while a routine puts its item back reach the restarted task."""
    with UP.EnvironmentContext() as env:
        store = SIM.Store(env, capacity=1)
        p = {"log": [], "store": store}
        UP.add_stage_variable("plan", p)
        proc = Hold().run(actor=Worker(name="w", debug_log=False))
        env.process(delayed(env, store, "mine", 0.0))
        full = ctx.choice("full", [False, True])
        t0 = ctx.real("t0", 2, 10)
        room = ctx.real("room", 2, 20) if full else 0.0
        if full:
            env.process(delayed(env, store, "other", 1.0))
        ints = [(t0, first)]
        for k in range(n):
            now = ctx.choice(f"same{k}", [True, False])
            ints.append((ints[-1][0] + (0.0 if now else ctx.real(f"gap{k}", 0, 10, lo_open=True)),
                         ctx.choice(f"what{k}", list(ACTIONS))))

        def take():
            yield env.timeout(room)
            ctx.check((yield store.get()) == "other", "the other item was there first")

        def interrupt():
            last = 0.0
            for k, (when, what) in enumerate(ints):
                if k == 0 or when > last:
                    yield env.timeout(when - last)
                last = when
                if proc.is_alive:
                    proc.interrupt(cause=what)

        if full:
            env.process(take())
        env.process(interrupt())
        want, alive, since, last = [("start", 0.0)], True, 0.0, None
        for when, what in ints:
            ctx.assume(ctx.Not(when == room))
            if last is not None and last == when:
                ctx.reach("same-instant")
            if when < since:
                ctx.reach("late")
            last, at = when, ctx.max(when, since)
            want.append((what, at))
            if what == "IGNORE":
                continue
            if what == "END":
                alive = False
                break
            since = ctx.max(at, room)
            want.append(("start", since))
        env.run(until=100)
        log = p["log"]
        ctx.check(len(log) == len(want), "what happened, and nothing else")
        for got, exp in zip(log, want):
            ctx.check(got[0] == exp[0], "order of events")
            ctx.eq(got[1], exp[1], "time of events")
        ctx.check(proc.is_alive == alive, "the task runs on unless it was ended")
        ctx.check(store.items == ([] if alive else ["mine"]), "the item is back, or held again")
        ctx.check(not store.get_queue and not store.put_queue, "no request is left behind")


def jobs(tier):
    deep = tier == "thorough"
    out = [J(f"seq0-{v}", "sequence", n=0, value=v) for v in ("v", None, "items")]
    # an interrupt, with the items of the second, or of the first, routine there from the start
    out += [J(f"seq1-{w}-{e}", "sequence", n=1, value="items", early=e, whats=[w]) for w in ACTIONS for e in (0, 1)]
    out += [J("window", "window", items=5 if deep else 4, n=0, units=[None, "s", "min", "hr"]),
            J("window-int", "window", items=3, n=1), J("window-idle", "window", items=0, n=1),
            J("two", "two", items=3 if deep else 2),
            *(J(f"again-{w}", "again", first=w, n=3 if deep else 2) for w in ACTIONS),
            J("rehearsal", "rehearsal"), J("refused", "refused")]
    if deep:
        out += [J(f"seq1-{v}-{w}", "sequence", n=1, value=v, whats=[w]) for v in ("v", None, "items") for w in ACTIONS]
        out += [J(f"seq2-{w}-{x}", "sequence", n=2, value="items", early=0, whats=[w, x]) for w, x in
                (("RESTART", "RESTART"), ("RESTART", "END"), ("IGNORE", "RESTART"))]
        out += [J("window-int2", "window", items=3, n=2), J("window-int4", "window", items=4, n=1)]
    return out
