"""C09: a rehearsal predicts what would happen and leaves the simulation alone."""

from simpy import Container, Store

from .common import UP, J

BOUNDS = ("event trees of up to 4 events nested twice with symbolic planned times; a task of 3 phases with "
          "symbolic rates, speeds, lengths and rehearsal time; networks of up to 3 (thorough: 4) tasks with "
          "any queue decision; the same simulation run with and without rehearsals")
REACH = ["any", "late-part", "nested-done", "failed", "not-allowed", "mid-task", "queue-used",
         "default-used", "end-task", "rich"]


class Act(UP.Actor):
    fuel = UP.LinearChangingState(recording=True)
    loc = UP.CartesianLocationChangingState(recording=True)
    count = UP.State(default=0.0, recording=True)
    bag = UP.State(default_factory=list)


SHAPES = {
    "1": lambda e: e(0),
    "any2": lambda e: ("any", e(0), e(1)),
    "all2": lambda e: ("all", e(1), e(2)),
    "any(all,e)": lambda e: ("any", ("all", e(0), e(1)), e(2)),
    "all(any,e)": lambda e: ("all", ("any", e(1), e(3)), e(0)),
    "any(any,all)": lambda e: ("any", ("any", e(0), e(1)), ("all", e(2), e(3))),
    "all(any,all)": lambda e: ("all", ("any", e(3), e(1)), ("all", e(2), e(0))),
}


def tree(ctx, shape):
    """Planned time of nested events, and which of their parts count as complete."""
    with UP.EnvironmentContext() as env:
        start = ctx.real("start", 0, 5)
        env.run(until=start) if start > 0 else None
        store, tank = Store(env), Container(env, init=3.0)
        a = Act(name="a", fuel=0.0, loc=UP.CartesianLocation(0, 0), debug_log=False)
        times, nodes, out = {}, [], {}

        def leaf(i):
            times[i] = ctx.real(f"t{i}", 0, 10)
            return i

        plan = SHAPES[shape](leaf)

        def build(n):
            if isinstance(n, int):
                t = times[n]
                ev = [lambda: UP.Wait(100.0, rehearsal_time_to_complete=t),
                      lambda: UP.Event(rehearsal_time_to_complete=t),
                      lambda: UP.Get(store, rehearsal_time_to_complete=t),
                      lambda: UP.Put(tank, 1.0, rehearsal_time_to_complete=t)][n]()
            else:
                kids = [build(k) for k in n[1:]]
                if n[0] == "any":
                    ev, t = UP.Any(*[k[0] for k in kids]), ctx.min(*[k[1] for k in kids])
                    ctx.reach("any")
                else:
                    ev, t = UP.All(*[k[0] for k in kids]), ctx.max(*[k[1] for k in kids])
            nodes.append((ev, t, n))
            return ev, t

        class T(UP.Task):
            def task(self, *, actor):
                top, out["t"] = build(plan)
                yield top
                out["now"] = self.env.now
                out["done"] = [(e.is_complete(), t, n) for e, t, n in nodes]
                for e, t, n in nodes:
                    if n == 2 and e.is_complete():
                        ctx.check(e.get_value() is UP.PLANNING_FACTOR_OBJECT, "planned value of a get")

        clone = T().rehearse(actor=a)
        ctx.eq(out["now"], start + out["t"], "planned time of the event")
        ctx.eq(clone.env.now, start + out["t"], "time of the rehearsed actor")
        ctx.eq(env.now, start, "real time has not moved")
        for done, t, n in out["done"]:
            late = t > out["t"]
            ctx.check(ctx.Implies(late, not done), "a later part is not complete")
            ctx.check(ctx.Or(late, done), "an earlier part is complete")
            if late:
                ctx.reach("late-part")
            elif isinstance(n, int) and shape not in ("1", "any2", "all2"):
                ctx.reach("nested-done")
        ctx.check(store.items == [] and len(store.get_queue) == 0 and tank.level == 3.0, "stores untouched")


class Phases(UP.Task):
    """Burns fuel while moving, works, and burns again."""

    def task(self, *, actor):
        p = actor.stage.plan
        p["starts"].append(self.env.now)
        goal = self.get_actor_knowledge(actor, "goal", must_exist=True)
        actor.activate_linear_state(state="fuel", rate=p["rate"], task=self)
        actor.activate_location_state(state="loc", speed=p["speed"], waypoints=[goal], task=self)
        yield UP.Wait((goal - actor.loc) / p["speed"])
        actor.deactivate_all_states(task=self)
        actor.count += 1
        actor.bag.append(self.env.now)
        actor.log("there")
        yield UP.All(UP.Wait(p["work"]), UP.Wait(1.0))
        if p.get("fail") and self._rehearsing:
            raise UP.SimulationError("cannot do that")
        actor.activate_linear_state(state="fuel", rate=-p["rate"], task=self)
        yield UP.Wait(p["last"])
        actor.deactivate_state(state="fuel", task=self)
        self.set_actor_knowledge(actor, "finished", self.env.now, overwrite=True)


class Chores(UP.Task):
    """Uses up a list it knows of."""

    def task(self, *, actor):
        chores = self.get_actor_knowledge(actor, "chores", must_exist=True)
        while chores:
            dur = chores.pop(0)
            yield UP.Wait(dur)
            actor.fuel = actor.fuel + dur
        actor.set_knowledge("left", len(chores), overwrite=True)


def chores(ctx, net):
    """Knowledge that a rehearsal uses up, given to it or the actor's own, is still there afterwards."""
    with UP.EnvironmentContext() as env:
        durs = [ctx.real(f"d{i}", 0, 5) for i in range(ctx.choice("n", [1, 3]))]
        given, both = ctx.choice("given", [True, False]), ctx.choice("both", [False, True])
        own, plan = list(durs) if not given or both else None, list(durs)
        a = Act(name="a", fuel=1.0, loc=goal_loc(0.0), initial_knowledge=None if own is None else {"chores": own},
                debug_log=False)
        if net:
            a.add_task_network(UP.TaskNetworkFactory.from_single_terminating("net", Chores).make_network())
        for _ in range(2):
            know = {"chores": plan} if given else {}
            if net:
                c = a.rehearse_network("net", ["Chores"], knowledge=know)
            else:
                c = Chores().rehearse(actor=a, knowledge=know)
            ctx.eq([c.fuel, c.env.now], [1.0 + ctx.sum(durs), ctx.sum(durs)], "what the rehearsal predicts")
            ctx.check(c.get_knowledge("left") == 0 and c.get_knowledge("chores") == [], "used up by the clone")
            ctx.eq(plan, durs, "what was given is as it was")
            ctx.check(know == ({"chores": plan} if given else {}), "what was given is as it was")
            if own is not None:
                ctx.eq(own, durs, "the knowledge of the actor is as it was")
                ctx.check(a.get_knowledge("chores") is own, "the knowledge of the actor is as it was")
        ctx.eq([a.fuel, env.now], [1.0, 0.0], "nothing has happened")


def goal_loc(x):
    return UP.CartesianLocation(x, 0.0)


def summary(a):
    """Everything there is to know about an actor."""
    return {"now": a.env.now, "fuel": a.fuel, "loc": [a.loc.x, a.loc.y], "count": a.count,
            "bag": list(a.bag), "finished": a.get_knowledge("finished")}


def history(a):
    out = {}
    for k, h in a._state_histories.items():
        out[k] = [(t, [v.x, v.y] if hasattr(v, "x") else getattr(v, "name", v)) for t, v in h]
    return out


def predict(ctx, given):
    """The rehearsed actor ends as the real one does later."""
    with UP.EnvironmentContext() as env:
        p = {"rate": ctx.real("rate", -3, 3), "speed": ctx.real("speed", 0.5, 4),
             "work": ctx.real("work", 0, 5), "last": ctx.real("last", 0, 5), "starts": []}
        UP.add_stage_variable("plan", p)
        x0, x1, f0 = ctx.real("x0", -5, 0), ctx.real("x1", 0, 5), ctx.real("f0", -5, 5)
        know = {"goal": goal_loc(x1)}
        a = Act(name="a", fuel=f0, loc=goal_loc(x0), initial_knowledge=None if given else dict(know),
                debug_log=False)
        start = ctx.real("start", 0, 5, lo_open=True)
        env.run(until=start)
        before, hist = summary(a), history(a)
        group = list(UP.UpstageBase().get_actors())
        task = Phases()
        clone = task.rehearse(actor=a, knowledge=dict(know) if given else None)
        ctx.check(clone is not a and clone.name != a.name, "a rehearsal uses another actor")
        ctx.eq(summary(a), before, "the actor is unchanged")
        ctx.eq(history(a), hist, "its histories are unchanged")
        ctx.check(UP.UpstageBase().get_actors() == group, "the clone is not part of the simulation")
        ctx.check((a.get_knowledge("goal") is not None) == (not given), "extra knowledge is for the clone")
        ctx.eq(clone.env.now, start + (x1 - x0) / p["speed"] + ctx.max(p["work"], 1.0) + p["last"],
               "planned time")
        again = Phases().rehearse(actor=a, knowledge=dict(know) if given else None)
        ctx.eq(summary(again), summary(clone), "a rehearsal can be repeated")
        ctx.check(len({a.name, clone.name, again.name}) == 3, "names of clones differ")
        if given:
            a.set_knowledge("goal", know["goal"])
        proc = task.run(actor=a)
        env.run(until=proc)
        ctx.eq(summary(a), summary(clone), "what was rehearsed is what happens")
        ctx.eq(p["starts"], [start, start, start], "start times")
        real = history(a)
        for k, h in history(clone).items():
            ctx.check(k in real, "history of the clone")
            ctx.eq(h[0], real[k][0], "the clone knows the past")
            ctx.eq(h[-1], real[k][-1], "and predicts the last entry")


def undisturbed(ctx, fail, net):
    """The same simulation with and without a rehearsal in the middle of a task."""
    rate, speed = ctx.real("rate", -3, 3), ctx.real("speed", 0.5, 4)
    work, last = ctx.real("work", 0, 5), 1.0
    x1, at = ctx.real("x1", 0, 5), ctx.real("at", 0, 20)
    results = []
    for rehearsing in (False, True):
        with UP.EnvironmentContext() as env:
            p = {"rate": rate, "speed": speed, "work": work, "last": last, "starts": []}
            UP.add_stage_variable("plan", p)
            a = Act(name="a", fuel=1.0, loc=goal_loc(0.0), initial_knowledge={"goal": goal_loc(x1)},
                    debug_log=True, debug_log_time=False)
            a.log("made")
            log = []
            if net:
                fac = UP.TaskNetworkFactory.from_ordered_terminating("net", [Phases, Sleep])
                a.add_task_network(fac.make_network())
                a.start_network_loop("net", "Phases")
            else:
                Phases().run(actor=a)
            # a task ends at the instant of the probe: the order is not the point here
            ctx.assume(ctx.Not(ctx.Or(at == x1 / speed, at == x1 / speed + ctx.max(work, 1.0),
                                      at == x1 / speed + ctx.max(work, 1.0) + last)))

            def probe(env=env, a=a, p=p, log=log):
                yield env.timeout(at)
                fuel, loc = a.fuel, a.loc.x  # reading is part of both runs
                if rehearsing:
                    n = len(p["starts"])
                    p["fail"] = fail
                    know = {"goal": goal_loc(9.0), "more": 1}
                    try:
                        if net:
                            c = a.rehearse_network("net", ["Phases", "Sleep"], knowledge=know)
                        else:
                            c = Phases().rehearse(actor=a, knowledge=know)
                        ctx.eq(p["starts"][n], at, "the rehearsal starts now")
                        ctx.eq(c.fuel, fuel + rate * (9.0 - loc) / speed - rate * last,
                               "and from the current values")
                        ctx.check(not fail, "a failing task fails the rehearsal")
                    except UP.SimulationError:
                        ctx.check(fail, "no error otherwise")
                        ctx.reach("failed")
                    p["fail"] = False
                    del p["starts"][n:]
                    if at < x1 / speed:
                        ctx.reach("mid-task")
                if net:
                    data = a.get_running_task("net")
                    log.append((data.name, data.process.is_alive, list(a.get_task_queue("net"))))
                log.append((fuel, loc, a.fuel, a.loc.x, a.get_knowledge("more"), env.now))

            env.process(probe())
            env.run(until=60)
            results.append([summary(a), history(a), log, p["starts"],
                            [(t, m.split(" object")[0]) for t, m in a.get_log()],
                            [b.name for b in UP.UpstageBase().get_actors()]])
    ctx.eq(results[0], results[1], "a rehearsal leaves no trace")


class Sleep(UP.Task):
    def task(self, *, actor):
        actor.count += 10
        yield UP.Wait(2.0)


class NetStep(UP.Task):
    tag = "?"

    def task(self, *, actor):
        p = actor.stage.plan
        actor.bag.append((self.tag, self.env.now))
        actor.activate_linear_state(state="fuel", rate=p["rate"][self.tag], task=self)
        yield UP.Wait(p["dur"][self.tag])
        actor.deactivate_all_states(task=self)


class A(NetStep):
    tag = "A"


class B(NetStep):
    tag = "B"


class Choose(UP.DecisionTask):
    def _pick(self, actor):
        actor.bag.append(("C", self.env.now))
        self.clear_actor_task_queue(actor)
        self.set_actor_task_queue(actor, actor.stage.plan["queue"])

    def make_decision(self, *, actor):
        self._pick(actor)

    def rehearse_decision(self, *, actor):
        self._pick(actor)


def network(ctx, n):
    """Rehearsing a path through a network gives what running it gives."""
    with UP.EnvironmentContext() as env:
        p = {"dur": {t: ctx.real("dur" + t, 0, 5, lo_open=True) for t in "AB"},
             "rate": {t: ctx.real("rate" + t, -3, 3) for t in "AB"},
             "queue": ctx.choice("decision", [["A"], ["B", "A"], []])}
        UP.add_stage_variable("plan", p)
        default = {"A": ctx.choice("defA", ["B", "C"]), "B": "A", "C": "B"}
        allowed = {"A": ["B", "C"], "B": ["A", "B"], "C": ["A", "B"]}
        fac = UP.TaskNetworkFactory("net", {"A": A, "B": B, "C": Choose, "T": UP.TerminalTask},
                                    {t: UP.TaskLinks(default=default[t], allowed=allowed[t])
                                     for t in default})
        a = Act(name="a", fuel=1.0, loc=goal_loc(0.0), debug_log=False)
        a.add_task_network(fac.make_network())
        path = [ctx.choice(f"path{k}", ["A", "B", "C"]) for k in range(n)]
        mode = ctx.choice("mode", ["path", "end"])
        end = ctx.choice("end", ["A", "B"]) if mode == "end" else None
        # reference
        want, fuel, t, queue, cur, k, bad = [], 1.0, 0.0, [], None, 0, False
        while len(want) < n + 4:
            if k < n:
                cur = path[k]
            elif end is None:
                break
            elif queue:
                cur = queue.pop(0)
                ctx.reach("queue-used")
            else:
                cur = default[cur]
                ctx.reach("default-used")
            if cur == end:
                ctx.reach("end-task")
                break
            want.append((cur, t))
            if cur == "C":
                queue = list(p["queue"])
            else:
                fuel = fuel + p["rate"][cur] * p["dur"][cur]
                t = t + p["dur"][cur]
            if k < n - 1 and path[k + 1] not in allowed[cur]:
                bad = True
                break
            k += 1
        else:
            return  # does not end within the bound
        kw = {} if end is None else {"end_task": end}
        if bad:
            ctx.check_raises(UP.SimulationError, "a path that is not allowed", a.rehearse_network, "net",
                             list(path), **kw)
            ctx.reach("not-allowed")
            clone = None
        else:
            clone = a.rehearse_network("net", list(path), **kw)
            ctx.eq(clone.bag, want, "tasks and times")
            ctx.eq([clone.env.now, clone.fuel], [t, fuel], "result")
        ctx.eq(summary(a), {"now": 0.0, "fuel": 1.0, "loc": [0.0, 0.0], "count": 0.0, "bag": [],
                            "finished": None}, "the actor is unchanged")
        ctx.check(a.get_task_queue("net") == [] and a.get_running_task("net") is None, "nothing runs")
        if clone is not None and end is None and "C" not in path:
            a.set_task_queue("net", path + ["T"])
            a.start_network_loop("net")
            env.run(until=100)
            ctx.eq([a.bag, a.fuel], [want, fuel], "running it gives the same")


class Ponder(UP.DecisionTask):
    def _think(self, actor):
        p = actor.stage.plan
        actor.bag.append(self.env.now)
        actor.fuel = actor.fuel + self.get_actor_knowledge(actor, "extra", must_exist=True)
        actor.count += 1
        if p["fail"] and self._rehearsing:
            raise ValueError("no idea")

    def make_decision(self, *, actor):
        self._think(actor)

    def rehearse_decision(self, *, actor):
        self._think(actor)


def decision(ctx):
    """A decision task on its own, with knowledge given, failing or not, on a clone or not."""
    with UP.EnvironmentContext() as env:
        p = {"fail": ctx.choice("fail", [False, True])}
        UP.add_stage_variable("plan", p)
        f0, extra, start = ctx.real("f0", -5, 5), ctx.real("extra", -5, 5), ctx.real("start", 0, 5)
        given = ctx.choice("given", [False, True])
        a = Act(name="a", fuel=f0, loc=goal_loc(0.0), debug_log=True, debug_log_time=False,
                initial_knowledge={} if given else {"extra": extra})
        env.run(until=start + 1.0)
        task = Ponder()
        before, hist, log = summary(a), history(a), list(a.get_log())
        know = {"extra": extra} if given else None
        actor = a.clone(knowledge=know) if ctx.choice("cloned", [False, True]) else a
        how = {"actor": actor, "knowledge": know} if actor is a else {"actor": actor, "cloned_actor": True}
        if p["fail"]:
            ctx.check_raises(ValueError, "a failing decision fails its rehearsal", task.rehearse, **how)
            ctx.reach("failed")
        else:
            c = task.rehearse(**how)
            ctx.check((c is actor) == (actor is not a), "a clone is made if there is none")
            ctx.eq([c.fuel, c.count, c.bag, c.env.now], [f0 + extra, 1, [start + 1.0], start + 1.0], "decided")
        ctx.eq([summary(a), history(a), list(a.get_log())], [before, hist, log], "the actor is unchanged")
        ctx.check((a.get_knowledge("extra") is not None) == (not given), "extra knowledge is for the clone")
        if given:
            a.set_knowledge("extra", extra)
        env.run(until=start + 2.0)
        env.run(until=task.run(actor=a))
        ctx.eq([a.fuel, a.count, a.bag], [f0 + extra, 1, [start + 2.0]], "then it is made in its own time")


class Gives(UP.Routine):
    def __init__(self, t):
        super().__init__()
        self.t = t

    def run(self):
        yield UP.Wait(1.0, rehearsal_time_to_complete=self.t)
        yield UP.Wait(self.t)
        return 5

    def cancel(self):
        yield UP.Wait(0.0)


def kinds(ctx):
    """Planned times and values of every kind of request, hold and routine."""
    with UP.EnvironmentContext(random_gen=ctx.stub_random()) as env:
        from simpy import FilterStore, Resource
        t = [ctx.real(f"t{k}", 0, 5) for k in range(8)]
        store, shelf = Store(env), FilterStore(env)
        res = Resource(env, 1)
        best = UP.SortedFilterStore(env)
        a = Act(name="a", fuel=0.0, loc=goal_loc(0.0), debug_log=False)
        seen = []

        class T(UP.Task):
            def task(self, *, actor):
                item = yield UP.Get(store, rehearsal_time_to_complete=t[0])
                seen.append((item is UP.PLANNING_FACTOR_OBJECT, self.env.now))
                item = yield UP.FilterGet(shelf, lambda x: False, rehearsal_time_to_complete=t[1])
                seen.append((item is UP.PLANNING_FACTOR_OBJECT, self.env.now))
                item = yield UP.SortedFilterGet(best, rehearsal_time_to_complete=t[2])
                seen.append((item is UP.PLANNING_FACTOR_OBJECT, self.env.now))
                hold = UP.ResourceHold(res, rehearsal_time_to_complete=t[3])
                yield hold
                seen.append((True, self.env.now))
                yield hold
                seen.append((True, self.env.now))
                yield UP.Put(store, "x", rehearsal_time_to_complete=t[4])
                seen.append((True, self.env.now))
                ev = actor.create_knowledge_event(name="ev", rehearsal_time_to_complete=t[5])
                got = yield ev
                seen.append((got is UP.PLANNING_FACTOR_OBJECT, self.env.now))
                actor.create_knowledge_event(name="ev")
                yield Gives(t[6])
                seen.append((True, self.env.now))
                yield UP.Wait.from_random_uniform(0.0, 9.0, rehearsal_time_to_complete=t[7])
                seen.append((True, self.env.now))
                # without a planned time none of them takes any
                for ev in (UP.Get(store), UP.FilterGet(shelf, lambda x: False), UP.SortedFilterGet(best),
                           UP.ResourceHold(res), UP.Put(store, "x"),
                           actor.create_knowledge_event(name="ev")):
                    yield ev
                    seen.append((True, self.env.now))

        task = T()
        c = task.rehearse(actor=a)
        now, want = 0.0, []
        for d in (t[0], t[1], t[2], t[3], 0.0, t[4], t[5], t[6] + t[6], t[7], 0.0, 0.0, 0.0, 0.0, 0.0, 0.0):
            now = now + d
            want.append((True, now))
        ctx.eq(seen, want, "planned times and values")
        ctx.eq(c.env.now, now, "planned time")
        ctx.check(store.items == [] and not store.get_queue and not shelf.get_queue
                  and not best.get_queue and res.count == 0 and not res.queue, "nothing was requested")
        ctx.check(a.get_knowledge("ev") is None, "knowledge of the real actor")
        # a process cannot be rehearsed, and a failed rehearsal can be followed by a run

        def gen():
            yield env.timeout(1.0)

        proc = env.process(gen())

        class Q(UP.Task):
            def task(self, *, actor):
                yield UP.Wait(1.0)
                if self._rehearsing:
                    yield proc
                seen.append(self.env.now)

        q = Q()
        ctx.check_raises(UP.SimulationError, "a process cannot be rehearsed", q.rehearse, actor=a)
        q.run(actor=a)
        env.run(until=3.0)
        ctx.eq(seen[-1], 1.0, "the task can run after its failed rehearsal")


class Member(UP.Actor):
    """An actor class with everything a class can have."""

    limit = [1, 2]
    base = UP.State(default=0.0, no_init=True)
    later = UP.State(allow_none_default=True)
    text = None

    @property
    def both(self):
        return self.base + 1

    @classmethod
    def made_by(cls):
        return cls

    @staticmethod
    def three():
        return 3

    def what(self):
        return self.base


class Own(Member):
    x = UP.LinearChangingState(default=0.0, recording=True)
    own = UP.State(default=1.0, no_init=True)
    unset = UP.State(allow_none_default=True)
    own_limit = {"a": 1}

    @property
    def double(self):
        return self.x * 2

    @double.setter
    def double(self, value):
        self.x = value / 2

    @classmethod
    def own_by(cls):
        return cls


def members(ctx):
    """Rehearsing with actors of rich classes: states without init or value, properties and methods."""
    with UP.EnvironmentContext() as env:
        b, o, rate, d, u = (ctx.real(k, -10, 10) for k in ("b", "o", "rate", "d", "u"))
        ctx.assume(d >= 0)
        cls = ctx.choice("cls", [Member, Own])
        own = cls is Own
        a = cls(name="a", debug_log=False)
        a.base = b
        if own:
            a.own = o
        given = ctx.choice("given", [False, True])
        if given:
            a.later = u

        class T(UP.Task):
            def task(self, *, actor):
                actor.base += 1
                if own:
                    actor.activate_linear_state(state="x", rate=rate, task=self)
                yield UP.Wait(d)
                actor.deactivate_all_states(task=self)
                actor.later = 2.0

        c = T().rehearse(actor=a)
        for who, more in ((c, 1), (a, 0)):
            ctx.check(type(who) is cls and who.made_by() is cls and who.three() == 3, "methods of the class")
            ctx.eq(who.base, b + more, "a state that is not given on init")
            ctx.eq(who.both, b + more + 1, "a property")
            ctx.eq(who.what(), b + more, "a method")
            ctx.check(who.limit is Member.limit and who.text is None, "a constant of the class")
            if own:
                ctx.eq(who.own, o, "another one")
                ctx.eq(who.double, 2 * rate * d * more, "a property of a linear state")
                ctx.check(who.own_by() is Own and who.own_limit is Own.own_limit, "own members")
                ctx.check_raises(UP.SimulationError, "a state without a value", lambda: who.unset)
                ctx.reach("rich")
        ctx.eq(c.later, 2.0, "a state given its value in the rehearsal")
        if given:
            ctx.eq(a.later, u, "the real one keeps its own")
        else:
            ctx.check_raises(UP.SimulationError, "the real one still has no value", lambda: a.later)
        ctx.eq(env.now, 0.0, "real time has not moved")


def jobs(tier):
    out = [J(s, "tree", shape=s) for s in SHAPES]
    out += [J("predict", "predict", given=False), J("predict-given", "predict", given=True),
            J("leave-task", "undisturbed", fail=False, net=False),
            J("leave-net", "undisturbed", fail=False, net=True),
            J("fail-task", "undisturbed", fail=True, net=False),
            J("fail-net", "undisturbed", fail=True, net=True),
            J("net2", "network", n=2), J("net3", "network", n=3), J("kinds", "kinds"), J("decision", "decision"),
            J("members", "members"), J("chores", "chores", net=False), J("chores-net", "chores", net=True)]
    if tier == "thorough":
        out += [J("net4", "network", n=4)]
    return out
