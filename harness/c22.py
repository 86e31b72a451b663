"""C22: a mimic state is the other actor's state for as long as the mimicking lasts."""

from .common import TASK_GEN, UP, J

BOUNDS = ("1-2 followers and 2 leaders of the same class, states of three kinds, mimicking over any window that is "
          "ended by the task, by its end or by an interrupt; up to 2 assignments, an active window of the "
          "followed state and 2 reads at any times; chains of two followers")
ASSUMPTIONS = ["reads and changes do not fall in the very instant the mimicking starts or stops"]
REACH = ["following", "after", "changed", "interrupted", "active", "recorded", "location", "chain", "refused", "own", "restarted"]

C = UP.CartesianLocation


class Lead(UP.Actor):
    num = UP.State(default=1.0)
    fuel = UP.LinearChangingState(default=5.0)
    place = UP.CartesianLocationChangingState()
    table = UP.DictionaryState()


class Follow(UP.Actor):
    a = UP.State(default=0.0, recording=True)
    b = UP.State(default=0.0, recording=True)
    lin = UP.LinearChangingState(default=0.0, recording=True)
    plain = UP.State(default=0.0)
    where = UP.State(valid_types=C, recording=True)
    word = UP.State(valid_types=str, default="x")
    table = UP.DictionaryState()


def at(env, t, fn):
    def proc():
        yield env.timeout(t)
        fn()
    env.process(proc())


class Mimic(UP.Task):
    """Follows states of another actor for some time."""

    reaction, runs = "END", 0

    def on_interrupt(self, *, actor, cause):
        return getattr(self.INTERRUPT, "RESTART" if self.reaction == "AGAIN" else self.reaction)

    def task(self, *, actor):
        self.runs += 1
        if self.runs > 1:
            # the second time it does without, or goes on at once
            self.start = 0.0
            if self.reaction != "AGAIN":
                yield UP.Wait(100.0)
        yield UP.Wait(self.start)
        for mine, theirs in self.pairs:
            actor.activate_mimic_state(self_state=mine, mimic_state=theirs, mimic_actor=self.lead, task=self)
        yield UP.Wait(self.length)
        if self.one_by_one:
            for mine, _ in self.pairs:
                actor.deactivate_mimic_state(self_state=mine, task=self)
        else:
            actor.deactivate_all_mimic_states(task=self)
        yield UP.Wait(100.0)


def mimic(actor, lead, start, length, pairs, one_by_one=False, reaction="END"):
    t = Mimic()
    t.reaction = reaction
    t.lead, t.start, t.length, t.pairs, t.one_by_one = lead, start, length, pairs, one_by_one
    return t.run(actor=actor)


def apart(ctx, ts, us):
    for t in ts:
        for u in us:
            ctx.assume(ctx.Not(ctx.same(t, u)))


def check_record(ctx, hist, ref, label):
    """Every recorded value is the value the state had then."""
    last = None
    for t, v in hist:
        ctx.eq(v, ref(t), label)
        if last is not None:
            ctx.check(ctx.leq(last, t), f"{label} in order")
        last = t


def follow(ctx, mine, theirs, changes, reads, interrupt, active):
    """One follower, and a bystander of the leader's class."""
    with UP.EnvironmentContext() as env:
        v0, w0 = ctx.real("v0", -5, 5), ctx.real("w0", -5, 5)
        lead = Lead(name="l", place=C(0, 0), table={}, debug_log=False, **{theirs: v0})
        other = Lead(name="o", place=C(0, 0), table={}, debug_log=False, **{theirs: 7.0})
        me = Follow(name="m", where=C(0, 0), table={}, debug_log=False, **{mine: w0})
        a = ctx.real("a", 0, 4, lo_open=True)
        b = a + ctx.real("len", 0, 4, lo_open=True)
        proc = mimic(me, lead, a, b - a, [(mine, theirs)], bool(ctx.bool("one")))
        edges = [a, b]
        if interrupt:
            i = ctx.real("int", 0, 8, lo_open=True)
            apart(ctx, [i], [a, b])
            at(env, i, lambda: proc.interrupt("stop") if proc.is_alive else None)
            edges.append(i)
        events = []  # (time, what, value) in order of the leader's changes
        prev = 0
        for k in range(changes):
            prev = prev + ctx.real(f"gap{k}", 0, 5, lo_open=True)
            v = ctx.real(f"x{k}", -5, 5)
            who = lead if not (changes > 1 and k == 0) else ctx.choice("who", [lead, other])
            at(env, prev, lambda who=who, v=v: setattr(who, theirs, v))
            if who is lead:
                events.append((prev, v))
            edges.append(prev)
        rate = s0 = s1 = 0.0
        if active:
            rate = ctx.real("rate", -2, 2)
            s0 = ctx.real("s0", 0, 3)
            s1 = s0 + ctx.real("slen", 0, 4, lo_open=True)
            task = UP.Task()
            at(env, s0, lambda: lead.activate_linear_state(state=theirs, rate=rate, task=task))
            at(env, s1, lambda: lead.deactivate_state(state=theirs, task=task))
            edges += [s0, s1]
        ts = []
        for k in range(reads):
            ts.append(ctx.real(f"r{k}", 0, 9, lo_open=True))
        apart(ctx, ts, edges)
        for k, e in enumerate(edges):
            apart(ctx, [e], edges[:k])

        def theirs_at(t):
            """The leader's value at t, from its changes and the time it was active."""
            v, since = v0, 0
            for x, w in events:
                if x <= t:
                    v, since = w, x
            if not active:
                return v
            return v + rate * ctx.max(0, ctx.min(t, s1) - ctx.max(since, s0))

        stop = b
        started = True
        if interrupt:
            if i < a:
                started = False
            elif i < b:
                stop = i
                ctx.reach("interrupted")

        def mine_at(t):
            if not started or t < a:
                return w0
            return theirs_at(ctx.min(t, stop))

        got = []
        for k, t in enumerate(ts):
            at(env, t, lambda t=t: got.append((t, getattr(me, mine))))
        env.run(until=12)
        for t, v in got:
            ctx.eq(v, mine_at(t), "value of the follower")
            if started:
                if t > stop:
                    ctx.reach("after")
                elif t > a:
                    ctx.reach("following")
                    if active:
                        ctx.reach("active")
        ctx.eq(getattr(lead, theirs), theirs_at(12), "the leader's own value")
        ctx.eq(getattr(me, mine), mine_at(12), "value kept afterwards")
        setattr(me, mine, 3.25)
        ctx.eq(getattr(lead, theirs), theirs_at(12), "leader is not affected by its former follower")
        setattr(lead, theirs, 1.25)
        ctx.eq(getattr(me, mine), 3.25, "former follower is not affected by the leader")
        if mine != "plain":
            hist = [h for h in me._state_histories[mine] if isinstance(h[1], (int, float))]
            ctx.eq(hist[-1][1], 3.25, "last record")
            hist = hist[:-1]
            check_record(ctx, hist, mine_at, "record of the follower")
            for t, v in events:
                if started and t > a and t < stop:
                    ctx.check(ctx.any_of(ctx.same(h, (t, v)) for h in hist), "every change is recorded")
                    ctx.reach("changed")
            if started:
                ctx.check(ctx.any_of(ctx.same(h[0], stop) for h in hist)
                          if not events or active else True, "the value kept is recorded")
            ctx.reach("recorded")


def place(ctx, interrupt, reads):
    """Riding along with a moving actor."""
    with UP.EnvironmentContext() as env:
        lead = Lead(name="l", place=C(0, 0), table={}, debug_log=False)
        me = Follow(name="m", where=C(5, 5), table={}, debug_log=False)
        a = ctx.real("a", 0, 4, lo_open=True)
        b = a + ctx.real("len", 0, 4, lo_open=True)
        proc = mimic(me, lead, a, b - a, [("where", "place")])
        speed = ctx.real("speed", 0.5, 4)
        s0 = ctx.real("s0", 0, 3)
        s1 = s0 + ctx.real("slen", 0, 4, lo_open=True)
        task = UP.Task()
        at(env, s0, lambda: lead.activate_location_state(state="place", speed=speed, waypoints=[C(30, 40)], task=task))
        at(env, s1, lambda: lead.deactivate_state(state="place", task=task))
        stop, started, edges = b, True, [a, b, s0, s1]
        if interrupt:
            i = ctx.real("int", 0, 8, lo_open=True)
            edges.append(i)
        ts = [ctx.real(f"r{k}", 0, 9, lo_open=True) for k in range(reads)]
        apart(ctx, ts, edges)
        for k, e in enumerate(edges):
            apart(ctx, [e], edges[:k])
        if interrupt:
            at(env, i, lambda: proc.interrupt("stop"))
            if i < a:
                started = False
            elif i < b:
                stop = i

        def mine_at(t):
            if not started or t < a:
                return (5, 5, 0)
            d = speed * ctx.max(0, ctx.min(t, stop, s1) - s0)
            return (d * 3 / 5, d * 4 / 5, 0)

        got = []
        for t in ts:
            at(env, t, lambda t=t: got.append((t, me.where)))
        env.run(until=12)
        got.append((12, me.where))
        for t, p in got + me._state_histories["where"]:
            ctx.eq((p.x, p.y, p.z), mine_at(t), "place of the follower")
            if started and t > a and t < stop:
                ctx.reach("location")


def two(ctx, reaction):
    """Two tasks of an actor follow two leaders; what an interrupt does to one leaves the other alone."""
    with UP.EnvironmentContext() as env:
        l1 = Lead(name="l1", place=C(0, 0), table={}, debug_log=False, num=1.0)
        l2 = Lead(name="l2", place=C(0, 0), table={}, debug_log=False, num=2.0)
        me = Follow(name="m", where=C(0, 0), table={}, debug_log=False)
        # names need not be unique
        you = Follow(name="m", where=C(0, 0), table={}, debug_log=False)
        how = {"reaction": reaction}
        p1 = mimic(me, l1, 0.0, 20.0, [("a", "num"), ("lin", "fuel")], **how)
        p2 = mimic(me, l2, 0.0, 20.0, [("b", "num")], **how)
        p3 = mimic(you, l1, 0.0, 20.0, [("a", "num")], **how)
        procs = [p1, p2, p3]
        k = ctx.choice("which", [0, 1, 2])
        stops = reaction in ("END", "RESTART")
        i = ctx.real("int", 1, 5)
        at(env, i, lambda: procs[k].interrupt("stop"))
        t1, t2, r = ctx.real("t1", 1, 5), ctx.real("t2", 1, 5), ctx.real("r", 1, 6)
        apart(ctx, [t1, t2, i], [r])
        apart(ctx, [t1, t2], [i])
        ctx.assume(ctx.Not(ctx.same(t1, t2)))
        x1, x2 = ctx.real("x1", 10, 20), ctx.real("x2", 10, 20)
        at(env, t1, lambda: setattr(l1, "num", x1))
        at(env, t2, lambda: setattr(l2, "num", x2))
        got = []
        at(env, r, lambda: got.extend((me.a, me.b, me.lin, you.a)))
        env.run(until=12)

        def val(t, x, v, mine):
            end = ctx.min(r, i) if k == mine and stops else r
            return ctx.ite(ctx.leq(t, end), x, v)

        ctx.eq(got, [val(t1, x1, 1.0, 0), val(t2, x2, 2.0, 1), 5.0, val(t1, x1, 1.0, 2)], "values of the followers")
        n = sum(1 for _, v in me._state_histories["a"] if not isinstance(v, (int, float)))
        ctx.check(n == 0, "only values are recorded")
        if reaction == "RESTART":
            ctx.reach("restarted")
        for who, attr, t, x, mine in ((me, "a", t1, x1, 0), (me, "b", t2, x2, 1), (you, "a", t1, x1, 2)):
            hit = ctx.any_of(ctx.same(h, (t, x)) for h in who._state_histories[attr])
            ended = ctx.And(k == mine, stops, i < t)
            ctx.check(ctx.Or(hit, ended), "changes are recorded by those who follow")
            ctx.check(ctx.Not(ctx.And(hit, ended)), "changes are only recorded by those who follow")


def chain(ctx):
    """Following a follower, and values of its own."""
    with UP.EnvironmentContext() as env:
        lead = Lead(name="l", place=C(0, 0), table={}, debug_log=False)
        m = Follow(name="m", where=C(0, 0), table={}, debug_log=False)
        n = Follow(name="n", where=C(0, 0), table={}, debug_log=False)
        mimic(m, lead, 0.0, 20.0, [("a", "fuel")])
        mimic(n, m, 0.5, 20.0, [("plain", "a")])
        rate = ctx.real("rate", -2, 2)
        t0, r = ctx.real("t0", 0, 3), ctx.real("r", 1, 5)
        apart(ctx, [t0], [r])
        at(env, t0, lambda: lead.activate_linear_state(state="fuel", rate=rate, task=UP.Task()))
        env.run(until=r)
        if ctx.bool("own"):
            n.plain = ctx.real("own value", -5, 5)
            ctx.reach("own")
        ctx.eq(n.plain, 5.0 + rate * ctx.max(0, r - t0), "value of the second follower")
        ctx.eq(m.a, 5.0 + rate * ctx.max(0, r - t0), "value of the first follower")
        ctx.eq(lead.fuel, 5.0 + rate * ctx.max(0, r - t0), "value of the leader")
        ctx.reach("chain")


class Crate(UP.Actor):
    bag = UP.State(default_factory=list)


class Shadow(UP.Actor):
    bag = UP.State(default_factory=list, recording=True)


def in_place(ctx, n):
    """The leader's value is changed in place and set again: each setting is recorded by the follower."""
    with UP.EnvironmentContext() as env:
        lead, a = Crate(name="lead", debug_log=False), Shadow(name="a", debug_log=False)
        start, length = ctx.real("start", 0, 3, lo_open=True), ctx.real("length", 0, 5, lo_open=True)
        mimic(a, lead, start, length, [("bag", "bag")])
        times, t = [], 0.0
        for i in range(n):
            t = t + ctx.real(f"gap{i}", 0, 3, lo_open=True)
            times.append((t, ctx.choice(f"how{i}", ["same", "new", "again"]), ctx.real(f"v{i}", -5, 5)))
        apart(ctx, [t for t, _, _ in times], [start, start + length])

        def change(how, v):
            bag = lead.bag
            if how == "same":
                bag.append(v)
                lead.bag = bag
            elif how == "new":
                lead.bag = bag + [v]
            else:
                lead.bag = bag

        for t, how, v in times:
            at(env, t, lambda how=how, v=v: change(how, v))
        env.run(until=30)
        hist = a._state_histories["bag"]
        held, seen = [], [(0.0, [])]
        for t, how, v in times:
            if how != "again":
                held = held + [v]
            if start < t < start + length:
                mine = [row for row in hist if ctx.same(row[0], t)]
                ctx.eq(mine, [(t, held)], "each setting is recorded")
                ctx.reach("recorded")
            seen.append((t, list(held)))
        for t, v in hist:
            last = [h for u, h in seen if u <= t][-1]
            ctx.eq(v, last if t >= start else [], "what the leader had")


def refuse(ctx):
    """What cannot be followed."""
    with UP.EnvironmentContext() as env:
        lead = Lead(name="l", place=C(0, 0), table={}, debug_log=False)
        me = Follow(name="m", where=C(0, 0), table={"k": 1}, debug_log=False)
        task = UP.Task()

        def go(mine, theirs):
            me.activate_mimic_state(self_state=mine, mimic_state=theirs, mimic_actor=lead, task=task)

        v = ctx.real("v", -5, 5)
        lead.num = v
        bad = ctx.choice("bad", [("where", "num"), ("word", "num"), ("table", "num"), ("a", "table"), ("twice", None)])
        if bad[0] == "twice":
            go("a", "num")
            ctx.check_raises(UP.UpstageError, "already mimicked", go, "a", "fuel")
            lead.num = v + 1
            ctx.eq(me.a, v + 1, "the first one goes on")
        else:
            ctx.check_raises(UP.SimulationError, "wrong type", go, *bad)
            ctx.check(me.word == "x" and me.where == C(0, 0) and me.a == 0 and me.table["k"] == 1,
                      "nothing has changed")
            go("a", "num")
            ctx.eq(me.a, v, "another state can still follow")
        me.deactivate_all_mimic_states(task=task)
        lead.num = v + 2
        ctx.eq(me.a, v + (1 if bad[0] == "twice" else 0), "stopped")
        go("a", "num")
        ctx.eq(me.a, v + 2, "and again")
        env.run(until=1)
        ctx.reach("refused")


def jobs(tier):
    out = [J("plain1", "follow", mine="a", theirs="num", changes=1, reads=1, interrupt=False, active=False),
           J("plain-int", "follow", mine="a", theirs="num", changes=1, reads=1, interrupt=True, active=False),
           J("two-changes", "follow", mine="b", theirs="num", changes=2, reads=1, interrupt=False, active=False),
           J("unrecorded", "follow", mine="plain", theirs="fuel", changes=0, reads=2, interrupt=False, active=True),
           J("active", "follow", mine="a", theirs="fuel", changes=0, reads=1, interrupt=True, active=True),
           J("active-set", "follow", mine="lin", theirs="fuel", changes=1, reads=1, interrupt=False, active=True),
           J("place", "place", interrupt=False, reads=2), J("place-int", "place", interrupt=True, reads=1),
           *[J(f"two-{r}", "two", reaction=r) for r in ("END", "RESTART", "IGNORE", "AGAIN")], J("chain", "chain"), J("refuse", "refuse"),
           J("in-place", "in_place", n=2)]
    if tier == "thorough":
        out += [J("active-two", "follow", mine="lin", theirs="fuel", changes=2, reads=1, interrupt=False, active=True),
                J("active-set-int", "follow", mine="a", theirs="fuel", changes=1, reads=1, interrupt=True, active=True),
                J("place-int2", "place", interrupt=True, reads=2),
                J("reads", "follow", mine="a", theirs="fuel", changes=1, reads=2, interrupt=False, active=True),
                J("set-two-int", "follow", mine="a", theirs="num", changes=2, reads=2, interrupt=True, active=False)]
    return out
