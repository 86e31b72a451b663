"""C11: cancelled and interrupted requests neither lose nor duplicate anything."""

import simpy

from .common import UP, J

BOUNDS = ("2-3 tasks using one store, container or resource, with symbolic start, hold and supply times "
          "and up to 2 interrupts at symbolic times; all interleavings, including an interrupt in the "
          "very instant a request is granted")
REACH = ["served", "interrupted-waiting", "interrupted-holding", "timeout", "same-instant",
         "put-blocked", "put-cancelled", "queue"]


class Act(UP.Actor):
    v = UP.State(default=0.0)


def supply(env, times, put):
    def proc():
        for k, t in enumerate(times):
            yield env.timeout(t - env.now)
            yield put(k)

    env.process(proc())


def interrupt_at(env, proc, t):
    def go():
        yield env.timeout(t)
        if proc.is_alive:
            proc.interrupt(cause="stop")

    env.process(go())


class Getter(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        me = p[actor.name]
        yield UP.Wait(me["start"])
        get = UP.Get(p["store"])
        if me["limit"] is None:
            yield get
        else:
            yield UP.Any(get, UP.Wait(me["limit"]))
            if not get.is_complete():
                try:
                    me["early"] = ("value", get.get_value())
                except UP.SimulationError:
                    me["early"] = "refused"
                get.cancel()
                me["out"] = ("timeout", actor.env.now, None)
                return
        me["out"] = ("got", actor.env.now, get.get_value())


def store(ctx, n, items, limits, cuts):
    """Items delivered = items supplied - items left, each to one getter, in order."""
    with UP.EnvironmentContext() as env:
        monitored = ctx.choice("monitored", [False, True])
        s = UP.SelfMonitoringStore(env) if monitored else simpy.Store(env)
        # any object may be an item, None too
        names = [None if monitored and k == 0 else f"item{k}" for k in range(items)]
        p = {"store": s}
        UP.add_stage_variable("plan", p)
        times, t = [], 0.0
        for k in range(items):
            t = t + ctx.real(f"supply{k}", 0, 10)
            times.append(t)
        supply(env, times, lambda k: s.put(names[k]))
        mes, prev = [], 0.0
        for i in range(n):
            prev = prev + ctx.real(f"start{i}", 0, 10)
            me = {"start": prev, "limit": ctx.real(f"limit{i}", 0, 20) if i < limits else None,
                  "out": None}
            p[f"a{i}"] = me
            proc = Getter().run(actor=Act(name=f"a{i}", debug_log=False))
            if i < cuts:
                me["cut"] = ctx.real(f"cut{i}", 0, 40)
                interrupt_at(env, proc, me["cut"])
            mes.append(me)
        env.run(until=100)
        got = [m["out"][2] for m in mes if m["out"] is not None and m["out"][0] == "got"]
        ctx.check(len(set(got)) == len(got), "no item is delivered twice")
        ctx.check(sorted(got + list(s.items), key=str) == sorted(names, key=str),
                  "every item is delivered or still in the store")
        waiting = [m for m in mes if m["out"] is None and "cut" not in m]
        ctx.check(not (waiting and s.items), "nobody waits while items are in the store")
        # expected result of each getter, in the order they started
        exact = True
        for m in mes:
            for e in [m["start"] + m["limit"]] if m["limit"] is not None else []:
                for x in times + [q["start"] for q in mes]:
                    exact = ctx.And(exact, ctx.Not(e == x))
            if "cut" in m:
                for x in times + [q["start"] for q in mes]:
                    exact = ctx.And(exact, ctx.Not(m["cut"] == x))
                if m["limit"] is not None:
                    exact = ctx.And(exact, ctx.Not(m["cut"] == m["start"] + m["limit"]))
        if not exact:
            ctx.reach("same-instant")
            return
        ctx.check(all(m.get("early", "refused") == "refused" for m in mes),
                  "the value of a request that was not served is a SimulationError")
        left = list(range(items))
        for i, m in enumerate(mes):
            end = float("inf")
            if m["limit"] is not None:
                end = m["start"] + m["limit"]
            kind = "timeout"
            if "cut" in m and m["cut"] < end:
                end, kind = m["cut"], "cut"
            if end < m["start"]:
                want = None
            elif left and ctx.max(times[left[0]], m["start"]) < end:
                k = left.pop(0)
                want = ("got", ctx.max(times[k], m["start"]), names[k])
                ctx.reach("served")
            elif kind == "timeout" and m["limit"] is not None:
                want = ("timeout", end, None)
                ctx.reach("timeout")
            else:
                want = None
                if kind == "cut":
                    ctx.reach("interrupted-waiting")
            if want is None:
                ctx.check(m["out"] is None, "an interrupted getter receives nothing")
            else:
                ctx.check(m["out"] is not None, "the getter is served or times out")
                ctx.check(m["out"][0] == want[0], "served or timed out")
                ctx.eq(list(m["out"][1:]), list(want[1:]), "which item, and when")


class Filler(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        me = p[actor.name]
        yield UP.Wait(me["start"])
        ev = UP.Get(p["c"], me["amt"]) if me["get"] else UP.Put(p["c"], me["amt"])
        yield ev
        me["out"] = actor.env.now


def container(ctx, n, cuts, same):
    """Level = initial + completed puts - completed gets, for interrupts at any time."""
    with UP.EnvironmentContext() as env:
        cap = ctx.real("cap", 1, 20)
        init = ctx.real("init", 0, 20)
        ctx.assume(init <= cap)
        mon = ctx.choice("monitored", [False, True])
        c = (UP.SelfMonitoringContainer if mon else simpy.Container)(env, capacity=cap, init=init)
        p = {"c": c}
        UP.add_stage_variable("plan", p)
        mes, prev, cut_times = [], 0.0, []
        for i in range(n):
            prev = prev + ctx.real(f"start{i}", 0, 10, lo_open=not same)
            me = {"start": prev, "amt": ctx.real(f"amt{i}", 0, 20, lo_open=True), "out": None,
                  "get": ctx.choice(f"op{i}", ["get", "put"]) == "get"}
            p[f"a{i}"] = me
            proc = Filler().run(actor=Act(name=f"a{i}", debug_log=False))
            if i < cuts:
                me["cut"] = ctx.real(f"cut{i}", 0, 40)
                interrupt_at(env, proc, me["cut"])
            mes.append(me)
        env.run(until=100)
        total, maybe = init, [0]
        for m in mes:
            if m["out"] is None and "cut" in m and not m["get"] and ctx.any_of(
                    m["cut"] == q["start"] for q in mes):
                # accepted in the instant of the interrupt, and others may rely on it
                maybe += [x + m["amt"] for x in maybe]
                ctx.reach("same-instant")
            if m["out"] is not None:
                total = total - m["amt"] if m["get"] else total + m["amt"]
                ctx.reach("served")
            elif "cut" in m:
                ctx.reach("interrupted-waiting" if m["get"] else "put-cancelled")
        # what was given back waits like any other put if the space was taken meanwhile
        pending = ctx.sum(e.amount for e in c.put_queue)
        blocked = ctx.sum(m["amt"] for m in mes if m["out"] is None and not m["get"]
                          and "cut" not in m)
        ctx.check(ctx.any_of(ctx.same(c.level + pending, total + blocked + x) for x in maybe),
                  "level = start + completed puts - completed gets")
        ctx.le(0, c.level, "not negative")
        ctx.le(c.level, cap, "not above capacity")
        for m in mes:
            # simpy serves a queue again only at its next request, so a cancelled
            # request at the head can leave those behind it waiting
            mine = [q for q in mes if q["out"] is None and not q["get"] and "cut" not in q]
            behind = len(c.put_queue) > len(mine) or any(q["out"] is None and "cut" in q and q["get"] == m["get"] for q in mes)
            if m["out"] is None and "cut" not in m and not behind:
                first = [q for q in mes if q["get"] == m["get"] and q["out"] is None
                         and "cut" not in q][0]
                if first is m:
                    if m["get"]:
                        ctx.check(c.level < m["amt"], "a get that fits is served")
                    else:
                        ctx.check(c.level + m["amt"] > cap, "a put that fits is served")
                        ctx.reach("put-blocked")


class Holder(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        me = p[actor.name]
        yield UP.Wait(me["start"])
        hold = me["hold"] = UP.ResourceHold(p["r"])
        me["asked"] = actor.env.now
        yield hold
        me["got"] = actor.env.now
        yield UP.Wait(me["dur"])
        yield hold
        me["out"] = actor.env.now

    def on_interrupt(self, *, actor, cause):
        me = actor.stage.plan[actor.name]
        if "got" in me and "out" not in me:
            me["leak"] = True
        return self.INTERRUPT.END


def resource(ctx, n, cuts, capacity):
    """A resource is held by at most its capacity, in order, and freed again."""
    with UP.EnvironmentContext() as env:
        r = simpy.Resource(env, capacity=capacity)
        p = {"r": r}
        UP.add_stage_variable("plan", p)
        mes, prev = [], 0.0
        for i in range(n):
            prev = prev + ctx.real(f"start{i}", 0, 10, lo_open=i > 0)
            me = {"start": prev, "dur": ctx.real(f"dur{i}", 0, 10, lo_open=True)}
            p[f"a{i}"] = me
            proc = Holder().run(actor=Act(name=f"a{i}", debug_log=False))
            if i < cuts:
                me["cut"] = ctx.real(f"cut{i}", 0, 40)
                interrupt_at(env, proc, me["cut"])
            mes.append(me)
        env.run(until=200)
        held = sum(1 for m in mes if m.get("leak"))
        ctx.check(r.count == ctx_min(capacity, held), "only unreleased holds are left")
        ctx.check(held > 0 or not r.queue, "nobody waits for a free resource")
        # reference: capacity-1 service in order of requests
        if capacity != 1:
            return
        free = 0.0
        for m in mes:
            cut = m.get("cut")
            if cut is not None:
                for x in [m["start"]]:
                    ctx.assume(ctx.Not(cut == x))
            if cut is not None and cut < m["start"]:
                ctx.check("asked" not in m, "ended before it asked")
                continue
            if free is None:
                ctx.check("got" not in m, "the resource is never given back")
                continue
            at = ctx.max(m["start"], free)
            if at > m["start"]:
                ctx.reach("queue")
            if cut is not None and cut < at:
                ctx.check("got" not in m, "interrupted in the queue")
                ctx.reach("interrupted-waiting")
                continue
            if cut is not None and cut == at:
                # both orders are fine, but it either holds or it does not
                if "got" not in m:
                    ctx.reach("same-instant")
                    continue
            ctx.check("got" in m, "granted")
            ctx.eq(m["got"], at, "time of the grant")
            end = at + m["dur"]
            if cut is not None and cut < end:
                ctx.check(m.get("leak", False), "interrupted while holding")
                free = None
                ctx.reach("interrupted-holding")
                continue
            if cut is not None and cut == end and "out" not in m:
                if m.get("leak", False) and r.count:
                    free = None
                else:
                    free = end
                continue
            ctx.eq(m["out"], end, "time of the release")
            free = end
            ctx.reach("served")


class Patient(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        me = p[actor.name]
        yield UP.Wait(me["start"])
        hold = UP.ResourceHold(p["r"], *me["args"], **me["kwargs"])
        yield hold
        me["got"] = actor.env.now
        yield UP.Wait(me["dur"])
        yield hold
        me["out"] = actor.env.now


def priority(ctx, n):
    """A resource with priorities goes to the waiting request of least priority number."""
    with UP.EnvironmentContext() as env:
        r = simpy.PriorityResource(env, 1)
        p = {"r": r}
        UP.add_stage_variable("plan", p)
        prios = ctx.choice("prios", [[3, 1, 2], [1, 2, 3], [2, 3, 1]])[:n]
        named = ctx.bool("named")
        mes, t = [], 0.0
        for i in range(n):
            t = t + ctx.real(f"gap{i}", 0, 5, lo_open=True)
            me = p[f"a{i}"] = {"start": t, "dur": ctx.real(f"dur{i}", 0, 10, lo_open=True), "prio": prios[i],
                               "args": () if named else (prios[i],), "kwargs": {"priority": prios[i]} if named else {}}
            Patient().run(actor=Act(name=f"a{i}", debug_log=False))
            mes.append(me)
        todo, want, free = list(mes), [], 0.0
        while todo:
            at = ctx.max(free, todo[0]["start"])
            for m in todo[1:]:
                ctx.assume(ctx.Not(ctx.same(m["start"], at)))
            waiting = [m for m in todo if m is todo[0] or m["start"] < at]
            nxt = min(waiting, key=lambda m: m["prio"])
            if len(waiting) > 1:
                ctx.reach("queue")
            want.append((nxt, at))
            free = at + nxt["dur"]
            todo = [m for m in todo if m is not nxt]
        env.run(until=200)
        for m, at in want:
            ctx.check("out" in m, "served")
            ctx.eq([m["got"], m["out"]], [at, at + m["dur"]], "in order of priority")
        ctx.check(r.count == 0 and not r.queue, "the resource is free")
        ctx.reach("served")


def ctx_min(a, b):
    return a if a < b else b


class Putter(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        me = p[actor.name]
        yield UP.Wait(me["start"])
        yield UP.Put(p["store"], me["item"])
        me["out"] = actor.env.now


def puts(ctx, n, cuts, ngets):
    """A put that was interrupted before it was accepted leaves nothing behind."""
    with UP.EnvironmentContext() as env:
        s = simpy.Store(env, capacity=1)
        p = {"store": s}
        UP.add_stage_variable("plan", p)
        mes, prev, taken = [], 0.0, []
        for i in range(n):
            prev = prev + ctx.real(f"start{i}", 0, 10, lo_open=True)
            me = {"start": prev, "item": f"item{i}", "out": None}
            p[f"a{i}"] = me
            proc = Putter().run(actor=Act(name=f"a{i}", debug_log=False))
            if i >= n - cuts:
                me["cut"] = ctx.real(f"cut{i}", 0, 40)
                interrupt_at(env, proc, me["cut"])
            mes.append(me)
        t = 0.0
        gets = []
        for k in range(ngets):
            t = t + ctx.real(f"get{k}", 0, 20, lo_open=True)
            gets.append(t)

        def getter():
            for g in gets:
                if g > env.now:
                    yield env.timeout(g - env.now)
                v = yield s.get()
                taken.append(v)

        env.process(getter())
        env.run(until=100)
        seen = taken + list(s.items)
        ctx.check(len(set(seen)) == len(seen), "no item twice")
        for m in mes:
            if m["out"] is not None:
                ctx.check(m["item"] in seen, "an accepted item is in the store or was taken")
                ctx.reach("served")
            elif "cut" in m:
                clean = ctx.all_of(ctx.Not(m["cut"] == x)
                                   for x in gets + [q["start"] for q in mes])
                if clean:
                    ctx.check(m["item"] not in seen, "an interrupted put leaves nothing")
                    ctx.reach("put-cancelled")
            else:
                ctx.check(len(s.items) == 1, "a put only waits for a full store")
                ctx.reach("put-blocked")


def jobs(tier):
    out = [J("store-2-1", "store", n=2, items=1, limits=1, cuts=1),
           J("store-2-2c", "store", n=2, items=2, limits=0, cuts=2),
           J("cont2", "container", n=2, cuts=1, same=True),
           J("cont3", "container", n=3, cuts=1, same=False),
           J("res2", "resource", n=2, cuts=1, capacity=1),
           J("res3", "resource", n=3, cuts=1, capacity=1),
           J("res2c2", "resource", n=2, cuts=2, capacity=1),
           J("res3cap2", "resource", n=3, cuts=1, capacity=2),
           J("priority", "priority", n=3),
           J("puts2", "puts", n=2, cuts=1, ngets=1), J("puts3", "puts", n=3, cuts=1, ngets=1)]
    if tier == "thorough":
        out += [J("store-2-2", "store", n=2, items=2, limits=2, cuts=1),
                J("store-3-2", "store", n=3, items=2, limits=1, cuts=1),
                J("cont3c2", "container", n=3, cuts=2, same=False),
                J("res3c2", "resource", n=3, cuts=2, capacity=1),
                J("puts3c2", "puts", n=3, cuts=2, ngets=2)]
    return out
