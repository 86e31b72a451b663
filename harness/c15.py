"""C15: a self monitoring resource records every change of its content."""

import simpy as SIM

from .common import UP, J

BOUNDS = ("2-3 puts and 2 gets (thorough: 3 and 3) at any symbolic times (also equal), symbolic amounts, "
          "capacity and item values, with a request that is given up; recorded by length or by a "
          "user function")
REACH = ["waited-get", "waited-put", "same-instant", "unchanged-value", "given-up", "left-over"]


class Act(UP.Actor):
    v = UP.State(default=0.0)


def make(ctx, env, kind, cap, func):
    kw = {"capacity": cap, "name": "res"}
    if kind == "container":
        return UP.SelfMonitoringContainer(env, init=ctx.real("init", 0, 5), **kw)
    kw["item_func"] = func
    return {"store": UP.SelfMonitoringStore, "filter": UP.SelfMonitoringFilterStore,
            "sorted": UP.SelfMonitoringSortedFilterStore}[kind](env, **kw)


def monitor(ctx, kind, puts, gets, by, limit, tasks):
    """The record is the sequence of contents after each completed request."""
    with UP.EnvironmentContext() as env:
        cap = {None: float("inf"), 1: 1, 8: 8.0}[limit]
        func = None if by == "len" else lambda items: ctx.sum(i[0] for i in items)
        res = make(ctx, env, kind, cap, func)
        start = env.now
        log = []
        init = res.level if kind == "container" else None
        times = {}

        def amount(name):
            return ctx.real(name, 0, 4, lo_open=True)

        items = [(amount(f"p{i}"), i) for i in range(puts)]
        wants = [amount(f"g{i}") for i in range(gets)] if kind == "container" else [None] * gets

        def putter(i):
            yield env.timeout(times["p", i])
            yield res.put(items[i][0] if kind == "container" else items[i])
            log.append(("put", items[i], env.now))
            if env.now > times["p", i]:
                ctx.reach("waited-put")

        def request(i):
            if kind == "container":
                return (UP.Get(res, wants[i]) if tasks else res.get(wants[i]))
            if kind == "filter":
                ok = (lambda x: x[1] > 0) if i == 0 else (lambda x: True)
                return UP.FilterGet(res, ok) if tasks else res.get(ok)
            if kind == "sorted":
                return UP.SortedFilterGet(res, sorter=lambda x: x[0]) if tasks else res.get(sorter=lambda x: x[0])
            return UP.Get(res) if tasks else res.get()

        def getter(i):
            yield env.timeout(times["g", i])
            got = yield request(i)
            log.append(("get", got if kind != "container" else wants[i], env.now))
            if env.now > times["g", i]:
                ctx.reach("waited-get")

        class Getter(UP.Task):
            def task(self, *, actor):
                i = int(actor.name)
                yield UP.Wait(times["g", i])
                ev = request(i)
                wait = UP.Wait(give_up)
                yield UP.Any(ev, wait)
                if ev.is_complete():
                    log.append(("get", ev.get_value() if kind != "container" else wants[i], env.now))
                else:
                    ev.cancel()
                    ctx.reach("given-up")

        give_up = ctx.real("give_up", 0, 5, lo_open=True) if tasks else None
        for i in range(puts):
            times["p", i] = ctx.real(f"tp{i}", 0, 10)
            if i:
                ctx.assume(times["p", i - 1] <= times["p", i])
            env.process(putter(i))
        for i in range(gets):
            times["g", i] = ctx.real(f"tg{i}", 0, 10)
            if tasks:
                # a grant in the very instant of giving up is another property's matter
                for j in range(puts):
                    ctx.assume(ctx.Not(times["g", i] + give_up == times["p", j]))
                Getter().run(actor=Act(name=str(i), debug_log=False))
            else:
                env.process(getter(i))
        env.run(until=50)
        # reference
        have = [] if kind != "container" else init

        def value():
            if kind == "container":
                return have
            return len(have) if by == "len" else ctx.sum(i[0] for i in have)

        want = [(start, value())]
        for what, x, t in log:
            if kind == "container":
                have = have + x[0] if what == "put" else have - x
            elif what == "put":
                have.append(x)
            else:
                ctx.check(x in have, "what was received had been put")
                have.remove(x)
            v = value()
            if kind != "container" and by != "len" and ctx.same(v, want[-1][1]):
                ctx.reach("unchanged-value")
                continue
            if len(want) > 1 and want[-1][0] == t:
                ctx.reach("same-instant")
            want.append((t, v))
        records = list(res._quantities)
        if kind == "container":
            # a request that has to wait makes a container note its (unchanged) level again
            kept = records[:1]
            for r in records[1:]:
                if not ctx.same(r[1], kept[-1][1]):
                    kept.append(r)
            records = kept
        ctx.check(len(records) == len(want), "one record for each change")
        ctx.eq(records, want, "time and content of each record")
        now = res.level if kind == "container" else (len(res.items) if by == "len"
                                                     else ctx.sum(i[0] for i in res.items))
        ctx.eq(res._quantities[-1][1], now, "the last record is the current content")
        if kind == "container" or have:
            ctx.reach("left-over")


def signed(ctx):
    """A user function whose value returns to an earlier one is still recorded at each change."""
    with UP.EnvironmentContext() as env:
        v = [ctx.real(f"v{i}", -2, 2) for i in range(3)]
        kind = ctx.choice("kind", [UP.SelfMonitoringStore, UP.SelfMonitoringFilterStore,
                                   UP.SelfMonitoringSortedFilterStore])
        st = kind(env, item_func=lambda items: ctx.sum(items))
        gap = ctx.real("gap", 0, 3, lo_open=True)
        want, tot = [(0.0, 0)], 0

        def go():
            for x in v:
                yield env.timeout(gap)
                yield st.put(x)
            for _ in v:
                yield env.timeout(gap)
                yield st.get()

        env.process(go())
        env.run()
        t = 0.0
        for x in [*v, *[-y for y in v]]:
            t = t + gap
            tot = tot + x
            if ctx.same(tot, want[-1][1]):
                ctx.reach("unchanged-value")
            else:
                want.append((t, tot))
        ctx.eq(st._quantities, want, "records")


def jobs(tier):
    out = [J("signed", "signed")]
    n = 2 if tier == "quick" else 3
    for kind in ("store", "filter", "sorted", "container"):
        by = ("len", "sum") if kind != "container" else ("len",)
        for b in by:
            out.append(J(f"{kind}-{b}", "monitor", kind=kind, puts=2, gets=n, by=b, limit=None, tasks=False))
        lim = 8 if kind == "container" else 1
        out.append(J(f"{kind}-limit", "monitor", kind=kind, puts=n, gets=1 if tier == "quick" else 2,
                     by="len", limit=lim, tasks=False))
        out.append(J(f"{kind}-task", "monitor", kind=kind, puts=2, gets=1 if tier == "quick" else 2,
                     by="len", limit=None, tasks=True))
    return out
