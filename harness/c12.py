"""C12: a continuous container's level is exactly what flowed in minus what flowed out."""

from .common import UP, J

from upstage_des.resources.container import (  # noqa: E402
    ContainerEmptyError,
    ContainerError,
    ContainerFullError,
)

BOUNDS = ("up to 2 (thorough: 3) gets and puts with symbolic start and length, rates symbolic for one user and "
          "from {1, 2, 3} for more, symbolic capacity and initial level, up to 2 reads, one cancel; "
          "users of exactly coinciding boundaries are excluded")
REACH = ["full", "empty", "error-full", "error-empty", "overlap", "cancelled", "callback", "time-finite",
         "time-never", "full-then-drained", "tie", "residual"]
INF = float("inf")


class Ref:
    """Reference: piecewise linear level of a tank whose users stop at its limits."""

    def __init__(self, ctx, cap, level, users, stop_on_error):
        self.ctx, self.cap = ctx, cap
        self.pieces = [(0.0, level, 0)]
        self.stopped = {}
        self.error = None
        t, active, todo = 0.0, [], list(users)
        while todo or active:
            rate = sum(u["sign"] * u["rate"] for u in active)
            nxt, what = INF, None
            for u in todo:
                if u["start"] < nxt:
                    nxt, what = u["start"], ("start", u)
            for u in active:
                if u["end"] < nxt:
                    nxt, what = u["end"], ("end", u)
            hit = INF
            if rate > 0:
                hit = t + (cap - level) / rate
            elif rate < 0:
                hit = t + level / -rate
            if hit < nxt:
                nxt, what = hit, ("limit", None)
            if what is None:
                break
            level = level + rate * (nxt - t) if what[0] != "limit" else (cap if rate > 0 else 0.0)
            t = nxt
            if what[0] == "start":
                todo.remove(what[1])
                active.append(what[1])
                if len(active) > 1:
                    ctx.reach("overlap")
            elif what[0] == "end":
                active.remove(what[1])
            else:
                full = bool(rate > 0)
                ctx.reach("full" if full else "empty")
                sign = 1 if full else -1
                if stop_on_error:
                    self.error = (t, full)
                    break
                for u in list(active):
                    if u["sign"] == sign:
                        active.remove(u)
                        self.stopped[u["i"]] = t
                if active and full:
                    ctx.reach("full-then-drained")
            self.pieces.append((t, level, sum(u["sign"] * u["rate"] for u in active)))
        self.t_end = t

    def at(self, t):
        got = None
        for s, lv, r in self.pieces:
            if s <= t:
                got = (s, lv, r)
        s, lv, r = got
        return lv + r * (t - s)


def run(ctx, signs, rates, reads, errors, cancel=False, same=False, mon=False):
    with UP.EnvironmentContext() as env:
        cap = ctx.real("cap", 1, 30)
        init = ctx.real("init", 0, 30)
        ctx.assume(init <= cap)
        kind = UP.SelfMonitoringContinuousContainer if mon else UP.ContinuousContainer
        tank = kind(env, capacity=cap, init=init, error_empty=errors, error_full=errors)
        users, prev = [], 0.0
        for i, sign in enumerate(signs):
            prev = prev + ctx.real(f"start{i}", 0, 10)
            rate = ctx.real(f"rate{i}", 0, 5, lo_open=True) if rates is None else rates[i]
            dur = ctx.real(f"dur{i}", 0, 15, lo_open=True)
            u = {"i": i, "start": prev, "rate": rate, "dur": dur, "end": prev + dur,
                 "sign": 1 if sign == "put" else -1, "calls": []}
            users.append(u)
        if cancel:
            cut = ctx.real("cut", 0, 15, lo_open=True)
            u = users[0]
            ctx.assume(cut < u["dur"])
            u["cut"] = cut
            u["end"] = u["start"] + cut
        if rates is None and len(users) > 1:
            # rates that cancel out up to rounding count as cancelled out
            total = ctx.sum(u["sign"] * u["rate"] for u in users)
            ctx.assume(ctx.Or(total == 0, total > 0.01, total < -0.01))
        # boundaries at exactly the same instant have no specified order
        bounds = []
        for u in users:
            bounds.append((u["i"], u["start"]))
            bounds.append((u["i"], u["end"]))
        for a in range(len(bounds)):
            for b in range(a):
                if bounds[a][0] != bounds[b][0]:
                    if same and a % 2 == 0 and b % 2 == 0:
                        continue
                    ctx.assume(ctx.Not(bounds[a][1] == bounds[b][1]))
        ref = Ref(ctx, cap, init, users, errors)
        hits = list(ref.stopped.values()) + ([ref.error[0]] if ref.error else [])
        for h in hits:
            for u in users:
                ctx.assume(ctx.Not(ctx.Or(h == u["end"], u["start"] == h)))
        # a limit touched exactly as a user ends
        for t, lv, _ in ref.pieces:
            for u in users:
                if u["end"] == t:
                    ctx.assume(ctx.And(lv > 0, lv < cap))
        seen = []

        def go(u):
            yield env.timeout(u["start"])
            fn = tank.put if u["sign"] > 0 else tank.get
            ev = fn(u["rate"], u["dur"], custom_callbacks=[lambda: u["calls"].append(env.now)])
            if "cut" in u:
                yield env.timeout(u["cut"])
                ev.cancel()

        def reader(t):
            yield env.timeout(t)
            seen.append((t, tank.level, tank.rate))

        for u in users:
            env.process(go(u))
        at = [ctx.real(f"read{k}", 0, 60) for k in range(reads)]
        for t in at:
            for _, b in bounds:
                ctx.assume(ctx.Not(t == b))
            for h in hits:
                ctx.assume(ctx.Not(t == h))
            env.process(reader(t))
        if ref.error:
            want = ContainerFullError if ref.error[1] else ContainerEmptyError
            ctx.check_raises(want, "reaching the limit is an error", env.run, until=100)
            ctx.eq(env.now, ref.error[0], "time of the error")
            ctx.eq(tank.level, cap if ref.error[1] else 0.0, "level at the error")
            ctx.reach("error-full" if ref.error[1] else "error-empty")
        else:
            env.run(until=100)
            ctx.eq(tank.level, ref.at(100.0), "final level")
            for u in users:
                if u["i"] in ref.stopped:
                    ctx.eq(u["calls"], [ref.stopped[u["i"]]], "told once that it was stopped")
                    ctx.reach("callback")
                else:
                    ctx.check(u["calls"] == [], "not told it was stopped")
        if cancel:
            ctx.reach("cancelled")
        for t, lv, rate in seen:
            ctx.eq(lv, ref.at(t), "level when read")
            ctx.le(0, lv, "not below zero")
            ctx.le(lv, cap, "not above capacity")
        if kind is UP.SelfMonitoringContinuousContainer:
            q = tank._quantities
            ctx.eq(list(q[0]), [0.0, init], "recording starts with the initial level")
            for (t, v), (t2, _) in zip(q, q[1:]):
                ctx.le(t, t2, "recorded in time order")
            for t, v in q:
                ctx.eq(v, ref.at(t), "recorded level")
            for s, lv, _ in ref.pieces:
                if s <= env.now:
                    ctx.check(ctx.any_of(ctx.And(ctx.same(t, s), ctx.same(v, lv)) for t, v in q),
                              "every change of the flow is recorded")


def times(ctx, users):
    """time_until_level and time_until_done agree with the flow."""
    with UP.EnvironmentContext() as env:
        cap = ctx.real("cap", 1, 30)
        init = ctx.real("init", 0, 30)
        ctx.assume(init <= cap)
        tank = UP.ContinuousContainer(env, cap, init, error_empty=False, error_full=False)
        total = 0.0
        for i in range(users):
            r = ctx.real(f"rate{i}", 0, 5, lo_open=True)
            if ctx.choice(f"op{i}", ["put", "get"]) == "put":
                tank.put(r, 100.0)
                total = total + r
            else:
                tank.get(r, 100.0)
                total = total - r
        # rates that cancel out up to rounding count as cancelled out
        ctx.assume(ctx.Or(total == 0, total > 0.01, total < -0.01))
        extra = ctx.real("extra", -5, 5)
        target = ctx.real("target", 0, 30)
        ctx.assume(target <= cap)
        t = ctx.real("t", 0, 10, lo_open=True)
        lv = init + total * t
        ctx.assume(ctx.And(lv > 0, lv < cap))
        env.run(until=t)
        ctx.eq(tank.rate, total, "net rate")
        ctx.eq(tank.level, lv, "level")
        for add in (None, extra):
            net = total if add is None else total + add
            got = tank.time_until_level(target) if add is None else tank.time_until_level(target, add)
            if lv == target:
                ctx.eq(got, 0.0, "already there")
            elif net == 0:
                ctx.check(got == INF, "never")
            elif (target - lv) * net < 0:
                ctx.check(got == INF, "moving away")
                ctx.reach("time-never")
            else:
                ctx.check(got != INF, "it will be reached")
                ctx.eq(got * net, target - lv, "time to the level")
                ctx.check(got > 0, "in the future")
                ctx.reach("time-finite")
            d = tank.time_until_done() if add is None else tank.time_until_done(add)
            if net > 0:
                ctx.check(d != INF, "it will be full")
                ctx.eq(d * net, cap - lv, "time until full")
            elif net < 0:
                ctx.check(d != INF, "it will be empty")
                ctx.eq(-d * net, lv, "time until empty")
            else:
                ctx.check(d == INF, "never full or empty")


def ties(ctx, sign, rates, rounding):
    """Users that end as the tank reaches its limit end quietly when a limit is no error.

    The waits are `time_until_done`; on a clock of floats they are off by a little of its rounding.
    """
    with UP.EnvironmentContext(initial_time=0.0) as env:
        cap = ctx.real("cap", 1, 30)
        init = ctx.real("init", 0, 30)
        ctx.assume(init <= cap)
        start = ctx.real("start", 1, 1e5)
        tank = UP.ContinuousContainer(env, cap, init, error_empty=False, error_full=False)
        full = sign == "put"
        total = ctx.sum(rates)
        room = cap - init if full else init
        ctx.assume(room > 1)
        gap = ctx.real("gap", 0, 1) if len(rates) > 1 else 0.0
        ctx.assume(ctx.And(gap > 0.001, rates[0] * gap < room - 0.5) if len(rates) > 1 else gap == 0.0)
        left = (room - rates[0] * gap) / total
        tiny = start * 2.0 ** -50
        slack = [ctx.real(f"slack{i}", -1, 1) if rounding else 0.0 for i in range(len(rates))]
        for x in slack:
            ctx.assume(ctx.And(x <= tiny, -x <= tiny))
        told, waits = [], []

        def go(i, rate):
            yield env.timeout(start + (gap if i else 0.0))
            if i == len(rates) - 1:
                wait = tank.time_until_done(rate if full else -rate)
                ctx.near(wait, left, 1e-6, "time until done")
            else:
                wait = gap + left
            waits.append(wait)
            (tank.put if full else tank.get)(rate, wait + slack[i], [lambda: told.append(i)])

        for i, r in enumerate(rates):
            env.process(go(i, r))
        seen = []

        def reader():
            yield env.timeout(start + gap + left + 1.0)
            seen.append((tank.level, tank.rate))
            ctx.check(tank.time_until_done(1.0) >= 0, "time until done is not negative")
            ctx.check(tank.time_until_done(-1.0) >= 0, "time until done is not negative")
            (tank.get if full else tank.put)(0.5, 1.0)

        env.process(reader())
        env.run(until=start + 200.0)
        level, rate = seen[0]
        limit = cap if full else 0.0
        ctx.near(level, limit, 1e-6, "at the limit")
        ctx.le(0, level, "not below zero")
        ctx.le(level, cap, "not above capacity")
        ctx.check(rate == 0, "everyone ended")
        ctx.check(ctx.And(len(told) <= len(rates), len(set(told)) == len(told)), "told at most once")
        ctx.near(tank.level, limit + (-0.5 if full else 0.5), 1e-6, "usable afterwards")
        ctx.check(tank.rate == 0, "at rest")
        ctx.reach("tie")


def residual(ctx, flows):
    """When every user has ended nothing flows and nothing is left to wait for."""
    with UP.EnvironmentContext() as env:
        tank = UP.ContinuousContainer(env, 100.0, 50.0, error_empty=False, error_full=False)
        ends = []
        for i, rate in enumerate(flows):
            dur = ctx.real(f"dur{i}", 1, 20)
            ends.append(dur)
            (tank.put if rate > 0 else tank.get)(abs(rate), dur)
            for e in ends[:-1]:
                ctx.assume(ctx.Not(e == dur))
        env.run(until=30)
        ctx.check(tank.rate == 0, "nothing flows")
        ctx.near(tank.level, 50.0 + ctx.sum(r * d for r, d in zip(flows, ends)), 1e-6, "net amount")
        tank.put(10.0, 20.0)
        env.run(until=60)
        ctx.check(tank.rate == 0, "nothing flows")
        ctx.near(tank.level, 100.0, 1e-6, "full")
        tank.get(1.0, 2.0)
        env.run(until=70)
        ctx.check(tank.rate == 0, "nothing flows")
        ctx.near(tank.level, 98.0, 1e-6, "usable again")
        ctx.reach("residual")


def bad(ctx):
    with UP.EnvironmentContext() as env:
        c = ctx.real("cap", -5, 5)
        i = ctx.real("init", -5, 5)
        r = ctx.real("rate", -5, 5)
        if ctx.Or(c < 0, i < 0):
            ctx.check_raises(ValueError, "negative size", UP.ContinuousContainer, env, c, i)
            return
        ctx.assume(i <= c)
        tank = UP.ContinuousContainer(env, c, i)
        if r <= 0:
            ctx.check_raises(ValueError, "rate must be positive", tank.put, r, 1.0)
            ctx.check_raises(ValueError, "rate must be positive", tank.get, r, 1.0)
        ctx.check(issubclass(ContainerFullError, ContainerError), "error types")


def jobs(tier):
    out = [J("bad", "bad"), J("times1", "times", users=1), J("times2", "times", users=2)]

    def run(name, signs, rates, reads, e=False, **k):
        signs = [{"p": "put", "g": "get"}[c] for c in signs]
        out.append(J(name + ("-err" if e else ""), "run", signs=signs, rates=rates, reads=reads,
                     errors=e, **k))

    for e in (False, True):
        run("p1", "p", None, 1, e)
        run("g1", "g", None, 1, e)
        run("pm", "p", None, 0, e, mon=True)
        run("gm", "g", None, 0, e, mon=True)
        run("pp", "pp", [1, 2], 0, e)
        run("gg", "gg", [2, 1], 0, e)
        run("pg", "pg", [2, 1], 0, e, mon=True)
        run("gp", "gp", [1, 3], 0, e, mon=True)
        run("pc", "pg", [3, 1], 0, e, cancel=True)
        run("gc", "gp", [2, 1], 0, e, cancel=True)
    run("pg1", "pg", [2, 1], 1)
    for sign in ("put", "get"):
        for rounding in (False, True):
            for rates in ([1.5], [1.0, 2.0]) + (([2.0, 1.0, 1.0],) if tier == "thorough" else ()):
                out.append(J(f"ties-{sign}-{len(rates)}{'r' if rounding else ''}", "ties", sign=sign,
                             rates=rates, rounding=rounding))
    out.append(J("residual-pp", "residual", flows=[0.1, 0.2, -0.3]))
    out.append(J("residual-gp", "residual", flows=[-0.1, 0.7, -0.6]))
    if tier == "thorough":
        for e in (False, True):
            run("gp1", "gp", [1, 3], 1, e)
            run("pgp", "pgp", [2, 1, 1], 0, e, mon=True)
            run("gpg", "gpg", [1, 3, 1], 0, e)
        run("same", "pg", [2, 1], 1, same=True)
        run("ppg", "ppg", [2, 1, 4], 0)
        run("ggp", "ggp", [1, 1, 5], 0)
        run("pgsym", "pg", None, 0)
    return out
