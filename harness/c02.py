"""C02: a shared linear state changes at the sum of the rates of its active users."""

from .common import UP, J, overlap

BOUNDS = ("2 (thorough: 3) concurrent tasks on 1 or 2 actors, each with symbolic start, rate and "
          "duration, ended by deactivation, interrupt or both; up to 2 reads and one assignment "
          "at symbolic times")
REACH = ["overlap", "nested", "apart", "interrupted", "set-active", "duplicate", "foreign"]


class Tank(UP.Actor):
    fuel = UP.SharedLinearChangingState(recording=True)


class Burn(UP.Task):
    def task(self, *, actor):
        start, rate, dur = actor.stage.plan[self]
        yield UP.Wait(start)
        actor.activate_state(state="fuel", rate=rate, task=self)
        yield UP.Wait(dur)
        actor.deactivate_state(state="fuel", task=self)


def users(ctx, n, nread, cut=False, assign=False):
    with UP.EnvironmentContext() as env:
        x0 = ctx.real("x0", -100, 100)
        plan, segs = {}, []
        UP.add_stage_variable("plan", plan)
        a = Tank(name="a", fuel=x0, debug_log=False)
        prev = 0.0
        for k in range(n):
            start = prev + ctx.real(f"start{k}", 0, 10)
            prev = start
            rate, dur = ctx.real(f"rate{k}", -10, 10), ctx.real(f"dur{k}", 0, 20)
            t = Burn()
            plan[t] = (start, rate, dur)
            end = start + dur
            proc = t.run(actor=a)
            if cut and k == 0:
                ti = ctx.real("cut", 0, 40)
                end = ctx.min(end, ti)

                def stop(p=proc, ti=ti):
                    yield env.timeout(ti)
                    if p.is_alive:
                        p.interrupt()
                        ctx.reach("interrupted")

                env.process(stop())
            segs.append((start, end, rate))
        if n >= 2:
            if segs[1][0] > segs[0][1]:
                ctx.reach("apart")
            elif segs[1][1] < segs[0][1]:
                ctx.reach("nested")
            else:
                ctx.reach("overlap")
        base = [x0, None]
        tset, vset = (ctx.real("t_set", 0, 40), ctx.real("v_set", -50, 50)) if assign else (0, 0)

        def expected(at):
            tot = base[0]
            for s, e, r in segs:
                w = overlap(ctx, at, s, e)
                if base[1] is not None:
                    w = w - overlap(ctx, base[1], s, e)
                tot = tot + r * w
            return tot

        def at(kind, t):
            yield env.timeout(t)
            if kind == "set":
                a.fuel = vset + 0.0
                base[0], base[1] = vset, t
                if t > segs[0][0] and t < segs[0][1]:
                    ctx.reach("set-active")
            v = a.fuel
            ctx.observe("fuel", [env.now, v])
            ctx.eq(v, expected(env.now), "value = initial + sum of rates x active time")
            ctx.eq(a.fuel, v, "an immediate second read agrees")

        if assign:
            env.process(at("set", tset))
        for k in range(nread):
            env.process(at("read", ctx.real(f"read{k}", 0, 40)))
        env.run(until=101)
        ctx.eq(a.fuel, expected(101), "value after every user ended")
        env.run(until=105)
        ctx.eq(a.fuel, expected(101), "value at rest")


def misuse(ctx):
    """A task can use the state once, and only remove its own contribution."""
    with UP.EnvironmentContext() as env:
        x0, r1, r2 = ctx.real("x0", -10, 10), ctx.real("r1", -5, 5), ctx.real("r2", -5, 5)
        a = Tank(name="a", fuel=x0, debug_log=False)
        t1, t2, t3 = Burn(), Burn(), Burn()
        d1, d2, d3 = ctx.real("d1", 0, 5), ctx.real("d2", 0, 5), ctx.real("d3", 0, 5)
        a.activate_state(state="fuel", rate=r1, task=t1)
        env.run(until=env.now + d1) if d1 > 0 else None
        a.activate_state(state="fuel", rate=r2, task=t2)
        which = ctx.choice("which", ["dup", "foreign", "none"])
        if which == "dup":
            ctx.check_raises(Exception, "a task cannot activate twice",
                             a.activate_state, state="fuel", rate=1.0, task=t1)
            ctx.reach("duplicate")
        elif which == "foreign":
            ctx.check_raises(Exception, "only a user can deactivate",
                             a.deactivate_state, state="fuel", task=t3)
            ctx.reach("foreign")
        env.run(until=env.now + d2) if d2 > 0 else None
        first = ctx.bool("first")
        if first:
            a.deactivate_state(state="fuel", task=t1)
        else:
            a.deactivate_state(state="fuel", task=t2)
        env.run(until=env.now + d3) if d3 > 0 else None
        left = ctx.ite(first, r2, r1)
        ctx.eq(a.fuel, x0 + r1 * d1 + (r1 + r2) * d2 + left * d3, "remaining contribution")
        a.deactivate_state(state="fuel", task=t2 if first else t1)
        v = a.fuel
        env.run(until=env.now + 3)
        ctx.eq(a.fuel, v, "no users, no change")
        a.activate_state(state="fuel", rate=r1, task=t1)
        env.run(until=env.now + 2)
        ctx.eq(a.fuel, v + 2 * r1, "a former user can come back")


def jobs(tier):
    out = [J("2-1", "users", n=2, nread=1), J("2-cut", "users", n=2, nread=1, cut=True),
           J("2-assign", "users", n=2, nread=1, assign=True), J("2-0", "users", n=2, nread=0),
           J("1-2", "users", n=1, nread=2), J("misuse", "misuse"),
           J("3-0", "users", n=3, nread=0)]
    if tier == "thorough":
        out += [J("2-2", "users", n=2, nread=2), J("3-1", "users", n=3, nread=1),
                J("3-cut", "users", n=3, nread=0, cut=True),
                J("2-assign-cut", "users", n=2, nread=1, cut=True, assign=True)]
    return out
