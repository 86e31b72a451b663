"""C01: a linear state equals initial + integral of its rate, whatever reads happen."""

from .common import UP, J, TASK_GEN, overlap

BOUNDS = ("one actor; up to 2 (thorough: 3) activations with symbolic start, rate and duration; "
          "up to 2 (thorough: 3) reads and one assignment at symbolic times; all values reals in "
          "the stated intervals")
REACH = ["read-active", "read-inactive", "read-after", "set-active", "set-inactive",
         "interrupted"]


class Lin(UP.Actor):
    x = UP.LinearChangingState(recording=True)
    y = UP.LinearChangingState()


class Drive(UP.Task):
    def task(self, *, actor):
        for k, (gap, rate, dur) in enumerate(actor.stage.plan):
            yield UP.Wait(gap)
            actor.activate_linear_state(state="x", rate=rate, task=self)
            yield UP.Wait(dur)
            actor.deactivate_state(state="x", task=self)


def segments(ctx, nseg, nread):
    with UP.EnvironmentContext() as env:
        x0 = ctx.real("x0", -100, 100)
        plan, segs, t = [], [], 0.0
        for k in range(nseg):
            gap = ctx.real(f"gap{k}", 0, 20)
            rate = ctx.real(f"rate{k}", -10, 10)
            dur = ctx.real(f"dur{k}", 0, 20)
            plan.append((gap, rate, dur))
            segs.append((t + gap, t + gap + dur, rate))
            t = t + gap + dur
        UP.add_stage_variable("plan", plan)
        a = Lin(name="a", x=x0, y=3.0, debug_log=False)

        def expected(at):
            return ctx.sum([x0] + [r * overlap(ctx, at, s, e) for s, e, r in segs])

        reads = []
        rt = 0.0
        for k in range(nread):
            rt = rt + ctx.real(f"read{k}", 0, 30)
            reads.append(rt)

        def reader():
            last = 0.0
            for r in reads:
                yield env.timeout(r - last)
                last = r
                v = a.x
                ctx.observe("read", [env.now, v])
                ctx.eq(v, expected(env.now), "value read = initial + integral of rate")
                ctx.eq(a.x, v, "an immediate second read agrees")
                if r > segs[-1][1]:
                    ctx.reach("read-after")
                elif r > segs[0][0] and r < segs[0][1]:
                    ctx.reach("read-active")
                elif r < segs[0][0]:
                    ctx.reach("read-inactive")

        env.process(reader())
        Drive().run(actor=a)
        end = ctx.real("tail", 0, 10)
        last = reads[-1] if reads else 0.0
        env.run(until=ctx.max(t, last) + end + 1)
        ctx.eq(a.x, expected(t), "final value frozen after deactivation")
        ctx.eq(a.y, 3.0, "another state is untouched")


def assignment(ctx, nread):
    """A value set at any time (also while active) is what later change builds on."""
    with UP.EnvironmentContext() as env:
        x0 = ctx.real("x0", -100, 100)
        gap, rate, dur = (ctx.real("gap", 0, 20), ctx.real("rate", -10, 10),
                          ctx.real("dur", 0, 20))
        UP.add_stage_variable("plan", [(gap, rate, dur)])
        s, e = gap, gap + dur
        a = Lin(name="a", x=x0, y=3.0, debug_log=False)
        t_set, v_set = ctx.real("t_set", 0, 40), ctx.real("v_set", -100, 100)
        times = [("set", t_set)]
        for k in range(nread):
            times.append(("read", ctx.real(f"read{k}", 0, 60)))
        done = [False]

        def expected(at):
            if done[0]:
                return v_set + rate * (overlap(ctx, at, s, e) - overlap(ctx, t_set, s, e))
            return x0 + rate * overlap(ctx, at, s, e)

        def at(kind, t):
            yield env.timeout(t)
            if kind == "set":
                a.x = v_set
                done[0] = True
                ctx.reach("set-active" if t > s and t < e else "set-inactive")
            v = a.x
            ctx.observe("v", [env.now, v])
            ctx.eq(v, expected(env.now), "the value continues from what was set")

        for kind, t in times:
            env.process(at(kind, t))
        Drive().run(actor=a)
        env.run(until=101)
        ctx.eq(a.x, expected(101), "final value")


def interrupted(ctx, read):
    """An interrupt ends the change at the instant it happens."""
    with UP.EnvironmentContext() as env:
        x0 = ctx.real("x0", -100, 100)
        gap, rate, dur = (ctx.real("gap", 0, 20), ctx.real("rate", -10, 10),
                          ctx.real("dur", 0, 20))
        UP.add_stage_variable("plan", [(gap, rate, dur)])
        a = Lin(name="a", x=x0, y=3.0, debug_log=False)
        ti = ctx.real("t_int", 0, 40)
        s, e = gap, ctx.min(gap + dur, ti)
        proc = Drive().run(actor=a)

        def stop():
            yield env.timeout(ti)
            if proc.is_alive:
                proc.interrupt(cause="x")
                ctx.reach("interrupted")

        def reader():
            yield env.timeout(ctx.real("read", 0, 60))
            ctx.eq(a.x, x0 + rate * overlap(ctx, env.now, s, e), "value around an interrupt")

        env.process(stop())
        if read:
            env.process(reader())
        env.run(until=101)
        ctx.eq(a.x, x0 + rate * overlap(ctx, 101, s, e), "value after an interrupt")
        # the state is free again
        t2 = Drive()
        a.activate_linear_state(state="x", rate=2.0, task=t2)
        env.run(until=103)
        ctx.eq(a.x, x0 + rate * overlap(ctx, 101, s, e) + 4.0, "active again")


def jobs(tier):
    out = [J("1seg-1read", "segments", nseg=1, nread=1), J("1seg-2read", "segments", nseg=1, nread=2),
           J("2seg-1read", "segments", nseg=2, nread=1), J("2seg-2read", "segments", nseg=2, nread=2),
           J("assign-1", "assignment", nread=1), J("assign-2", "assignment", nread=2),
           J("int", "interrupted", read=False), J("int-read", "interrupted", read=True)]
    if tier == "thorough":
        out += [J("3seg-2read", "segments", nseg=3, nread=2),
                J("2seg-3read", "segments", nseg=2, nread=3),
                J("3seg-3read", "segments", nseg=3, nread=3), J("assign-3", "assignment", nread=3)]
    return out
