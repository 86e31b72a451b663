"""C23: a nucleus interrupts exactly the networks that watch a state that changes."""

from .common import UP, J

BOUNDS = ("2 task networks of an actor watching any of 2 states, watching started or ended at any time, reacting to an "
          "interrupt in each of the three ways; 2 (thorough: 3) changes by assignment, or reads of an active "
          "state, at any times with any values; a second actor; a rehearsal")
ASSUMPTIONS = ["a change does not fall in the very instant a task ends or watching starts or ends"]
REACH = ["interrupted", "both-networks", "unwatched", "restart", "ignore", "end", "removed", "added", "same-instant",
         "active", "rehearsed", "refused", "other-actor"]


class Act(UP.Actor):
    x = UP.State(default=0.0)
    y = UP.State(default=0.0)
    fuel = UP.LinearChangingState(default=1.0)


def at(env, t, fn):
    def proc():
        yield env.timeout(t)
        fn()
    env.process(proc())


def network(name, length, reaction, log):
    """A network of one task that waits, again and again."""

    class Wait(UP.Task):
        def task(self, *, actor):
            log.append(("start", name, actor, self.env.now))
            yield UP.Wait(length)
            log.append(("done", name, actor, self.env.now))

        def on_interrupt(self, *, actor, cause):
            log.append(("int", name, actor, self.env.now, cause))
            return getattr(self.INTERRUPT, reaction)

    return UP.TaskNetworkFactory(name, {"W": Wait}, {"W": UP.TaskLinks(default="W", allowed=["W"])}).make_network()


def expected(ctx, length, reaction, hits, end):
    """Start and done times of the task under interrupts at the given times."""
    starts, dones, hits = [0], [], list(hits)
    while True:
        nxt = starts[-1] + length
        if hits and hits[0] < ctx.min(nxt, end):
            t = hits.pop(0)
            if reaction != "IGNORE":
                starts.append(t)
            continue
        if not nxt < end:
            return starts, dones
        dones.append(nxt)
        starts.append(nxt)


def run(ctx, n, nets, reaction, mode, deep=False):
    """Changes of two states under any watch lists."""
    with UP.EnvironmentContext() as env:
        log = []
        act = Act(name="a", debug_log=False)
        other = Act(name="o", debug_log=False)
        nuc = UP.TaskNetworkNucleus(actor=act)
        ctx.check(act.get_nucleus() is nuc, "nucleus of the actor")
        end = 7 if deep else 6
        lengths, watch, since, until = {}, {}, {}, {}
        names = ["zeta", "alpha"][:nets]
        for name in names:
            lengths[name] = ctx.real(f"len_{name}", 4, 5) if name == "zeta" else 6.0
            net = network(name, lengths[name], reaction, log)
            act.add_task_network(net)
            watch[name] = ctx.choice(f"watch_{name}", [["x"], ["x", "y"]] + ([[]] if mode == "plain" and name == "alpha" else []))
            since[name], until[name] = 0, end
            if mode == "late" and name == "zeta":
                since[name] = ctx.real("since", 0, 6, lo_open=True)
                at(env, since[name], lambda name=name: nuc.add_network(name, watch[name]))
            else:
                nuc.add_network(net if ctx.bool(f"by_{name}") else name, watch[name])
            if mode == "removed" and name == "zeta":
                until[name] = ctx.real("until", 0, 6, lo_open=True)
                at(env, until[name], lambda net=net: nuc.remove_network(net))
        nuc2 = UP.TaskNetworkNucleus(actor=other)
        other.add_task_network(network("zeta", 3.0, reaction, log))
        nuc2.add_network("zeta", ["x", "y"])
        for name in names:
            act.start_network_loop(name, init_task_name="W")
        if mode == "other":
            other.start_network_loop("zeta", init_task_name="W")
        changes, t = [], 0
        for i in range(n):
            gap = ctx.real(f"gap{i}", 0, 2.5 if n < 3 else 1.875, lo_open=(i == 0))
            t = t + gap
            who = act if mode != "other" or i else ctx.choice("who", [act, other])
            s = ctx.choice(f"s{i}", ["x", "y"])
            v = ctx.real(f"v{i}", -3, 3)
            changes.append((t, who, s, v))
            if i and ctx.same(gap, 0):
                ctx.reach("same-instant")
        def drive():
            now = 0
            for t, who, s, v in changes:
                if t > now:
                    yield env.timeout(t - now)
                    now = t
                setattr(who, s, v)
        env.process(drive())
        hits = {}
        for name in names:
            for e in (since[name], until[name]):
                for t, *_ in changes:
                    ctx.assume(ctx.Not(ctx.same(t, e)))
            hits[name] = [c for c in changes if c[1] is act and c[2] in watch[name]
                          and (since[name] < c[0] if mode == "late" else True)
                          and (c[0] < until[name] if mode == "removed" else True)]
            if reaction == "END":  # the task that follows starts after the changes of that instant
                hits[name] = [c for i, c in enumerate(hits[name])
                              if not any(ctx.same(c[0], b[0]) for b in hits[name][:i])]
        plans = {}
        for name in names:
            plans[name] = expected(ctx, lengths[name], reaction, [c[0] for c in hits[name]], end)
            for c in changes:
                for d in plans[name][1]:
                    ctx.assume(ctx.Not(ctx.same(c[0], d)))
        o_hits = [c for c in changes if c[1] is other]  # reaction is RESTART there
        o_plan = expected(ctx, 3.0, reaction, [c[0] for c in o_hits], end)
        for c in changes if mode == "other" else []:
            for d in o_plan[1]:
                ctx.assume(ctx.Not(ctx.same(c[0], d)))
        env.run(until=end)
        for who, name, want, plan in [(act, nm, hits[nm], plans[nm]) for nm in names] + [
                (other, "zeta", o_hits, o_plan)][:None if mode == "other" else -1]:
            got = [e for e in log if e[0] == "int" and e[1] == name and e[2] is who]
            ctx.check(len(got) == len(want), "number of interrupts")
            for g, w in zip(got, want):
                ctx.eq(g[3], w[0], "time of the interrupt")
                ctx.check(isinstance(g[4], UP.NucleusInterrupt), "cause of the interrupt")
                ctx.check(g[4].state_name == w[2], "state that changed")
                ctx.eq(g[4].value, w[3], "value it changed to")
                ctx.reach("interrupted")
                ctx.reach(reaction.lower())
                if who is other:
                    ctx.reach("other-actor")
            if len(want) < len(changes):
                ctx.reach("unwatched")
            starts = [e[3] for e in log if e[0] == "start" and e[1] == name and e[2] is who]
            ctx.eq(starts, plan[0], "times the task started")
            ctx.eq([e[3] for e in log if e[0] == "done" and e[1] == name and e[2] is who], plan[1],
                   "times the task was done")
        if nets > 1 and hits[names[0]] and hits[names[1]]:
            ctx.reach("both-networks")
            seq = [e[1] for e in log if e[0] == "int" and e[2] is act]
            want = [nm for c in changes for nm in names if any(c is h for h in hits[nm])]
            ctx.check(seq == want, "order of the interrupts")
        if mode == "late":
            ctx.reach("added")
        if mode == "removed":
            ctx.reach("removed")
        for s in ("x", "y"):
            ctx.eq(getattr(act, s), ([0.0] + [c[3] for c in changes if c[1] is act and c[2] == s])[-1], "value")


def active(ctx):
    """Reading an active state that changed interrupts as well."""
    with UP.EnvironmentContext() as env:
        log = []
        act = Act(name="a", debug_log=False)
        nuc = UP.TaskNetworkNucleus(actor=act)
        act.add_task_network(network("n", 20.0, "IGNORE", log))
        nuc.add_network("n", ["fuel"])
        act.start_network_loop("n", init_task_name="W")
        rate = ctx.real("rate", 0.5, 2)
        a, r = ctx.real("a", 0, 3, lo_open=True), ctx.real("r", 0, 6, lo_open=True)
        d = a + ctx.real("len", 0, 3, lo_open=True)
        for e in (a, d):
            ctx.assume(ctx.Not(ctx.same(r, e)))
        task = UP.Task()
        at(env, a, lambda: act.activate_linear_state(state="fuel", rate=rate, task=task))
        at(env, d, lambda: act.deactivate_state(state="fuel", task=task))
        at(env, r, lambda: act.fuel)
        env.run(until=10)
        got = [(e[3], e[4].value) for e in log if e[0] == "int"]
        for t, v in got:
            ctx.eq(v, 1.0 + rate * ctx.max(0, ctx.min(t, d) - a), "value at the interrupt")
        hit = ctx.any_of(ctx.same(g[0], r) for g in got)
        if r > a and r < d:
            ctx.check(hit, "a read that changes the state interrupts")
            ctx.reach("active")
        else:
            ctx.check(ctx.Not(hit), "a read that changes nothing does not")
        ctx.check(ctx.any_of(ctx.same(g[0], d) for g in got), "the last change interrupts")


def rehearse(ctx):
    """A rehearsal interrupts nothing, and a nucleus refuses what it cannot do."""
    with UP.EnvironmentContext() as env:
        log = []
        act = Act(name="a", debug_log=False)
        if ctx.bool("early"):
            ctx.check_raises(UP.UpstageError, "no nucleus yet", act.get_nucleus)
        nuc = UP.TaskNetworkNucleus(actor=act)
        act.add_task_network(network("n", 20.0, "RESTART", log))
        nuc.add_network("n", ["x"])
        ctx.check_raises(UP.UpstageError, "only one nucleus", UP.TaskNetworkNucleus, actor=act)
        ctx.check_raises(UP.UpstageError, "unknown network", nuc.add_network, "other", ["x"])
        ctx.check_raises(UP.UpstageError, "unknown network", nuc.remove_network, "other")
        ctx.check(act.get_nucleus() is nuc, "the first nucleus stays")
        ctx.reach("refused")
        act.x = 5.0  # no task runs yet
        act.start_network_loop("n", init_task_name="W")
        v = ctx.real("v", -3, 3)
        w = ctx.real("w", 0, 5)

        class Change(UP.Task):
            def task(self, *, actor):
                yield UP.Wait(w)
                actor.x = v

        t = ctx.real("t", 0, 5, lo_open=True)
        env.run(until=t)
        clone = Change().rehearse(actor=act)
        ctx.eq(clone.x, v, "rehearsed value")
        u = ctx.real("u", 6, 9)
        at(env, u - t, lambda: setattr(act, "x", 2.5))
        env.run(until=10)
        got = [(e[3], e[4].value) for e in log if e[0] == "int"]
        ctx.eq(got, [(u, 2.5)], "only the real change interrupts")
        ctx.reach("rehearsed")


def lists(ctx):
    """Networks join and leave in any order; each hears of what it watches, and of nothing else."""
    with UP.EnvironmentContext() as env:
        log = []
        act = Act(name="a", debug_log=False)
        nuc = UP.TaskNetworkNucleus(actor=act)
        names = ["zeta", "alpha"]
        watch = {n: [] for n in names}
        for n in names:
            act.add_task_network(network(n, 100.0, "IGNORE", log))
            act.start_network_loop(n, init_task_name="W")
            watch[n] = ctx.choice(f"watch_{n}", [["x"], ["x", "y"], ["y"]])
            nuc.add_network(n, list(watch[n]))
        env.run(until=1)
        for k in range(2):
            n = ctx.choice(f"net{k}", names)
            op = ctx.choice(f"op{k}", ["remove", "more", "none"])
            if op == "remove":
                if watch[n]:
                    nuc.remove_network(n)
                watch[n] = []
                ctx.reach("removed")
            elif op == "more":
                nuc.add_network(n, ["x"])
                if "x" not in watch[n]:
                    watch[n] = watch[n] + ["x"]
            env.run(until=env.now + ctx.real(f"gap{k}", 0, 2, lo_open=True))
            s, v = ctx.choice(f"s{k}", ["x", "y"]), ctx.real(f"v{k}", -3, 3)
            del log[:]
            setattr(act, s, v)
            env.run(until=env.now + 1)
            want = [(n, env.now - 1, s, v) for n in names if s in watch[n]]
            got = [(e[1], e[3], e[4].state_name, e[4].value) for e in log if e[0] == "int"]
            ctx.check(len(got) == len(want), "as many interrupts as networks that watch")
            for g, w in zip(sorted(got, key=lambda g: names.index(g[0])), want):
                ctx.eq(g, w, "what the network is told")


def swap(ctx, n):
    """A network joins, leaves and joins again for other states, any number of times."""
    with UP.EnvironmentContext() as env:
        log = []
        act = Act(name="a", debug_log=False)
        nuc = UP.TaskNetworkNucleus(actor=act)
        for name in ("one", "two"):
            act.add_task_network(network(name, 100.0, "IGNORE", log))
            act.start_network_loop(name, init_task_name="W")
        nuc.add_network("two", ["x"])
        watch = []
        env.run(until=1)
        for k in range(n):
            op = ctx.choice(f"op{k}", ["x", "y", "xy"] if not watch else ["x", "y", "xy", "remove"])
            if op == "remove":
                nuc.remove_network("one")
                watch = []
                ctx.reach("removed")
            else:
                nuc.add_network("one", list(op))
                watch = watch + [s for s in op if s not in watch]
            env.run(until=env.now + ctx.real(f"gap{k}", 0, 2, lo_open=True))
            now = env.now
            s, v = ctx.choice(f"s{k}", ["x", "y"]), ctx.real(f"v{k}", -3, 3)
            del log[:]
            setattr(act, s, v)
            env.run(until=now + 1)
            got = [(e[1], e[3], e[4].state_name, e[4].value) for e in log if e[0] == "int"]
            want = {"one": s in watch, "two": s == "x"}
            for name in want:
                mine = [g for g in got if g[0] == name]
                ctx.eq(mine, [(name, now, s, v)] if want[name] else [], "what the network is told")


def jobs(tier):
    out = [J("lists", "lists"), J("swap", "swap", n=4)]
    for reaction in ("RESTART", "IGNORE", "END"):
        out += [J(f"plain-{reaction}", "run", n=2, nets=2, reaction=reaction, mode="plain"),
                J(f"late-{reaction}", "run", n=2, nets=1, reaction=reaction, mode="late"),
                J(f"removed-{reaction}", "run", n=2, nets=1, reaction=reaction, mode="removed")]
    out += [J("other", "run", n=2, nets=1, reaction="RESTART", mode="other"), J("active", "active"),
            J("rehearse", "rehearse")]
    if tier == "thorough":
        out.append(J("swap5", "swap", n=5))
        for reaction in ("RESTART", "IGNORE", "END"):
            out += [J(f"three-{reaction}", "run", n=3, nets=2, reaction=reaction, mode="plain"),
                    J(f"deep-{reaction}", "run", n=2, nets=2, reaction=reaction, mode="plain", deep=True),
                    J(f"late2-{reaction}", "run", n=2, nets=2, reaction=reaction, mode="late"),
                    J(f"removed2-{reaction}", "run", n=2, nets=2, reaction=reaction, mode="removed")]
    return out
