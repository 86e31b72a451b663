"""C07: knowledge is a dictionary that refuses accidental overwrites and losses."""

from .common import UP, J

BOUNDS = ("every sequence of 2 (thorough: 3-4) knowledge operations (single and bulk, from the actor or a "
          "task) on 3 names with any initial knowledge and symbolic values; one hold event with symbolic "
          "wait, signal and interrupt times, up to 2 (thorough: 3) interrupts with any action")
REACH = ["refused-set", "refused-clear", "refused-get", "overwritten", "falsy", "bulk-refused",
         "released", "ended", "restarted", "ignored", "not-an-event", "nothing-to-succeed"]
NAMES = ["a", "b", "c"]
OPS = ["set", "set!", "clear", "get", "get!", "take", "bset", "bset!", "bclear", "bget", "bget!", "btake"]


class Act(UP.Actor):
    v = UP.State(default=0.0)


class Tool(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)


def do(actor, task, via, op, names, vals):
    """Carry out one operation; returns what it returned."""
    force = op.endswith("!")
    if via == "task":
        pre = {"set": task.set_actor_knowledge, "clear": task.clear_actor_knowledge,
               "get": task.get_actor_knowledge, "take": task.get_and_clear_actor_knowledge,
               "bset": task.set_actor_bulk_knowledge, "bclear": task.clear_actor_bulk_knowledge,
               "bget": task.get_actor_bulk_knowledge, "btake": task.get_and_clear_actor_bulk_knowledge}
        f = pre[op.rstrip("!")]

        def call(*a, **k):
            return f(actor, *a, **k)
    else:
        pre = {"set": actor.set_knowledge, "clear": actor.clear_knowledge, "get": actor.get_knowledge,
               "take": actor.get_and_clear_knowledge, "bset": actor.set_bulk_knowledge,
               "bclear": actor.clear_bulk_knowledge, "bget": actor.get_bulk_knowledge,
               "btake": actor.get_and_clear_bulk_knowledge}
        call = pre[op.rstrip("!")]
    if op in ("set", "set!"):
        return call(names[0], vals[0], overwrite=force)
    if op in ("bset", "bset!"):
        return call(dict(zip(names, vals)), overwrite=force)
    if op in ("clear", "take"):
        return call(names[0])
    if op in ("get", "get!"):
        return call(names[0], must_exist=force)
    if op in ("bget", "bget!"):
        return call(names, must_exist=force)
    return call(names)


def ops(ctx, n, opset, pairs):
    """Against a plain dictionary."""
    with UP.EnvironmentContext():
        ref = {}
        for m in NAMES if n == 1 else NAMES[:2]:
            k = ctx.choice("init_" + m, ["none", "real", "null"] if n == 1 or m == "a" else ["none", "real"])
            if k != "none":
                ref[m] = ctx.real("i_" + m, -5, 5) if k == "real" else None
        if ref or ctx.choice("empty", [True, False]):
            a = Act(name="a", initial_knowledge=dict(ref), debug_log=False)
        else:
            a = Act(name="a")
        other = Act(name="b", initial_knowledge={"a": -9.0}, debug_log=False)
        task = Tool()
        for k in range(n):
            op = ctx.choice(f"op{k}", opset)
            via = ctx.choice(f"via{k}", ["actor", "task"]) if n == 1 else "actor"
            names = (list(ctx.choice(f"names{k}", pairs)) if op[0] == "b"
                     else [ctx.choice(f"name{k}", NAMES[:2])])
            vals = [ctx.real(f"x{k}_{i}", -5, 5) for i in range(len(names))]
            kind = op.lstrip("b").rstrip("!") if op != "bset" else "set"
            missing = [m for m in names if m not in ref]
            present = [m for m in names if m in ref]
            refuse = ((op in ("set", "bset") and present) or (kind in ("clear", "take") and missing)
                      or (op in ("get!", "bget!") and missing))
            if refuse:
                ctx.check_raises(UP.SimulationError, "refused", do, a, task, via, op, names, vals)
                ctx.reach({"set": "refused-set", "get": "refused-get"}.get(kind, "refused-clear"))
                if op[0] == "b":
                    ctx.reach("bulk-refused")
                    # entries that were not at fault may or may not have been handled
                    new = dict(zip(names, vals))
                    for m in names:
                        now = a.get_bulk_knowledge([m])[m]
                        has = not ctx.raises(UP.SimulationError, a.get_knowledge, m, must_exist=True)
                        if kind == "set":
                            ctx.check(has or m not in ref, "nothing is lost")
                            if has and m not in ref:
                                ctx.eq(now, new[m], "the new value")
                                ref[m] = new[m]
                        elif kind != "get" and m in ref and not has:
                            del ref[m]
            else:
                got = do(a, task, via, op, names, vals)
                if kind == "set":
                    if present:
                        ctx.reach("overwritten")
                    ref.update(zip(names, vals))
                elif kind == "clear":
                    for m in names:
                        del ref[m]
                else:
                    want = {m: ref.get(m) for m in names}
                    ctx.eq(got, want if op[0] == "b" else want[names[0]], "what was asked for")
                    if kind == "take":
                        for m in names:
                            del ref[m]
            for m in NAMES:
                ctx.eq(a.get_knowledge(m), ref.get(m), "knowledge")
                if m in ref:
                    ctx.eq(a.get_knowledge(m, must_exist=True), ref[m], "existing knowledge")
                    if ref[m] is None or ref[m] == 0:
                        ctx.reach("falsy")
                else:
                    ctx.check_raises(UP.SimulationError, "missing knowledge", a.get_knowledge, m,
                                     must_exist=True)
            ctx.eq(other.get_bulk_knowledge(NAMES), {"a": -9.0, "b": None, "c": None}, "other actors")


class Hold(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        p["starts"].append(self.env.now)
        ev = actor.create_knowledge_event(name="hold")
        p["got"].append(None)
        if p["limit"] is None:
            yield ev
        else:
            yield UP.Any(ev, UP.Wait(p["limit"]))
        p["got"][-1] = (self.env.now, ev.is_complete(), dict(ev.get_payload()))
        yield UP.Wait(p["rest"])
        p["end"] = self.env.now

    def on_interrupt(self, *, actor, cause):
        return cause


def hold(ctx, nint, limit):
    """A hold event is released once, with its payload, by whoever succeeds it."""
    with UP.EnvironmentContext() as env:
        a = Act(name="a", debug_log=False)
        p = {"starts": [], "got": [], "limit": ctx.real("limit", 0, 20) if limit else None,
             "rest": ctx.real("rest", 0, 10), "end": None}
        UP.add_stage_variable("plan", p)
        proc = Hold().run(actor=a)
        at, val = ctx.real("at", 0, 20, lo_open=True), ctx.real("val", -5, 5)
        ints, t = [], 0.0
        S = UP.InterruptStates
        for k in range(nint):
            t = t + ctx.real(f"gap{k}", 0, 10, lo_open=True)
            ints.append((t, ctx.choice(f"act{k}", [S.END, S.IGNORE, S.RESTART])))
            ctx.assume(ctx.Not(t == at))
        if limit:
            ctx.assume(ctx.Not(at == p["limit"]))
        seen = []

        def signal():
            yield env.timeout(at)
            has = a.get_knowledge("hold") is not None
            try:
                a.succeed_knowledge_event(name="hold", val=val)
                seen.append((has, True))
            except UP.SimulationError:
                seen.append((has, False))
            seen.append(a.get_knowledge("hold"))
            try:
                a.succeed_knowledge_event(name="hold")
                seen.append("twice")
            except UP.SimulationError:
                seen.append("once")

        def interrupts():
            for t, act in ints:
                yield env.timeout(t - env.now)
                if proc.is_alive:
                    proc.interrupt(cause=act)

        env.process(signal())
        env.process(interrupts())
        env.run(until=100)
        # reference
        starts, got, held, ended, done_at = [0.0], [None], True, False, None
        ev_in = [(at, "signal")]
        marks = sorted_events(ctx, ev_in + [(t, act) for t, act in ints])
        succeeded = None
        for t, what in marks:
            if limit and held and not ended and got[-1] is None and p["limit"] < t:
                got[-1] = (p["limit"], False, {})
                done_at = p["limit"] + p["rest"]
            if done_at is not None:
                ctx.assume(ctx.Not(t == done_at))
            over = ended or (done_at is not None and done_at < t)
            if what == "signal":
                succeeded = held
                if held:
                    held = False
                    if not over and got[-1] is None:
                        got[-1] = (t, True, {"val": val})
                        done_at = t + p["rest"]
                        ctx.reach("released")
            elif over:
                continue
            elif what == S.END:
                ended = True
                if got[-1] is None:
                    held = False
                    ctx.reach("ended")
            elif what == S.RESTART:
                ctx.assume(got[-1] is None or not held)
                starts.append(t)
                got.append(None)
                held, done_at = True, None
                ctx.reach("restarted")
            else:
                ctx.reach("ignored")
        if limit and not ended and got[-1] is None and held:
            got[-1] = (p["limit"], False, {})
            done_at = p["limit"] + p["rest"]
        ctx.check(len(p["starts"]) == len(starts), "number of starts")
        ctx.eq(p["starts"], starts, "start times")
        for g, w in zip(p["got"], got):
            ctx.check((g is None) == (w is None), "released or not")
            if w:
                ctx.eq(list(g), list(w), "release time, completion and payload")
        ctx.eq(p["end"], None if ended else done_at, "end of the task")
        ctx.eq(seen, [(succeeded, succeeded), None, "once"], "the event is used up")
        if not succeeded:
            ctx.reach("nothing-to-succeed")
        ctx.check((a.get_knowledge("hold") is not None) == held, "left over hold events")


def sorted_events(ctx, evs):
    out = []
    for e in evs:
        i = len(out)
        while i > 0 and e[0] < out[i - 1][0]:
            i -= 1
        out.insert(i, e)
    return out


def wrong(ctx):
    with UP.EnvironmentContext():
        x = ctx.real("x", -5, 5)
        a = Act(name="a", initial_knowledge={"k": x})
        ctx.check_raises(UP.SimulationError, "only events can be succeeded", a.succeed_knowledge_event,
                         name="k")
        ctx.eq(a.get_knowledge("k"), x, "still known")
        ctx.check_raises(UP.SimulationError, "nothing to succeed", a.succeed_knowledge_event, name="z")
        ctx.check_raises(UP.SimulationError, "no silent replacement", a.create_knowledge_event, name="k")
        ctx.eq(a.get_knowledge("k"), x, "still known")
        ctx.reach("not-an-event")


def jobs(tier):
    pairs = [("a", "b"), ("b", "c"), ("c",), ()]
    out = [J("one", "ops", n=1, opset=OPS, pairs=pairs),
           J("two", "ops", n=2, opset=["set", "set!", "clear", "get!", "take"], pairs=[]),
           J("two-bulk", "ops", n=2, opset=["set", "bset", "bset!", "bclear", "btake"], pairs=[("a", "b")]),
           J("hold0", "hold", nint=0, limit=False), J("hold0l", "hold", nint=0, limit=True),
           J("hold1", "hold", nint=1, limit=False), J("hold2", "hold", nint=2, limit=False),
           J("wrong", "wrong")]
    if tier == "thorough":
        out += [J("three", "ops", n=3, opset=["set", "set!", "clear", "take"], pairs=[]),
                J("two-all", "ops", n=2, opset=OPS, pairs=pairs[:2]),
                J("hold3", "hold", nint=3, limit=False)]
    return out
