"""C08: a task network runs its queue first, then the default links."""

from .common import UP, J

BOUNDS = ("networks of 3 tasks and a decision with every default link and queue action of 3 (thorough: 4) "
          "consecutive tasks, symbolic durations, one queue change and up to 2 interrupts from outside at "
          "symbolic times; 2 parallel networks; factories of up to 3 tasks")
REACH = ["queued", "default", "no-default", "set-on-queue", "interrupted", "decided", "terminal",
         "outside-queued", "outside-refused"]


class Act(UP.Actor):
    v = UP.State(default=0.0)


def note(p, task, actor):
    """Keep the queue, which must look the same in every way to ask for it."""
    queue = list(task.get_actor_task_queue(actor))
    p["queues"].append(queue)
    nxt, every = queue[0] if queue else None, actor.get_all_task_queues()
    p["same"].append(task.get_actor_next_task(actor) == nxt and queue in list(every.values())
                     and (len(every) > 1 or [actor.get_next_task(n) for n in every] == [nxt]))


class Step(UP.Task):
    """Logs its start, may change the queue, and waits."""

    tag = "?"

    def task(self, *, actor):
        p = actor.stage.plan
        k = len(p["log"])
        p["log"].append((self.tag, self.env.now))
        p["act"](k, self, actor)
        note(p, self, actor)
        yield UP.Wait(p["dur"](k))

    def on_interrupt(self, *, actor, cause):
        return UP.InterruptStates.END


class X(Step):
    tag = "X"


class Y(Step):
    tag = "Y"


class Z(Step):
    tag = "Z"


class D(UP.DecisionTask):
    def make_decision(self, *, actor):
        p = actor.stage.plan
        k = len(p["log"])
        p["log"].append(("D", self.env.now))
        p["act"](k, self, actor)
        note(p, self, actor)


class DNow(D):
    DO_NOT_HOLD = True


class Ended(Exception):
    pass


def flow(ctx, n, init, acts, outside, nint, hold=True):
    """The order and times of tasks against a reference scheduler."""
    with UP.EnvironmentContext() as env:
        a = Act(name="a", debug_log=False)
        names = ["X", "Y", "D"] if n < 4 else ["X", "Y"]
        default = {"X": ctx.choice("dX", ["X", "Y", None]), "Y": ctx.choice("dY", ["D", "X"]),
                   "Z": "X", "D": ctx.choice("dD", [None, "X"])}
        allowed = {"X": ["X", "Y"], "Y": ["X", "Y", "Z", "D"], "Z": ["X", "Y", "Z", "D"],
                   "D": ["X", "Y", "Z"]}
        fac = UP.TaskNetworkFactory(
            "net", {"X": X, "Y": Y, "Z": Z, "D": D if hold else DNow},
            {t: UP.TaskLinks(default=default[t], allowed=allowed[t]) for t in default})
        a.add_task_network(fac.make_network())
        done, durs = [], {}

        def act(k, task, actor):
            if k >= n:
                raise Ended()
            what = ctx.choice(f"act{k}", acts)
            done.append(what)
            if what == "set":
                task.set_actor_task_queue(actor, ["Y"])
            elif what == "set2":
                task.set_actor_task_queue(actor, ["X", "Y"])
            elif what == "clearset":
                task.clear_actor_task_queue(actor)
                task.set_actor_task_queue(actor, ["Z"])
            elif what == "clear":
                actor.clear_task_queue("net")

        def dur(k):
            durs[k] = ctx.real(f"dur{k}", 0, 5, lo_open=True)
            return durs[k]

        p = {"log": [], "act": act, "dur": dur, "queues": [], "same": []}
        UP.add_stage_variable("plan", p)
        queue = []
        if init in ("queue", "both"):
            queue = ["X", "Y"]
            given = list(queue)
            a.set_task_queue("net", given)
            ctx.check_raises(UP.SimulationError, "a queue is not replaced", a.set_task_queue, "net", ["X"])
            given.append("junk")
            ctx.eq(a.get_task_queue("net"), queue, "the queue")
        first = None if init == "queue" else ("Z" if init == "both" else ctx.choice("first", names))
        a.start_network_loop("net", first)
        evs, t = [], 0.0
        if outside:
            t = ctx.real("out", 0, 12, lo_open=True)
            evs.append((t, "set"))
        for k in range(nint):
            t = ctx.real(f"int{k}", 0, 12, lo_open=True)
            for u, _ in evs:
                ctx.assume(ctx.Not(u == t))
            evs.append((t, "int"))
        out = {}

        def at(i, t, what):
            yield env.timeout(t)
            data = a.get_running_task("net")
            out[i] = (data.name, list(a.get_task_queue("net")))
            ctx.check(set(a.get_running_tasks()) == {"net"}, "running networks")
            if what == "set":
                try:
                    a.set_task_queue("net", ["Z"])
                    out["ok"] = True
                except UP.SimulationError:
                    out["ok"] = False
            else:
                a.interrupt_network("net")

        for i, (t, what) in enumerate(evs):
            env.process(at(i, t, what))
        try:
            env.run(until=1000)
            error = None
        except (Exception, Ended) as e:
            error = e
        # reference
        todo = []
        for i, (t, what) in enumerate(evs):
            j = len(todo)
            while j > 0 and t < todo[j - 1][1]:
                j -= 1
            todo.insert(j, (i, t, what))
        log, queues, now = [], [], 0.0
        cur = queue.pop(0) if queue else first
        want = None
        for k in range(n + 1):
            log.append((cur, now))
            if k == n:
                want = Ended
                break
            what = done[k] if k < len(done) else None
            if what in ("set", "set2"):
                if queue:
                    want = UP.SimulationError
                    ctx.reach("set-on-queue")
                    break
                queue = ["Y"] if what == "set" else ["X", "Y"]
            elif what == "clearset":
                queue = ["Z"]
            elif what == "clear":
                queue = []
            queues.append(list(queue))
            if cur == "D":
                ctx.reach("decided")
                ctx.check(k not in durs, "a decision takes no time")
                end = now
            else:
                end = now + durs[k]
                while todo:
                    i, t, kind = todo[0]
                    ctx.assume(ctx.Not(t == end))
                    if not (t < end):
                        break
                    todo.pop(0)
                    ctx.check(out[i][0] == cur, "name of the running task")
                    ctx.check(out[i][1] == queue, "queue while it runs")
                    if kind == "set":
                        ctx.check(out["ok"] == (not queue), "only an empty queue can be set")
                        if not queue:
                            queue = ["Z"]
                            ctx.reach("outside-queued")
                        else:
                            ctx.reach("outside-refused")
                    else:
                        end = t
                        ctx.reach("interrupted")
                        break
            now = end
            nxt = queue[0] if queue else default[cur]
            if nxt is None:
                want = UP.SimulationError
                ctx.reach("no-default")
                break
            if nxt not in allowed[cur]:
                ctx.known("F14", True)
                ctx.check(isinstance(error, UP.SimulationError) and len(p["log"]) == k + 1,
                          "a task that is not allowed to follow is refused")
                return
            ctx.reach("queued" if queue else "default")
            if queue:
                queue.pop(0)
            cur = nxt
        ctx.check(len(p["log"]) == len(log), "number of tasks started")
        ctx.eq(p["log"], log, "tasks and start times")
        ctx.check(p["queues"] == queues, "queue at every start")
        ctx.check(all(p["same"]), "every view of the queue agrees")
        ctx.check(type(error) is want or isinstance(error, want), "how the network ended")


def nostart(ctx):
    with UP.EnvironmentContext() as env:
        a = Act(name="a", debug_log=False)
        d = ctx.real("d", 0, 5)
        fac = UP.TaskNetworkFactory.from_single_looping("net", X)
        a.add_task_network(fac.make_network())
        ctx.check(a.get_running_task("net") is None and a.get_running_tasks() == {}, "nothing runs")
        ctx.check_raises(UP.UpstageError, "nothing to interrupt", a.interrupt_network, "net")
        ctx.check_raises(UP.SimulationError, "no such network", a.get_running_task, "nope")
        ctx.check_raises(UP.SimulationError, "name is taken", a.add_task_network, fac.make_network())
        a.start_network_loop("net")
        ctx.check_raises(UP.SimulationError, "nothing to start with", env.run, until=d + 1)


def factory(ctx, kind, n):
    """Ready made networks run their tasks in the order given, forever or until terminal."""
    with UP.EnvironmentContext() as env:
        a = Act(name="a", debug_log=False)
        classes = [X, Y, Z][:n]
        make = {"loop1": lambda: UP.TaskNetworkFactory.from_single_looping("net", X),
                "term1": lambda: UP.TaskNetworkFactory.from_single_terminating("net", X),
                "term": lambda: UP.TaskNetworkFactory.from_ordered_terminating("net", classes),
                "loop": lambda: UP.TaskNetworkFactory.from_ordered_loop("net", classes)}[kind]
        total = 4 if "loop" in kind else n
        durs = [ctx.real(f"d{k}", 0, 5, lo_open=True) for k in range(total)] + [1e6]

        p = {"log": [], "act": lambda *_: None, "dur": lambda k: durs[k], "queues": [], "same": []}
        UP.add_stage_variable("plan", p)
        a.add_task_network(make().make_network(other_name="other"))
        ctx.check(a.has_task_network("other") and not a.has_task_network("net"), "name of the network")
        a.start_network_loop("other", "X")
        env.run(until=100)
        now, want = 0.0, []
        for k in range(total + ("loop" in kind)):
            want.append((classes[k % n].__name__, now))
            now = now + durs[k]
        ctx.eq(p["log"], want, "tasks and start times")
        if "term" in kind:
            ctx.reach("terminal")
            cur = a.get_running_task("other")
            ctx.check(cur.name not in "XYZ" and cur.process.is_alive, "it stays in a terminal task")
            a.interrupt_network("other")
            ctx.check_raises(UP.SimulationError, "a terminal task cannot be interrupted", env.run, until=200)
        else:
            ctx.check(a.get_running_task("other").name == want[-1][0], "running task")


def parallel(ctx):
    """Networks of one actor are independent of each other."""
    with UP.EnvironmentContext() as env:
        a, b = Act(name="a", debug_log=False), Act(name="b", debug_log=False)
        log = {}
        durs = {}

        class Loop(UP.Task):
            def task(self, *, actor):
                net = self._network_name
                log.setdefault((actor.name, net), []).append(self.env.now)
                k = len(log[(actor.name, net)])
                yield UP.Wait(durs[actor.name, net] if k < 3 else 1e6)

            def on_interrupt(self, *, actor, cause):
                return cause

        fac = UP.TaskNetworkFactory.from_single_looping("net", Loop)
        names = {"a": [], "b": []}
        for actor, k in ((a, 2), (b, 1)):
            for i in range(k):
                nm = actor.suggest_network_name(fac)
                ctx.check(nm not in names[actor.name], "a suggested name is free")
                names[actor.name].append(nm)
                actor.add_task_network(fac.make_network(other_name=nm))
                durs[actor.name, nm] = ctx.real(f"d{i}", 0, 5, lo_open=True) if actor is a else 1.0
                actor.start_network_loop(nm, "Loop")
        at = ctx.real("at", 0, 12, lo_open=True)
        what = ctx.choice("what", [UP.InterruptStates.END, UP.InterruptStates.RESTART,
                                   UP.InterruptStates.IGNORE])
        n0 = names["a"][0]
        other = names["a"][1]
        d0 = durs["a", n0]
        ctx.assume(ctx.Not(ctx.Or(at == d0, at == d0 + d0)))

        def interrupt():
            yield env.timeout(at)
            a.interrupt_network(n0, cause=what)

        env.process(interrupt())
        env.run(until=50)

        def starts(d):
            return [0.0, d, d + d]

        ctx.eq(log["a", other], starts(durs["a", other]), "the other network of this actor")
        ctx.eq(log["b", names["b"][0]], starts(durs["b", names["b"][0]]), "the other actor")
        got = log["a", n0]
        if what is UP.InterruptStates.IGNORE:
            ctx.eq(got, starts(d0), "ignored")
        elif at < d0:
            ctx.eq(got, [0.0, at, at + d0], "ended or restarted in the first run")
        elif at < d0 + d0:
            ctx.eq(got, [0.0, d0, at], "in the second run")
        else:
            ctx.eq(got, [0.0, d0, d0 + d0, at], "in the last run")
        ctx.check(set(a.get_running_tasks()) == set(names["a"]), "running networks")
        a.delete_task_network(n0)
        ctx.check(set(a.get_running_tasks()) == {other} and not a.has_task_network(n0), "deleted")
        ctx.check_raises(UP.SimulationError, "no such network", a.delete_task_network, n0)
        ctx.check(a.suggest_network_name(fac) == "net" and b.suggest_network_name(fac) != "net",
                  "a name can be used again")


def naming(ctx):
    """Suggested names are free, whatever was deleted before."""
    with UP.EnvironmentContext():
        class Once(UP.Task):
            def task(self, *, actor):
                yield UP.Wait(1.0)

        fac = UP.TaskNetworkFactory.from_single_looping("net", Once)
        b = Act(name="b", debug_log=False)
        for k in range(6):
            have = [nm for nm in ["net"] + [f"net_{i}" for i in range(1, 6)] if b.has_task_network(nm)]
            if len(have) > 1 and ctx.choice(f"drop{k}", [False, True]):
                b.delete_task_network(have[ctx.choice(f"which{k}", list(range(len(have))))])
            nm = b.suggest_network_name(fac)
            ctx.check(not b.has_task_network(nm), "a suggested name is free")
            b.add_task_network(fac.make_network(other_name=nm))


def replaced(ctx):
    """A network that takes the name of a deleted one starts afresh."""
    with UP.EnvironmentContext() as env:
        log = []

        def kind(name, dur):
            class Some(UP.Task):
                def task(self, *, actor):
                    log.append((name, self.env.now))
                    yield UP.Wait(dur)

            return Some

        dur = {n: ctx.real(f"d_{n}", 0, 5, lo_open=True) for n in "AB"}
        links = {"A": UP.TaskLinks(default="B", allowed=["A", "B"]),
                 "B": UP.TaskLinks(default="B", allowed=["A", "B"])}
        fac = UP.TaskNetworkFactory("net", {n: kind(n, dur[n]) for n in "AB"}, links)
        a = Act(name="a", debug_log=False)
        kept = ctx.bool("other")
        if kept:
            a.add_task_network(fac.make_network(other_name="other"))
            a.set_task_queue("other", ["B", "A"])
        a.add_task_network(fac.make_network())
        before = ctx.choice("before", [[], ["A"], ["A", "A"], ["B", "A"]])
        if before:
            a.set_task_queue("net", list(before))
        ctx.eq(a.get_task_queue("net"), before, "the queue")
        a.delete_task_network("net")
        ctx.check(not a.has_task_network("net") and set(a.get_all_task_queues()) == ({"other"} if kept else set()),
                  "no network, no queue")
        a.add_task_network(fac.make_network())
        ctx.check(a.get_task_queue("net") == [] and a.get_next_task("net") is None, "a new network has no queue")
        after = ctx.choice("after", [[], ["A"], ["A", "B", "A"]])
        if after:
            a.set_task_queue("net", list(after))
        init = ctx.choice("init", ["B", None] if after else ["A", "B"])
        want = ([init] if init else []) + after if init is None or not after or init == after[0] else None
        if want is None:
            return
        a.start_network_loop("net", init)
        if init and after:
            want = list(after)
        want = want + ["B"] * 4
        t, times = 0.0, []
        for n in want[:4]:
            times.append((n, t))
            t = t + dur[n]
        env.run(until=t)
        ctx.eq(log[:4], times, "the tasks that ran")
        if kept:
            ctx.check(a.get_task_queue("other") == ["B", "A"], "the queue of the other network")


def decisions(ctx, hold):
    """Holding decisions let others decide first; the others move right on."""
    with UP.EnvironmentContext() as env:
        log = []
        d = ctx.real("d", 0, 5, lo_open=True)

        class W(UP.Task):
            def task(self, *, actor):
                log.append((actor.name, "W", self.env.now))
                yield UP.Wait(d)

        class Think(UP.DecisionTask):
            DO_NOT_HOLD = not hold

            def make_decision(self, *, actor):
                log.append((actor.name, "T", self.env.now))
                self.set_actor_task_queue(actor, ["W"])

        fac = UP.TaskNetworkFactory("net", {"W": W, "T": Think},
                                    {"W": UP.TaskLinks(default="T", allowed=["T"]),
                                     "T": UP.TaskLinks(default=None, allowed=["W"])})
        for nm in "ab":
            actor = Act(name=nm, debug_log=False)
            actor.add_task_network(fac.make_network())
            actor.start_network_loop("net", "W")
        env.run(until=d + d / 2)
        order = ["aT", "bT", "aW", "bW"] if hold else ["aT", "aW", "bT", "bW"]
        ctx.eq(log, [("a", "W", 0.0), ("b", "W", 0.0)] + [(o[0], o[1], d) for o in order], "order")


def jobs(tier):
    short = ["none", "set", "clearset"]
    out = [J("flow3", "flow", n=3, init="name", acts=short, outside=False, nint=0),
           J("flow3now", "flow", n=3, init="name", acts=short, outside=False, nint=0, hold=False),
           J("queue3", "flow", n=3, init="queue", acts=["none", "set", "clear"], outside=False, nint=0),
           J("both2", "flow", n=2, init="both", acts=["none", "set2"], outside=True, nint=0),
           J("out2", "flow", n=2, init="name", acts=["none", "set2"], outside=True, nint=1),
           J("int3", "flow", n=3, init="name", acts=["none"], outside=False, nint=2),
           J("nostart", "nostart"), J("parallel", "parallel"), J("replaced", "replaced"), J("naming", "naming"), J("hold", "decisions", hold=True),
           J("nohold", "decisions", hold=False),
           J("single-loop", "factory", kind="loop1", n=1),
           J("single-term", "factory", kind="term1", n=1)]
    out += [J(f"{k}{n}", "factory", kind=k, n=n) for k in ("term", "loop") for n in (1, 2, 3)]
    if tier == "thorough":
        out += [J("flow4", "flow", n=4, init="name", acts=short, outside=False, nint=0),
                J("out3", "flow", n=3, init="queue", acts=["none", "set", "clear"], outside=True, nint=1),
                J("int4", "flow", n=4, init="name", acts=["none", "set2"], outside=False, nint=2)]
    return out
