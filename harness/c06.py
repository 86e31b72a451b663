"""C06: states keep their declared contract."""

from .common import UP, J

BOUNDS = ("every subset of given states at creation; every sequence of 2 (thorough: 3) assignments over two "
          "actors, seven kinds of states and five kinds of values, numbers symbolic")
REACH = ["created", "missing", "not-init", "unknown", "frozen", "type", "accepted", "late-first-set",
         "recorded"]


def fresh():
    return [7.0]


class Base(UP.Actor):
    req = UP.State()
    dflt = UP.State(default=1.5, recording=True)


class Act(Base):
    frz = UP.State(default=2.0, frozen=True)
    typ = UP.State(default=0.0, valid_types=(float, str), recording=True)
    fac = UP.State(default_factory=fresh, valid_types=list)
    noi = UP.State(default=3.0, no_init=True, recording=True)
    lazy = UP.State(allow_none_default=True, frozen=True, valid_types=float)


DEFAULTS = {"dflt": 1.5, "frz": 2.0, "typ": 0.0, "fac": [7.0], "noi": 3.0}
TYPES = {"typ": (float, str), "fac": (list,), "lazy": (float,)}
NAMES = ["req", "dflt", "frz", "typ", "fac", "noi", "lazy"]
RECORDED = ("dflt", "typ", "noi")


def compare(ctx, actor, ref, hist):
    for n in NAMES:
        if n in ref:
            ctx.eq(getattr(actor, n), ref[n], f"value of {n}")
        else:
            ctx.check_raises(UP.SimulationError, "reading a state that was never set", getattr, actor, n)
    for n in RECORDED:
        ctx.eq(actor._state_histories.get(n, []), hist[n], f"history of {n}")
    ctx.check(set(actor._state_histories) == {n for n in RECORDED if hist[n]}, "recorded states")


def start(ctx, name, given):
    ref = {**DEFAULTS, **given}
    a = Act(name=name, debug_log=False, **given)
    hist = {n: [(0.0, ref[n])] for n in RECORDED}
    return a, ref, hist


def create(ctx):
    """Every subset of states, and the refused ones."""
    with UP.EnvironmentContext():
        given = {}
        for n in ("req", "dflt", "frz", "typ", "lazy"):
            if ctx.choice("give_" + n, [True, False]):
                given[n] = ctx.real("v_" + n, -5, 5)
        extra = ctx.choice("extra", [None, "noi", "other", "fac", "badtype", "badlazy"])
        if extra == "noi":
            given["noi"] = 1.0
            ctx.check_raises(UP.SimulationError, "a no_init state cannot be given", Act, name="a", **given)
            ctx.reach("not-init")
            return
        if extra == "other":
            given["other"] = 1.0
            ctx.check_raises(UP.UpstageError, "an unknown state cannot be given", Act, name="a", **given)
            ctx.reach("unknown")
            return
        if extra in ("badtype", "badlazy"):
            given["typ" if extra == "badtype" else "lazy"] = 3
            given["req"] = 0.0
            ctx.check_raises(TypeError, "a badly typed value is refused", Act, name="a", **given)
            ctx.reach("type")
            return
        if extra == "fac":
            given["fac"] = [1.0]
        if "req" not in given:
            ctx.check_raises(UP.UpstageError, "a state without default must be given", Act, name="a", **given)
            ctx.reach("missing")
            return
        a, ref, hist = start(ctx, "a", given)
        compare(ctx, a, ref, hist)
        ctx.check(set(a.states) == set(NAMES), "names of the states")
        if "lazy" in given:
            ctx.eq(a.state_values, {n: ref[n] for n in a.states}, "state_values")
        # defaults made by a factory belong to one actor only
        b = Act(name="b", req=0.0, debug_log=False)
        b.fac.append(8.0)
        c = Act(name="c", req=0.0, debug_log=False)
        compare(ctx, a, ref, hist)
        ctx.eq(c.fac, [7.0], "a fresh default for every actor")
        ctx.reach("created")


def sequence(ctx, n, actors, names):
    """A refused assignment changes nothing; an accepted one changes exactly that value."""
    with UP.EnvironmentContext() as env:
        acts = [start(ctx, f"a{i}", {"req": ctx.real(f"req{i}", -5, 5)}) for i in range(actors)]
        for k in range(n):
            dt = ctx.choice(f"dt{k}", [0.0, 1.0]) if n < 3 else 1.0
            if dt:
                env.run(until=env.now + dt)
            i = ctx.choice(f"who{k}", range(actors)) if actors > 1 else 0
            a, ref, hist = acts[i]
            s = ctx.choice(f"state{k}", names)
            kind = ctx.choice(f"kind{k}", ["real", "str", "int", "none", "list"])
            v = {"real": lambda: ctx.real(f"v{k}", -5, 5), "str": lambda: "word", "int": lambda: 3,
                 "none": lambda: None, "list": lambda: [1.0]}[kind]()
            want = None
            if s in ("frz", "lazy") and s in ref:
                want = UP.SimulationError
                ctx.reach("frozen")
            elif s in TYPES and not isinstance(v, TYPES[s]):
                want = TypeError
                ctx.reach("type")
            if want:
                ctx.check_raises(want, "the assignment is refused", setattr, a, s, v)
            else:
                setattr(a, s, v)
                if s == "lazy":
                    ctx.reach("late-first-set")
                ref[s] = v
                ctx.reach("accepted")
                if s in RECORDED:
                    entry = (env.now, v)
                    if not (hist[s][-1][0] == env.now and ctx.same(hist[s][-1][1], v)):
                        hist[s].append(entry)
                        ctx.reach("recorded")
            for a2, r2, h2 in acts:
                compare(ctx, a2, r2, h2)


def active(ctx):
    """The contract of states that change over time: types and required values."""
    with UP.EnvironmentContext() as env:
        class Mover(UP.Actor):
            x = UP.LinearChangingState(valid_types=float)
            p = UP.CartesianLocationChangingState()
            g = UP.GeodeticLocationChangingState()
            s = UP.SharedLinearChangingState(default=1.0)
            w = UP.LinearChangingState(default=2.0, valid_types=(float,))
            seen = UP.DetectabilityState()
            watched = UP.DetectabilityState(default=True)

        class Use(UP.Task):
            def task(self, *, actor):
                actor.activate_linear_state(state="s", rate=rate, task=self)
                yield UP.Wait(100.0)

        v, rate, dt = ctx.real("v", -5, 5), ctx.real("rate", -5, 5), ctx.real("dt", 0, 5, lo_open=True)
        here = UP.CartesianLocation(v, 0.0)
        given = {"x": v, "p": here, "g": UP.GeodeticLocation(v, 0.0)}
        for n in given:
            part = {k: y for k, y in given.items() if k != n}
            ctx.check_raises(UP.UpstageError, f"state {n} must be given", Mover, name="a", **part)
            ctx.check_raises(TypeError, f"state {n} has its type", Mover, name="a", **part, **{n: (v, 0.0)})
        a = Mover(name="a", debug_log=False, **given)
        ctx.eq([a.s, a.w], [1.0, 2.0], "the defaults of changing states")
        ctx.check(a.seen is False, "not detectable unless asked for")
        ctx.check(a.watched is True, "detectable if asked for")
        Use().run(actor=a)
        a.activate_linear_state(state="x", rate=rate, task=None)
        env.run(until=dt)
        want = {"x": v + rate * dt, "s": 1.0 + rate * dt, "p": here, "g": given["g"], "seen": False,
                "watched": True, "w": 2.0}
        bad = ctx.choice("bad", list(want))
        ctx.check_raises(TypeError, "a badly typed value is refused", setattr, a, bad,
                         ctx.choice("value", ["word", None]))
        # and the refused value does not show up later either
        more = ctx.choice("more", [0.0, 1.5])
        if more:
            env.run(until=env.now + more)
        for n in ("x", "s"):
            ctx.eq(getattr(a, n), want[n] + rate * more, f"the active value of {n} is untouched")
        for n in ("p", "g", "seen", "watched", "w"):
            ctx.check(getattr(a, n) == want[n], f"{n} is untouched")
        ctx.reach("type")


def declare(ctx):
    """Contradicting declarations are refused."""
    with UP.EnvironmentContext():
        ctx.check_raises(UP.UpstageError, "two defaults", UP.State, default=1, default_factory=list)
        ctx.check_raises(UP.SimulationError, "no_init needs a default", UP.State, no_init=True)

        def clash():
            class Bad(UP.Actor):
                s = UP.State(default=0.0, recording=True, recording_functions=[(lambda t, v: v, "t")])
                t = UP.State(default=0.0)
            Bad(name="bad")

        def logs():
            class Bad(UP.Actor):
                log = UP.State(default=0.0)
            Bad(name="bad")

        ctx.check_raises(UP.SimulationError, "a recording name is not a state name", clash)
        ctx.check_raises(UP.UpstageError, "no state is called log", logs)

        class Sub(Act):
            more = UP.State(default=9.0)

        v = ctx.real("v", -5, 5)
        s, a = Sub(name="s", req=v), Act(name="a", req=0.0)
        s.dflt = v
        ctx.eq([s.req, s.dflt, s.more, a.dflt], [v, v, 9.0, 1.5], "inherited states")
        ctx.check(set(s.states) == {*NAMES, "more"} and set(a.states) == set(NAMES), "inherited names")
        ctx.check_raises(UP.UpstageError, "the base class is not extended", Act, name="b", req=0.0, more=1.0)


def jobs(tier):
    out = [J("create", "create"), J("seq1", "sequence", n=1, actors=2, names=NAMES),
           J("seq2", "sequence", n=2, actors=1, names=NAMES), J("active", "active"),
           J("seq2x2", "sequence", n=2, actors=2, names=["dflt", "lazy", "typ"]),
           J("declare", "declare")]
    if tier == "thorough":
        out += [J("seq2x2all", "sequence", n=2, actors=2, names=NAMES),
                J("seq3", "sequence", n=3, actors=1, names=["dflt", "lazy", "typ", "frz"])]
    return out
