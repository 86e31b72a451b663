"""C05: a recorded history is the exact sequence of values the state took."""

from upstage_des.data_utils import create_table

from .common import UP, J, overlap

BOUNDS = ("3 (thorough: 4) assignments to recording states of two actors at symbolic times (gaps may "
          "be zero) with symbolic values that may repeat; one linear activation with symbolic window "
          "and up to 2 reads")
REACH = ["same-time-same-value", "same-value-later", "same-time-new-value", "moved", "active-read"]


def double(time, value):
    return value * 2


class Running:
    """A recording class with memory."""

    def __init__(self):
        self.total = 0

    def __call__(self, time, value):
        self.total = self.total + value
        return self.total


class Rec(UP.Actor):
    s = UP.State(recording=True, recording_functions=[(double, "s2"), (Running, "stot")])
    d = UP.State(recording=True, record_duplicates=True)
    n = UP.State()
    m = UP.State(recording=True, default_factory=list)


class Lin(UP.Actor):
    x = UP.LinearChangingState(recording=True, recording_functions=[(double, "x2")])


def add(ctx, hist, t, v, dup):
    """Reference: append unless it repeats the last entry."""
    if hist and not dup and ctx.And(hist[-1][0] == t, ctx.same(hist[-1][1], v)):
        ctx.reach("same-time-same-value")
        return
    if hist and hist[-1][0] == t:
        ctx.reach("same-time-new-value")
    elif hist and ctx.same(hist[-1][1], v):
        ctx.reach("same-value-later")
    hist.append((t, v))


def assigns(ctx, n, actors):
    with UP.EnvironmentContext() as env:
        acts, ref = [], []
        for i in range(actors):
            s0, d0 = ctx.real(f"s{i}", -5, 5), ctx.real(f"d{i}", -5, 5)
            acts.append(Rec(name=f"a{i}", s=s0, d=d0, n=0.0, debug_log=False))
            ref.append({"s": [(0.0, s0)], "d": [(0.0, d0)], "s2": [(0.0, s0 * 2)],
                        "stot": [(0.0, s0)], "tot": s0})
        now = 0.0
        for k in range(n):
            dt = ctx.real(f"dt{k}", 0, 5)
            if dt > 0:
                now = now + dt
                env.run(until=now)
            i = ctx.choice(f"who{k}", range(actors)) if actors > 1 else 0
            v = ctx.real(f"v{k}", -5, 5)
            a, r = acts[i], ref[i]
            a.n = v
            if ctx.choice(f"op{k}", ["s", "d"]) == "s":
                a.s = v
                add(ctx, r["s"], now, v, False)
                add(ctx, r["s2"], now, v * 2, False)
                r["tot"] = r["tot"] + v
                add(ctx, r["stot"], now, r["tot"], False)
            else:
                a.d = v
                add(ctx, r["d"], now, v, True)
        for a, r in zip(acts, ref):
            h = a._state_histories
            for key in ("s", "d", "s2", "stot"):
                ctx.eq(h[key], r[key], f"history of {key}")
            ctx.check("n" not in h, "a state that does not record has no history")
            ctx.check(set(h) == {"s", "d", "s2", "stot", "m"}, "nothing else is recorded")


class Box:
    """An object that holds another one, compared by its content."""

    def __init__(self, xs):
        self.xs = xs

    def __eq__(self, other):
        return isinstance(other, Box) and self.xs == other.xs


def mutable(ctx):
    """Recorded values are snapshots, however deep; record_state takes one on demand."""
    with UP.EnvironmentContext() as env:
        a = Rec(name="a", s=0.0, d=0.0, n=0.0, debug_log=False)
        u, v, w = ctx.real("u", -5, 5), ctx.real("v", -5, 5), ctx.real("w", -5, 5)
        t1, t2 = ctx.real("t1", 0, 5, lo_open=True), ctx.real("t2", 0, 5, lo_open=True)
        wrap, bare = {
            "list": (lambda xs: xs, lambda x: x),
            "dict": (lambda xs: {"k": xs, "n": 1}, lambda x: x["k"]),
            "nested": (lambda xs: [[xs]], lambda x: x[0][0]),
            "object": (Box, lambda x: x.xs),
        }[ctx.choice("kind", ["list", "dict", "nested", "object"])]
        a.m = wrap([u])
        bare(a.m).append(v)
        env.run(until=t1)
        a.record_state("m")
        bare(a.m).append(w)
        env.run(until=t1 + t2)
        a.m = a.m
        bare(a.m).append(99.0)
        hist = a._state_histories["m"]
        ctx.eq([(t, x if k == 0 else bare(x)) for k, (t, x) in enumerate(hist)],
               [(0.0, []), (0.0, [u]), (t1, [u, v]), (t1 + t2, [u, v, w])], "snapshots")
        ctx.check_raises(UP.SimulationError, "unknown state", a.record_state, "nope")


def linear(ctx, nread):
    """The history of an active state: true values, and exactly one mark per switch."""
    with UP.EnvironmentContext() as env:
        x0, rate = ctx.real("x0", -5, 5), ctx.real("rate", -5, 5)
        s, dur = ctx.real("s", 0, 10), ctx.real("dur", 0, 10)
        e = s + dur
        a = Lin(name="a", x=x0, debug_log=False)
        reads = [ctx.real(f"r{k}", 0, 30) for k in range(nread)]

        def drive():
            yield env.timeout(s)
            a.activate_linear_state(state="x", rate=rate, task=None)
            yield env.timeout(dur)
            a.deactivate_state(state="x", task=None)

        def reader(t):
            yield env.timeout(t)
            a.x

        env.process(drive())
        for t in reads:
            env.process(reader(t))
        env.run(until=50)
        h = a._state_histories["x"]

        def expected(t):
            return x0 + rate * overlap(ctx, t, s, e)

        vals = [(t, v) for t, v in h if isinstance(v, float)]
        marks = [(i, t, v.name) for i, (t, v) in enumerate(h) if not isinstance(v, float)]
        for t, v in vals:
            ctx.eq(v, expected(t), "every recorded value was true at its time")
        for (t1, _), (t2, _) in zip(h, h[1:]):
            ctx.le(t1, t2, "entries are in time order")
        for (t1, v1), (t2, v2) in zip(h, h[1:]):
            ctx.check(ctx.Not(ctx.And(t1 == t2, ctx.same(v1, v2))), "no entry repeats the last one")
        ctx.check([m[2] for m in marks] == ["activating", "deactivating"], "one mark per switch")
        for (i, t, _), want in zip(marks, (s, e)):
            ctx.eq(t, want, "time of the mark")
            ctx.check(i > 0 and isinstance(h[i - 1][1], float), "the value precedes the mark")
            ctx.eq(h[i - 1][0], want, "the value precedes the mark at the same time")
        for t in reads:
            if ctx.And(t > s, t < e):
                ctx.check(ctx.any_of(t == tt for tt, _ in vals), "a read while active is recorded")
                ctx.reach("active-read")
        twice = []
        for t, v in vals:
            if not (twice and ctx.And(twice[-1][0] == t, ctx.same(twice[-1][1], v * 2))):
                twice.append((t, v * 2))
        ctx.eq(a._state_histories["x2"], twice, "history of the recording function")
        if dur > 0:
            ctx.reach("moved")
        table, cols = create_table()
        rows = [r for r in table if r[2] == "x"]
        ctx.check(len(rows) == len(vals), "one table row per value")
        for row, (t, v) in zip(rows, vals):
            ctx.eq([row[3], row[4]], [t, v], "table row")
        marked = [r[5] for r in rows]
        want = []
        state = "inactive"
        for t, v in h:
            if isinstance(v, float):
                want.append(state)
            else:
                want[-1] = v.name
                state = "active" if v.name == "activating" else "inactive"
        ctx.check(marked == want, "activation column")


def jobs(tier):
    out = [J("2x1", "assigns", n=2, actors=1), J("3x1", "assigns", n=3, actors=1),
           J("2x2", "assigns", n=2, actors=2), J("mutable", "mutable"), J("lin0", "linear", nread=0),
           J("lin1", "linear", nread=1), J("lin2", "linear", nread=2)]
    if tier == "thorough":
        out += [J("4x1", "assigns", n=4, actors=1), J("3x2", "assigns", n=3, actors=2),
                J("lin3", "linear", nread=3)]
    return out
