"""C20: units are converted and shown consistently."""

from upstage_des.base import UpstageBase
from upstage_des.units import unit_convert

from .common import UP, J

BOUNDS = ("any value converted between any two of five distance and five time units, by any of their names; "
          "any clock reading within three seconds of 14 chosen instants for each time unit; "
          "waits of any length in any unit")
ASSUMPTIONS = ["conversion factors are compared to the defined lengths up to one part in 100000",
               "rounding to microseconds before showing a time is read as exact"]
REACH = ["distance", "time", "refused", "shown", "ticks", "wait"]

DIST = {"m": 1.0, "km": 1000.0, "mi": 1609.344, "nmi": 1852.0, "ft": 0.3048}
TIME = {"s": 1, "min": 60, "hr": 3600, "day": 86400, "week": 604800}
NAMES = {"s": ["s", "second", "seconds", "Second"], "min": ["min", "minute", "Minutes"],
         "hr": ["hr", "hour", "hours", "HR"], "day": ["day", "days"], "week": ["week", "WEEKS"]}


def close(ctx, a, b, rel, label):
    e, m = a - b, abs(b)
    ctx.check(ctx.And(e <= rel * m, -e <= rel * m), label)


def convert(ctx, kind):
    table = DIST if kind == "distance" else TIME
    rel = 1e-5 if kind == "distance" else 1e-12
    v = ctx.real("v", -1000, 1000)
    a, b = ctx.choice("from", list(table)), ctx.choice("to", list(table))
    na, nb = (ctx.choice("na", NAMES.get(a, [a, a.upper()])), ctx.choice("nb", NAMES.get(b, [b, b.upper()])))
    r = unit_convert(v, na, nb)
    close(ctx, r, v * table[a] / table[b], rel, "converted by the ratio of the units")
    close(ctx, unit_convert(r, nb, na), v, 1e-5 if kind == "distance" else 1e-12, "there and back")
    if a == b:
        ctx.eq(r, v, "a unit is itself")
    w = ctx.real("w", -1000, 1000)
    ctx.near(unit_convert(v + w, a, b), r + unit_convert(w, a, b), 1e-6, "sums convert to sums")
    ctx.reach(kind)


def refused(ctx):
    a = ctx.choice("from", ["m", "ft", "s", "hour", "week", "furlong", ""])
    b = ctx.choice("to", ["km", "minutes", "furlong", "days", "FT"])
    kind = {"m": 0, "ft": 0, "km": 0, "FT": 0, "s": 1, "hour": 1, "week": 1, "minutes": 1, "days": 1}
    v = ctx.real("v", 0, 10)
    if kind.get(a, 7) == kind.get(b, 8):
        unit_convert(v, a, b)
    else:
        ctx.check_raises(ValueError, "units of different kinds do not convert", unit_convert, v, a, b)
        ctx.reach("refused")


INSTANTS = [0, 1, 59, 115, 60 * 31, 60 * 62, 3599, 3600, 23 * 3600 + 59 * 60 + 58, 86400, 86401, 90061,
            4 * 86400 - 1, 1000 * 86400]


def clock(ctx, unit, called):
    """The time of day is the whole seconds that have passed."""
    base = ctx.choice("base", INSTANTS)
    d = ctx.real("d", 0, 3)
    # not within a rounding error of the next second
    for i in range(1, 4):
        ctx.assume(ctx.Not(ctx.And(d > i - 0.001, d < i)))
    now = (base + d) / TIME[unit]
    with UP.EnvironmentContext(initial_time=now):
        if called is not None:
            UP.add_stage_variable("time_unit", called)
        got = UpstageBase().pretty_now
    n = 0
    while n < 3 and bool(d >= n + 1):
        n += 1
    day, sec = divmod(base + n, 86400)
    ctx.check(got == f"[Day {day:4d} - {sec // 3600:02d}:{sec % 3600 // 60:02d}:{sec % 60:02d}]",
              "day and time of day")
    ctx.reach("shown")


def ticks(ctx):
    now = ctx.choice("now", [0.0, 4.5, 155.0, 124.5, 250.25, 1000.0])
    unit = ctx.choice("unit", ["clock ticks", "day", "Ticks"])
    count = ctx.choice("count", [None, 125, 24, 2.5, 0.75])
    with UP.EnvironmentContext(initial_time=now):
        UP.add_stage_variable("time_unit", unit)
        if count is not None:
            UP.add_stage_variable("daily_time_count", count)
        got = UpstageBase().pretty_now
    day, rem = divmod(now, count) if count else (None, now)
    want = f"[{now:.3f} {unit}]" if count is None else f"[Day {int(day):4d} - {rem:.3f} {unit}]"
    ctx.check(got == want, "clock of another unit")
    ctx.reach("ticks")


def wait(ctx):
    """A wait in some unit takes that long on the clock of any other unit."""
    stage = ctx.choice("stage", [None, "s", "Minutes", "hour", "days", "week"])
    unit = ctx.choice("unit", [None, "seconds", "min", "HR", "day", "weeks"])
    kinds = {"s": 1, "minutes": 60, "min": 60, "hour": 3600, "hr": 3600, "days": 86400, "day": 86400,
             "week": 604800, "weeks": 604800, "seconds": 1}
    t = ctx.real("t", 0, 50)
    start = ctx.real("start", 0, 10)
    with UP.EnvironmentContext(initial_time=start) as env:
        if stage is not None:
            UP.add_stage_variable("time_unit", stage)
        done = []

        class T(UP.Task):
            def task(self, *, actor):
                yield UP.Wait(t, timeout_unit=unit) if unit else UP.Wait(t)
                done.append(self.env.now)

        class A(UP.Actor):
            ...

        T().run(actor=A(name="a", debug_log=False))
        env.run()
        a = kinds[unit.lower()] if unit else None
        b = kinds[stage.lower()] if stage else 3600
        want = t if a is None else t * a / b
        ctx.near(done[0] - start, want, 1e-6, "length of the wait")
        ctx.reach("wait")


def jobs(tier):
    out = [J("distance", "convert", kind="distance"), J("time", "convert", kind="time"),
           J("refused", "refused"), J("ticks", "ticks"), J("wait", "wait"),
           J("clock", "clock", unit="hr", called=None)]
    for u in ("s", "min", "hr"):
        for n in NAMES[u][:2 if tier == "quick" else 3]:
            out.append(J(f"clock-{n}", "clock", unit=u, called=n.lower()))
    return out
