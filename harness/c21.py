"""C21: the data tables hold exactly what was recorded."""

from copy import deepcopy
from dataclasses import dataclass

from upstage_des.data_utils import create_location_table, create_table, get_recorded_data, record_data

from simpy import Store

from .common import UP, J

BOUNDS = ("every sequence of 2 (thorough: 3) of nineteen kinds of changes to two actors and two resources at "
          "symbolic times with symbolic values, tables with and without locations and static states")
REACH = ["same-time", "active", "deactivated", "static", "resource", "keys", "location", "recorded", "copied", "lla", "looked", "shelves"]


@dataclass
class Info:
    a: float
    b: float


class Worker(UP.Actor):
    num = UP.State(default=0.0, recording=True)
    plain = UP.State(default=1.0)
    nu = UP.State(default=4.0)  # its name begins those of others
    info = UP.State(default_factory=dict, recording=True)
    rec = UP.DataclassState(valid_types=Info, recording=True)
    table = UP.DictionaryState(recording=True)
    notes = UP.DictionaryState()
    work = UP.LinearChangingState(default=0.0, recording=True)
    shelf = UP.ResourceState(default=UP.SelfMonitoringStore)
    unset = UP.State(allow_none_default=True, recording=True)
    loc = UP.CartesianLocationChangingState(recording=True)
    spot = UP.CartesianLocationChangingState(recording=True)


class Other(UP.Actor):
    num = UP.State(default=0.0, recording=True)
    spot = UP.CartesianLocationChangingState(recording=True)


OPS = ["num", "num2", "plain", "info", "rec", "table", "table-new", "notes", "on", "off", "read", "shelf", "pool",
       "spot", "unset", "go", "stop", "move2", "look"]


class Ref:
    """What should be in the tables, by (name, kind, state)."""

    def __init__(self, ctx):
        self.ctx, self.rows, self.locs = ctx, {}, {}

    def add(self, key, t, value, status=None, table="rows"):
        hist = getattr(self, table).setdefault(key, [])
        hist.append((t, value, status))

    def record(self, key, t, value, status=None, table="rows"):
        """As add, unless it repeats the last entry."""
        hist = getattr(self, table).setdefault(key, [])
        if hist and self.ctx.same(hist[-1][0], t) and self.ctx.same(hist[-1][1], value):
            return
        hist.append((t, value, status))

    def mark(self, hist, t, value, status):
        """A state becomes (in)active: the row of its value at that time says so."""
        if self.ctx.same(hist[-1][0], t) and hist[-1][2] in ("active", "inactive"):
            hist[-1] = (t, hist[-1][1], status)
        else:
            hist.append((t, value, status))


def grouped(rows):
    out = {}
    for r in rows:
        out.setdefault(tuple(r[:3]), []).append((r[3], *r[4:]))
    return out


def compare(ctx, got, want, label):
    ctx.check(sorted(got) == sorted(k for k, v in want.items() if v), f"{label}: states in the table")
    for k, v in got.items():
        # reading a state at the instant it was marked may or may not repeat its row
        v = [r for i, r in enumerate(v) if not (i and r[2] in ("active", "inactive") and "tivating" in (v[i - 1][2] or "")
                                                and ctx.same(r[:2], v[i - 1][:2]))]
        ctx.check(len(v) == len(want[k]), f"{label}: number of rows")
        ctx.eq(v, want[k], f"{label}: rows")


def xyz(p):
    return (p.x, p.y, p.z)


def tables(ctx, n, ops, actors):
    with UP.EnvironmentContext() as env:
        task = UP.Task()
        C = UP.CartesianLocation
        w = Worker(name="w", loc=C(0, 0), spot=C(ctx.real("sx", -5, 5), 1.0), rec=Info(1.0, 2.0),
                   table={"k": 0.0}, notes={"n": 5.0}, debug_log=False)
        o = Other(name="o", spot=C(3.0, 4.0), debug_log=False) if actors > 1 else None
        pool = UP.SelfMonitoringContainer(env, init=3.0, name="pool")
        ref = Ref(ctx)
        W = lambda s: ("w", "Worker", s)  # noqa: E731
        for s, v in (("num", 0.0), ("rec.a", 1.0), ("rec.b", 2.0), ("table.k", 0.0)):
            ref.record(W(s), 0.0, v)
        ref.record(W("work"), 0.0, 0.0, "inactive")
        ref.record(W("loc"), 0.0, (0, 0, 0), "inactive", "locs")
        ref.record(W("spot"), 0.0, xyz(w.spot), "inactive", "locs")
        if o:
            ref.record(("o", "Other", "num"), 0.0, 0.0)
            ref.record(("o", "Other", "spot"), 0.0, (3.0, 4.0, 0.0), "inactive", "locs")
        ref.add(W("shelf"), 0.0, 0)
        bare = UP.SelfMonitoringStore(env)
        bare.put(1)
        for n_items in (0, 1):
            ref.add(("None", "SelfMonitoringStore", "Resource"), 0.0, n_items)
        ref.add(("pool", "SelfMonitoringContainer", "Resource"), 0.0, 3.0)
        plain, items = 1.0, {"shelf": 0, "pool": 3.0}
        rate, level, since, info = 1.5, 0.0, None, {}
        notes, unset = {"n": 5.0}, None
        to, moved, at = (20.0, 0.0, 0.0), None, (0.0, 0.0, 0.0)
        for i in range(n):
            op = ctx.choice(f"op{i}", ops)
            gap = ctx.real(f"gap{i}", 0, 2)
            if gap > 0:
                env.run(until=env.now + gap)
            elif i:
                ctx.reach("same-time")
            t = env.now
            v = ctx.real(f"v{i}", -3, 3)
            if op in ("spot", "move2"):  # places that do not compare equal
                v = ctx.real(f"p{i}", i + 1, i + 1.5)
            if op == "num":
                w.num = v
                ref.record(W("num"), t, v)
            elif op == "num2":
                if o:
                    o.num = v
                    ref.record(("o", "Other", "num"), t, v)
            elif op == "plain":
                w.plain = plain = v
            elif op == "info":
                w.info["x"] = v
                w.info[f"y{i}"] = 7.0
                w.record_state("info")
                info = deepcopy(w.info)
                for k, x in info.items():
                    ref.add(W(f"info.{k}"), t, x)
            elif op == "rec":
                w.rec.a = v
                ref.record(W("rec.a"), t, v)
                ctx.reach("keys")
            elif op == "table":
                w.table["k"] = v
                ref.record(W("table.k"), t, v)
            elif op == "table-new":
                w.table["z"] = v
                ref.record(W("table.z"), t, v)
            elif op == "notes":
                w.notes["n"] = v
                notes["n"] = v
            elif op in ("on", "off", "read"):
                if op == "on" and since is not None or op == "off" and since is None:
                    continue
                now = level if since is None else level + rate * (t - since)
                if op == "on":
                    w.activate_linear_state(state="work", rate=rate, task=task)
                    ref.mark(ref.rows[W("work")], t, now, "activating")
                    level, since = now, t
                elif op == "off":
                    w.deactivate_state(state="work", task=task)
                    ref.mark(ref.rows[W("work")], t, now, "deactivating")
                    level, since = now, None
                    ctx.reach("deactivated")
                else:
                    ctx.eq(w.work, now, "value read")
                    if since is not None:
                        hist = ref.rows[W("work")]
                        if not ctx.same(hist[-1][0], t):
                            hist.append((t, now, "active"))
                            ctx.reach("active")
            elif op in ("shelf", "pool"):
                if op == "shelf":
                    w.shelf.put(v)
                    items["shelf"] += 1
                else:
                    pool.put(1.0)
                    items["pool"] += 1.0
                ref.add(W("shelf") if op == "shelf" else ("pool", "SelfMonitoringContainer", "Resource"), t,
                        items[op])
                ctx.reach("resource")
            elif op == "spot":
                who = ctx.choice(f"who{i}", [w, o] if o else [w])
                who.spot = C(v, 2.0)
                ref.record((who.name, type(who).__name__, "spot"), t, (v, 2.0, 0), "inactive", "locs")
            elif op == "unset":
                w.unset = unset = v
                ref.record(W("unset"), t, v)
            elif op in ("go", "stop"):
                hist = ref.locs[W("loc")]
                if "tivating" in hist[-1][2]:  # two marks of a location at one instant share a row
                    ctx.assume(ctx.Not(ctx.same(hist[-1][0], t)))
                if op == "go" and moved is None:
                    w.activate_location_state(state="loc", speed=1.0, waypoints=[C(*to)], task=task)
                    ref.mark(hist, t, at, "activating")
                    moved = t
                elif op == "stop" and moved is not None:
                    w.deactivate_state(state="loc", task=task)
                    at = (at[0] + t - moved, 0.0, 0.0)
                    ref.mark(hist, t, at, "deactivating")
                    moved = None
                    ctx.reach("location")
            elif op == "look":
                now = at if moved is None else (at[0] + t - moved, 0.0, 0.0)
                ctx.near(w.loc.x, now[0], 1e-6, "place read")
                if moved is not None:
                    hist = ref.locs[W("loc")]
                    if not ctx.same(hist[-1][0], t):
                        hist.append((t, now, "active"))
                        ctx.reach("looked")
            elif op == "move2":
                if moved is None and ref.locs[W("loc")][-1][2] == "inactive":
                    w.loc = C(v, 0.0)
                    at = (v, 0.0, 0.0)
                    ref.record(W("loc"), t, at, "inactive", "locs")
        got, cols = create_table()
        ctx.check(cols == ["Entity Name", "Entity Type", "State Name", "Time", "Value", "Activation Status"],
                  "columns")
        compare(ctx, grouped(got), ref.rows, "table")
        both, _ = create_table(skip_locations=False)
        both = grouped(both)
        for k in ref.locs:
            both[k] = [(r[0], xyz(r[1]), r[2]) for r in both[k]]
        compare(ctx, both, {**ref.rows, **ref.locs}, "with locations")
        static, _ = create_table(save_static=True)
        extra = {W("plain"): [(0.0, plain, "Last Seen")], W("nu"): [(0.0, 4.0, "Last Seen")],
                 **{W(f"notes.{k}"): [(0.0, x, "Last Seen")] for k, x in notes.items()}}
        static = grouped(static)
        if W("info") in static:  # nothing was recorded of it
            extra[W("info")] = [(0.0, {}, "Last Seen")]
            ctx.check(not info, "recorded states are not static")
        compare(ctx, static, {**ref.rows, **extra}, "static")
        ctx.reach("static")
        locs, lcols = create_location_table()
        ctx.check(lcols == ["Entity Name", "Entity Type", "State Name", "Time", "X", "Y", "Z",
                            "Activation Status"], "location columns")
        locs = {k: [(r[0], tuple(r[1:4]), r[4]) for r in v] for k, v in grouped(locs).items()}
        compare(ctx, locs, ref.locs, "locations")


def recorder(ctx):
    """Recorded data is kept in order with its time, as a snapshot if asked for."""
    with UP.EnvironmentContext() as env:
        want = []
        thing = {"v": 0.0}
        for i in range(3):
            gap = ctx.real(f"gap{i}", 0, 2)
            if gap > 0:
                env.run(until=env.now + gap)
            v = ctx.real(f"v{i}", -3, 3)
            thing["v"] = v
            copy = bool(ctx.bool(f"copy{i}"))
            what = ctx.choice(f"what{i}", ["thing", "number"])
            if what == "thing":
                record_data(thing, copy=copy)
                want.append((env.now, {"v": v} if copy else thing))
                if copy:
                    ctx.reach("copied")
            else:
                record_data(v, copy=copy)
                want.append((env.now, v))
        ctx.eq(get_recorded_data(), want, "recorded data")
        ctx.reach("recorded")
    with UP.EnvironmentContext():
        ctx.check(get_recorded_data() == [], "another context has its own data")
        ctx.check(create_table()[0] == [], "another context has its own table")


def names(ctx):
    """Two actors with equal names, resources without states, and clones are kept apart."""
    with UP.EnvironmentContext() as env:
        v = [ctx.real(f"v{i}", -3, 3) for i in range(2)]
        a = [Other(name="same", num=v[i], spot=UP.CartesianLocation(0, 0), debug_log=False) for i in range(2)]
        if ctx.bool("clone"):
            a[0].clone()
        st = UP.SelfMonitoringStore(env, name="st")
        t = ctx.real("t", 0, 3, lo_open=True)
        env.run(until=t)
        x = ctx.real("x", -3, 3)
        a[1].num = x
        st.put(1)
        got, _ = create_table()
        ctx.eq([tuple(r) for r in got if r[2] == "num"],
               [("same", "Other", "num", 0.0, v[0], None), ("same", "Other", "num", 0.0, v[1], None),
                ("same", "Other", "num", t, x, None)], "rows of each actor in order")
        ctx.eq([tuple(r) for r in got if r[2] == "Resource"],
               [("st", "SelfMonitoringStore", "Resource", 0.0, 0, None),
                ("st", "SelfMonitoringStore", "Resource", t, 1, None)], "rows of the store")
        ctx.check(len(got) == 5, "nothing else")


class Shelves(UP.Actor):
    stock = UP.MultiStoreState(default=UP.SelfMonitoringStore,
                               valid_types=(Store, UP.SelfMonitoringStore, UP.SelfMonitoringContainer))


def shelves(ctx, n):
    """The resources of a dictionary of resources are part of their actor and keep their keys."""
    with UP.EnvironmentContext() as env:
        start = ctx.real("start", 0, 5)
        acts = [Shelves(name=nm, debug_log=False, stock={
            "in": {}, "tank": {"kind": UP.SelfMonitoringContainer, "init": start}, "plain": {"kind": Store}})
            for nm in ("a", "b")]
        UP.SelfMonitoringStore(env, name="own")
        want = {}
        for a in acts:
            want[a.name, "Shelves", "stock.in"] = [(0.0, 0, None)]
            want[a.name, "Shelves", "stock.tank"] = [(0.0, start, None)]
        want["own", "SelfMonitoringStore", "Resource"] = [(0.0, 0, None)]
        count = {"a": 0, "b": 0}
        level = {"a": start, "b": start}
        for i in range(n):
            env.run(until=env.now + ctx.real(f"gap{i}", 0, 2, lo_open=True))
            a = ctx.choice(f"who{i}", acts)
            key = ctx.choice(f"key{i}", ["in", "tank", "plain"])
            amount = ctx.real(f"amount{i}", 0, 3, lo_open=True)
            a.stock[key].put(amount)
            if key == "in":
                count[a.name] += 1
                want[a.name, "Shelves", "stock.in"].append((env.now, count[a.name], None))
            elif key == "tank":
                level[a.name] = level[a.name] + amount
                want[a.name, "Shelves", "stock.tank"].append((env.now, level[a.name], None))
        got, _ = create_table()
        compare(ctx, grouped(got), want, "table")
        static, _ = create_table(save_static=True)
        for a in acts:
            want[a.name, "Shelves", "stock.plain"] = [(0.0, a.stock["plain"], "Last Seen")]
        compare(ctx, grouped(static), want, "static")
        ctx.reach("shelves")


class Plane(UP.Actor):
    pos = UP.GeodeticLocationChangingState(recording=True)
    num = UP.State(default=0.0, recording=True)


def lla(ctx):
    """Geodetic locations are in the location table with their latitude, longitude and altitude."""
    with UP.EnvironmentContext() as env:
        first = bool(ctx.bool("first"))
        if first:
            Other(name="o", spot=UP.CartesianLocation(0, 0), debug_log=False).num = 3.0
        want = []
        p = None
        for i in range(3):
            ll = ctx.real(f"lat{i}", i, i + 0.5), ctx.real(f"lon{i}", -10, 10), ctx.real(f"alt{i}", 0, 10)
            if p is None:
                p = Plane(name="p", pos=UP.GeodeticLocation(*ll), debug_log=False)
            else:
                env.run(until=env.now + ctx.real(f"gap{i}", 0, 2, lo_open=True))
                p.pos = UP.GeodeticLocation(*ll)
            want.append(("p", "Plane", "pos", env.now, *ll, "inactive"))
        got, cols = create_location_table()
        ctx.check(cols == ["Entity Name", "Entity Type", "State Name", "Time", "Lat", "Lon", "Alt",
                           "Activation Status"], "columns")
        ctx.eq([tuple(r) for r in got if r[0] == "p"], want, "rows")
        ctx.check(len(got) == 3 + first, "nothing else")
        got, _ = create_table(skip_locations=False)
        got = [r for r in got if r[0] == "p" and r[2] == "pos"]
        ctx.eq([(*r[:4], r[4].lat, r[4].lon, r[4].alt, r[5]) for r in got], want, "values")
        got, _ = create_table()
        ctx.check(sum(r[2] == "pos" for r in got) == 0, "locations are skipped")
        ctx.reach("lla")


def jobs(tier):
    out = [J("one", "tables", n=1, ops=OPS, actors=2), J("two", "tables", n=2, ops=OPS, actors=2),
           J("work3", "tables", n=3, ops=["on", "off", "read"], actors=1),
           J("loc3", "tables", n=3, ops=["go", "stop", "move2", "spot"], actors=2),
           J("look3", "tables", n=3, ops=["go", "stop", "look"], actors=1),
           J("keys3", "tables", n=3, ops=["rec", "table", "table-new", "num"], actors=1),
           J("recorder", "recorder"), J("names", "names"), J("lla", "lla"), J("shelves", "shelves", n=2)]
    if tier == "thorough":
        out += [J("three", "tables", n=3, ops=OPS, actors=2),
                J("work4", "tables", n=4, ops=["on", "off", "read"], actors=1)]
    return out
