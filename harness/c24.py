"""C24: key/value and resource states are proper dictionaries, dataclasses and resources of their own actor."""

from dataclasses import dataclass, field, fields

from simpy import Container, FilterStore, Store

from .common import UP, J

BOUNDS = ("every sequence of 3 (thorough: 4) of nine dictionary or seven dataclass operations on two actors at "
          "symbolic times with symbolic values; resources of six kinds with symbolic capacity, start and "
          "amounts, given by default, arguments or object")
REACH = ["alike", "set", "new-key", "bad-type", "raw", "duplicates", "function", "class-function", "dataclass", "inherited",
         "given", "defaults", "object", "refused", "limited", "clone", "store", "container"]


def total(time, value):
    return sum(value.values())


class Count:
    """A recorder with memory."""

    def __init__(self):
        self.n = 0

    def __call__(self, time, value):
        self.n += 1
        return self.n


@dataclass
class Base:
    a: float


@dataclass
class Info(Base):
    b: int = 2
    tags: list = field(default_factory=list)


def info_total(time, value):
    return value.a + value.b


class Act(UP.Actor):
    d = UP.DictionaryState(valid_types=(float, int), recording=True, recording_functions=[(total, "sum"), (Count, "n")])
    dup = UP.DictionaryState(recording=True, record_duplicates=True)
    quiet = UP.DictionaryState(valid_types=float)
    dc = UP.DataclassState(valid_types=Info, recording=True, recording_functions=[(info_total, "dcsum")])
    quiet_dc = UP.DataclassState(valid_types=Info)


class Hist:
    """Reference for recorded entries."""

    def __init__(self, ctx, duplicates=False):
        self.ctx, self.duplicates, self.rows = ctx, duplicates, {}

    def add(self, key, t, v):
        rows = self.rows.setdefault(key, [])
        if rows and not self.duplicates and self.ctx.same(rows[-1], (t, v)):
            return
        rows.append((t, v))


def dictionary(ctx, n, state, ops):
    with UP.EnvironmentContext() as env:
        given = {"k": ctx.real("k0", -5, 5), "m": 1.0}
        rest = dict(dup={}, quiet={}, dc=Info(0.0), quiet_dc=Info(0.0), d={})
        kw = {**rest, state: given}
        a = Act(name="a", debug_log=False, **kw)
        b = Act(name="b", debug_log=False, **kw)
        refs = {a: dict(given), b: dict(given)}
        dup = state == "dup"
        if not dup:
            ctx.check_raises(TypeError, "bad type given", lambda: Act(name="c", debug_log=False, **{
                **kw, state: {"k": 1.0, "m": "word"}}))
        hists, sums, counts = {}, {}, {a: 1, b: 1}
        for who in (a, b):
            hists[who], sums[who] = Hist(ctx, dup), Hist(ctx)
            for k, v in given.items():
                hists[who].add(k, 0.0, v)
            sums[who].add("sum", 0.0, given["k"] + given["m"])
            sums[who].add("n", 0.0, 1)
        for i in range(n):
            op = ctx.choice(f"op{i}", ops)
            who = a if op in ("other", "len") else ctx.choice(f"who{i}", [a, b]) if i == n - 1 else a
            gap = ctx.real(f"gap{i}", 0, 2)
            if gap > 0:
                env.run(until=env.now + gap)
            t, v = env.now, ctx.real(f"v{i}", -5, 5)
            s, ref = getattr(who, state), refs[who]
            changed = None
            if op == "set":
                s["k"] = v
                ref["k"] = changed = v
                key = "k"
            elif op == "add":
                s["m"] += v
                ref["m"] = changed = ref["m"] + v
                key = "m"
            elif op == "new":
                s["z"] = v
                ref["z"] = changed = v
                key = "z"
                ctx.reach("new-key")
            elif op == "default":
                got = s.setdefault("z", v)
                if "z" not in ref:
                    ref["z"] = changed = v
                    key = "z"
                ctx.eq(got, ref["z"], "setdefault")
            elif op == "default-old":
                ctx.eq(s.setdefault("k", v), ref["k"], "setdefault of a known key")
            elif op == "bad":
                if state != "dup":
                    ctx.check_raises(TypeError, "bad type", s.__setitem__, "k", "word")
                    ctx.check_raises(TypeError, "bad type", s.__setitem__, "q", "word")
                    ctx.reach("bad-type")
            elif op == "raw":
                s.raw_object()["k"] = v
                ref["k"] = v
                ctx.reach("raw")
            elif op == "whole":
                ctx.check_raises(UP.SimulationError, "replacing the whole", setattr, who, state, {"k": v})
            elif op == "missing":
                ctx.check_raises(KeyError, "unknown key", lambda: s["nothing"])
            if changed is not None:
                ctx.reach("set")
                hists[who].add(key, t, changed)
                if state == "d":
                    sums[who].add("sum", t, ctx.sum(ref.values()))
                    counts[who] += 1
                    sums[who].add("n", t, counts[who])
                if dup:
                    ctx.reach("duplicates")
            for x in (a, b):
                s, ref = getattr(x, state), refs[x]
                ctx.eq(dict(s.items()), ref, "items")
                ctx.check(list(s) == list(ref) and list(s.keys()) == list(ref) and len(s) == len(ref), "keys")
                ctx.eq(list(s.values()), list(ref.values()), "values")
                ctx.check("k" in s and ("z" in s) == ("z" in ref), "contains")
                ctx.eq(s["k"], ref["k"], "value")
                ctx.check(s == getattr(x, state) and not s != getattr(x, state), "equal to itself")
                ctx.check(s == dict(ref) and not s == {**ref, "other": 0.0} and not s == 3, "equal to its dictionary")
            alike = ctx.And(*[ctx.same(refs[a][k], refs[b][k]) for k in refs[a]]) if set(refs[a]) == set(refs[b]) \
                else False
            if alike:
                ctx.reach("alike")
            ctx.check((getattr(a, state) == getattr(b, state)) == bool(alike), "equal to an equal one")
        ctx.eq(given, {"k": given["k"], "m": 1.0}, "the given dictionary is left alone")
        for x in (a, b):
            if state == "quiet":
                ctx.check(not any(k.startswith("quiet") for k in x._state_histories), "nothing is recorded")
                continue
            got = {k.removeprefix(f"{state}."): v for k, v in x._state_histories.items() if k.startswith(f"{state}.")}
            ctx.eq(got, hists[x].rows, "record")
            if state == "d":
                ctx.eq(x._state_histories["sum"], sums[x].rows["sum"], "recording function")
                ctx.eq(x._state_histories["n"], sums[x].rows["n"], "recording class")
                ctx.reach("function")
                ctx.reach("class-function")


def data(ctx, n, state, ops):
    with UP.EnvironmentContext() as env:
        va = ctx.real("a0", -5, 5)
        rest = dict(dup={}, quiet={}, dc=Info(0.0), quiet_dc=Info(0.0), d={})
        objs = [Info(va), Info(va, 3)]
        acts = [Act(name=f"a{i}", debug_log=False, **{**rest, state: objs[i]}) for i in range(2)]
        refs = [{"a": va, "b": 2}, {"a": va, "b": 3}]
        hists, sums = [Hist(ctx), Hist(ctx)], [Hist(ctx), Hist(ctx)]
        for i in range(2):
            for k, v in {**refs[i], "tags": []}.items():
                hists[i].add(k, 0.0, v)
            sums[i].add("s", 0.0, va + refs[i]["b"])
        for i in range(n):
            op = ctx.choice(f"op{i}", ops)
            w = ctx.choice(f"who{i}", [0, 1]) if i == n - 1 else 0
            gap = ctx.real(f"gap{i}", 0, 2)
            if gap > 0:
                env.run(until=env.now + gap)
            t, v = env.now, ctx.real(f"v{i}", -5, 5)
            s, key = getattr(acts[w], state), None
            if op == "a":
                s.a = v
                refs[w]["a"], key = v, "a"
                ctx.reach("inherited")
            elif op == "add":
                s.a += v
                refs[w]["a"], key = refs[w]["a"] + v, "a"
            elif op == "b":
                s.b = i + 5
                refs[w]["b"], key = i + 5, "b"
            elif op == "bad":
                ctx.check_raises(TypeError, "bad type", setattr, s, "b", "word")
                ctx.check_raises(TypeError, "bad type", setattr, s, "a", [1])
                ctx.reach("bad-type")
            elif op == "raw":
                s.raw_object().a = v
                refs[w]["a"] = v
            elif op == "whole":
                ctx.check_raises(UP.SimulationError, "replacing the whole", setattr, acts[w], state, Info(v))
            elif op == "missing":
                ctx.check_raises(AttributeError, "unknown field", getattr, s, "nothing")
            if key:
                hists[w].add(key, t, refs[w][key])
                sums[w].add("s", t, refs[w]["a"] + refs[w]["b"])
            for x in (0, 1):
                s = getattr(acts[x], state)
                ctx.eq([s.a, s.b], [refs[x]["a"], refs[x]["b"]], "fields")
                ctx.check([f.name for f in fields(s)] == ["a", "b", "tags"], "field names")
                ctx.check(s.raw_object() is objs[x], "the object itself")
                ctx.check(s == getattr(acts[x], state) and s == objs[x] and not s == 3, "equal to itself")
            ctx.reach("dataclass")
        for x in (0, 1):
            h = acts[x]._state_histories
            got = {k.removeprefix(f"{state}."): v for k, v in h.items() if k.startswith(f"{state}.")}
            ctx.eq(got, hists[x].rows if state == "dc" else {}, "record")
            if state == "dc":
                ctx.eq(h["dcsum"], sums[x].rows["s"], "recording function")


KINDS = {"Store": Store, "FilterStore": FilterStore, "Container": Container, "MonStore": UP.SelfMonitoringStore,
         "MonFilter": UP.SelfMonitoringFilterStore, "MonContainer": UP.SelfMonitoringContainer}


class House(UP.Actor):
    own = UP.ResourceState(default=Store, default_kwargs={"capacity": 2})
    any = UP.ResourceState()
    tank = UP.ResourceState(default=Container, valid_types=(Container,), default_kwargs={"capacity": 50.0, "init": 5.0})
    many = UP.MultiStoreState(default=Store, valid_types=(Store, Container), default_kwargs={"capacity": 3})
    radio = UP.CommunicationStore(modes="UHF")


def contents(r):
    return r.level if isinstance(r, Container) else list(r.items)


def resource(ctx, kind, where, how):
    """A resource of one of the kinds, as a state of its own or by name, and those of another actor."""
    with UP.EnvironmentContext() as env:
        cls = KINDS[kind]
        is_tank = issubclass(cls, Container)
        cap = ctx.real("cap", 1, 4) if is_tank else ctx.int("cap", 1, 3)
        conf = {"kind": cls, "capacity": cap}
        init = 0
        if is_tank:
            conf["init"] = init = ctx.real("init", 0, 1)
        before = dict(conf)
        give = conf
        if how == "object":
            give = cls(env, **{k: v for k, v in conf.items() if k != "kind"})
            ctx.reach("object")
        other = {"any": {"kind": Store}, "many": {"x": {}}}
        spec = {"any": give} if where == "any" else {"many": {"s": give, "plain": {}}}
        h = House(name="h", debug_log=False, **{**other, **spec})
        names = {"any": give} if where == "any" else {"many": {"s": conf, "plain": {}}}
        g = House(name="g", debug_log=False, **{**other, **(names if how != "object" else {})})
        r = h.any if where == "any" else h.many["s"]
        ctx.check(type(r) is cls, "kind of the resource")
        ctx.eq(r.capacity, cap, "capacity")
        ctx.eq(contents(r), init if is_tank else [], "start")
        ctx.check(conf == before if not is_tank else set(conf) == set(before) and conf["kind"] is cls,
                  "arguments are left alone")
        ctx.check((r is give) == (how == "object"), "given object")
        if how == "given":
            q = g.any if where == "any" else g.many["s"]
            ctx.check(q is not r and type(q) is cls, "every actor has its own")
            ctx.reach("given")
        # defaults
        ctx.check(type(h.own) is Store and h.own.capacity == 2 and h.own is not g.own, "default")
        ctx.check(type(h.tank) is Container and h.tank.capacity == 50.0 and h.tank.level == 5.0, "default arguments")
        ctx.check(h.many.keys() == (h.many.keys()) and type(g.many["x" if "x" in g.many else "plain"]) is Store
                  and g.many["x" if "x" in g.many else "plain"].capacity == 3, "default of the named")
        ctx.check(type(h.radio) is UP.SelfMonitoringStore, "default of communication stores")
        ctx.reach("defaults")
        amounts = [ctx.real(f"x{i}", 0.25, 2) if is_tank else i for i in range(2)]
        puts = [r.put(x) for x in amounts]
        env.run(until=1)
        if is_tank:
            level = init
            fits = []
            for x in amounts:
                ok = bool(level + x <= cap) and all(fits)
                fits.append(ok)
                level = level + x if ok else level
            want = level
            ctx.reach("container")
        else:
            fits = [i < cap for i in range(2)]
            want = [x for x, ok in zip(amounts, fits) if ok]
            ctx.reach("store")
        ctx.check([p.triggered for p in puts] == fits, "puts that fit")
        if not all(fits):
            ctx.reach("limited")
        ctx.eq(contents(r), want, "contents")
        if how == "given":
            ctx.eq(contents(q), init if is_tank else [], "contents of the other actor's")
        # it stays
        if where == "any":
            ctx.check_raises(UP.UpstageError, "cannot be replaced", setattr, h, "any", {"kind": Store})
        else:
            ctx.check_raises(UP.SimulationError, "cannot be replaced", setattr, h, "many", {"s": {}})
        ctx.check((h.any if where == "any" else h.many["s"]) is r, "still the same")
        if where == "any":
            c = h.clone()
            ctx.check(c.any is not r and type(c.any) is cls, "a clone has its own")
            ctx.eq([c.any.capacity, contents(c.any)], [cap, want], "what a clone has")
            if not is_tank and want:
                c.any.items.pop()
                ctx.eq(contents(r), want, "contents after the clone used its own")
            ctx.reach("clone")


def refuse(ctx):
    """Definitions that make no sense."""
    with UP.EnvironmentContext() as env:
        cap = ctx.real("cap", -2, 0)
        ok = dict(any={"kind": Store}, many={})
        bad = ctx.choice("bad", [
            dict(any={}), dict(any={"kind": int}), dict(any={"kind": Store, "nothing": 1}), dict(any=3.0),
            dict(tank={"kind": Store}), dict(tank=Store(env)), dict(many={"s": {"kind": int}}),
            dict(many={"s": {"kind": Store, "nothing": 1}}), dict(any={"kind": Container, "capacity": cap}),
            dict(any={"kind": Container, "init": 3.0, "capacity": 2.0}), dict(radio={"kind": Container})])
        ctx.check_raises((UP.UpstageError, UP.SimulationError, TypeError), "refused",
                         lambda: House(name="h", debug_log=False, **{**ok, **bad}))
        h = House(name="g", debug_log=False, **ok)
        ctx.check(type(h.any) is Store, "others can be created")
        ctx.reach("refused")


def jobs(tier):
    dops = ["set", "add", "new", "default", "default-old", "bad", "raw", "whole", "missing"]
    cops = ["a", "add", "b", "bad", "raw", "whole", "missing"]
    n = 4 if tier == "thorough" else 3
    out = [J("dict", "dictionary", n=2, state="d", ops=dops),
           J("dict-change", "dictionary", n=n, state="d", ops=["set", "add", "new", "default"]),
           J("dup", "dictionary", n=2, state="dup", ops=dops), J("quiet", "dictionary", n=2, state="quiet", ops=dops),
           J("data", "data", n=2, state="dc", ops=cops), J("data3", "data", n=n, state="dc", ops=["a", "add", "b"]),
           J("quiet-data", "data", n=2, state="quiet_dc", ops=cops), J("refuse", "refuse")]
    for k in KINDS:
        for where in ("any", "many"):
            for how in ("given", "object"):
                out.append(J(f"{k}-{where}-{how}", "resource", kind=k, where=where, how=how))
    if tier == "thorough":
        out += [J("dict3", "dictionary", n=3, state="d", ops=dops), J("all3", "data", n=3, state="dc", ops=cops)]
    return out
