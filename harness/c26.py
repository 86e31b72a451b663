"""C26: every environment context has its own clock, stage, entities and data."""

import random

from upstage_des.base import clear_top_context, create_top_context
from upstage_des.data_utils import get_recorded_data, record_data

from .common import UP, J

BOUNDS = ("every sequence of 3 (thorough: 4) of ten operations, and of 4 and 5 (thorough: 5 and 6) of the operations on "
          "stages, entities and errors alone, over up to 3 nested contexts: entering and leaving (also by an error), stage variables, actors of six classes, plain entities, resources, clones and "
          "rehearsals, recorded data, running, with symbolic times and values")
REACH = ["nested", "left", "left-by-error", "stage", "refused", "actor", "groups", "resource", "clone", "recorded",
         "outside", "seed", "top", "clock"]


class Car(UP.Actor, entity_groups=["vehicle"]):
    x = UP.State(default=0.0)


class Truck(Car, entity_groups="big"):
    shelf = UP.ResourceState(default=UP.SelfMonitoringStore)


class Talker(UP.Actor, entity_groups=["radio"]):
    pass


class Both(Truck, Talker, skip_classname=True):
    pass


class Quiet(Talker, add_to_entity_groups=False):
    pass


class Loud(Quiet):
    pass


class Plant(UP.NamedUpstageEntity, entity_groups=["power"]):
    pass


GROUPS = {Car: {"Car", "vehicle"}, Truck: {"Car", "vehicle", "Truck", "big"}, Talker: {"Talker", "radio"},
          Both: {"Car", "vehicle", "Truck", "big", "Talker", "radio"}, Quiet: set(),
          Loud: {"Loud", "Talker", "radio"}, Plant: {"Plant", "power"}}
NAMES = ["vehicle", "big", "radio", "power", "Car", "Truck", "Talker", "Both", "Quiet", "Loud", "Plant", "nothing"]


class Drive(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)
        actor.x += 1


class World:
    """What one context should hold."""

    def __init__(self, env, now):
        self.env, self.now = env, now
        self.stage, self.entities, self.actors, self.monitored, self.data = {}, [], [], [], []


class Oops(Exception):
    pass


def look(ctx, world):
    """Everything that can be seen in the current context."""
    base = UP.UpstageBase()
    ctx.check(base.env is world.env, "environment")
    ctx.eq(base.env.now, world.now, "clock")
    for k in ("a", "b", "items"):
        if k in world.stage:
            ctx.eq(UP.get_stage_variable(k), world.stage[k], "stage variable")
            if k != "items":
                ctx.eq(getattr(base.stage, k), world.stage[k], "stage attribute")
                ctx.eq(getattr(UP.get_stage(), k), world.stage[k], "stage attribute")
        else:
            ctx.check_raises(UP.UpstageError, "no such variable", UP.get_stage_variable, k)
            if k != "items":
                ctx.check(not hasattr(base.stage, k), "no such attribute")
    got = base.get_actors()
    ctx.check(len(got) == len(world.actors) and all(x is y for x, y in zip(got, world.actors)), "actors")
    got = base.get_monitored()
    ctx.check(len(got) == len(world.monitored) and all(x is y for x, y in zip(got, world.monitored)), "monitored")
    every = base.get_all_entity_groups()
    for g in NAMES:
        want = [e for e in world.entities if g in GROUPS[type(e)]]
        for got in (base.get_entity_group(g), every.get(g, [])):
            ctx.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "entity group")
    ctx.eq(get_recorded_data(), world.data, "recorded data")


def outside(ctx):
    base = None
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = UP.UpstageBase()
    ctx.check_raises(UP.UpstageError, "no environment", lambda: base.env)
    ctx.check_raises(UP.UpstageError, "no stage", lambda: base.stage)
    for fn in (base.get_actors, base.get_monitored, base.get_recorded, base.get_all_entity_groups,
               lambda: base.get_entity_group("vehicle")):
        ctx.check_raises(UP.UpstageError, "no context", fn)
    ctx.check_raises(ValueError, "no stage", UP.add_stage_variable, "a", 1)
    ctx.check_raises(ValueError, "no stage", UP.get_stage_variable, "a")
    ctx.check_raises(ValueError, "no stage", UP.get_stage)
    ctx.reach("outside")


def history(ctx, n, ops, depth):
    step = [0]

    def level(k):
        i0 = step[0]
        start = ctx.real(f"start{i0}", 0, 5)
        with UP.EnvironmentContext(initial_time=start) as env:
            world = World(env, start)
            look(ctx, world)
            while step[0] < n:
                i = step[0]
                step[0] += 1
                op = ctx.choice(f"op{i}", [o for o in ops if o != "enter" or k < depth])
                v = ctx.real(f"v{i}", -5, 5)
                if op == "enter":
                    try:
                        level(k + 1)
                    except Oops:
                        ctx.reach("left-by-error")
                    ctx.reach("nested")
                elif op == "leave":
                    if k:
                        ctx.reach("left")
                        return
                elif op == "fail":
                    if k:
                        raise Oops
                elif op == "stage":
                    name = ctx.choice(f"name{i}", ["a", "b", "items"])
                    if name in world.stage:
                        ctx.check_raises(UP.UpstageError, "cannot be set again", UP.add_stage_variable, name, v)
                        if name != "items":
                            ctx.check_raises(AttributeError, "cannot be changed", setattr, UP.get_stage(), name, v)
                        ctx.reach("refused")
                    else:
                        UP.add_stage_variable(name, v)
                        world.stage[name] = v
                        ctx.reach("stage")
                elif op == "actor":
                    cls = ctx.choice(f"cls{i}", [Car, Truck, Talker, Both, Quiet, Loud])
                    a = cls(name=f"n{i}", debug_log=False)
                    world.actors.append(a)
                    world.entities.append(a)
                    if cls in (Truck, Both):
                        world.monitored.append(a.shelf)
                    ctx.reach("actor")
                    ctx.reach("groups")
                elif op == "plant":
                    world.entities.append(Plant())
                elif op == "resource":
                    r = ctx.choice(f"res{i}", [UP.SelfMonitoringStore, UP.SelfMonitoringContainer])(env)
                    world.monitored.append(r)
                    ctx.reach("resource")
                elif op == "clone":
                    if world.actors:
                        a = world.actors[-1]
                        if ctx.bool(f"rehearse{i}") and isinstance(a, Car):
                            c = Drive().rehearse(actor=a)
                            ctx.eq(c.env.now, world.now + 1.0, "clock of the clone")
                        else:
                            c = a.clone()
                        ctx.check(c is not a, "a clone is another actor")
                        ctx.reach("clone")
                elif op == "record":
                    record_data(v)
                    world.data.append((world.now, v))
                    ctx.reach("recorded")
                elif op == "run":
                    d = ctx.real(f"d{i}", 0, 3, lo_open=True)
                    env.run(until=world.now + d)
                    world.now = world.now + d
                    ctx.reach("clock")
                look(ctx, world)
            look(ctx, world)

    outside(ctx)
    try:
        level(0)
    except Oops:
        pass
    outside(ctx)


def seeds(ctx):
    """The random numbers of a context come from its seed or generator."""
    seed = ctx.choice("seed", [1, 7, 123456])

    def draws():
        r = UP.get_stage().random
        return [r.uniform(0, 1), r.random(), r.randint(1, 10)]

    ref = random.Random(seed)
    want = [ref.uniform(0, 1), ref.random(), ref.randint(1, 10)]
    got = []
    with UP.EnvironmentContext(random_seed=seed):
        if ctx.bool("inner"):
            with UP.EnvironmentContext(random_seed=99):
                draws()
        got.append(draws())
    with UP.EnvironmentContext(random_gen=random.Random(seed), random_seed=5):
        got.append(draws())
    rng = random.Random(seed)
    with UP.EnvironmentContext(random_gen=rng):
        ctx.check(UP.get_stage().random is rng, "own generator")
        ctx.check_raises(UP.UpstageError, "cannot be replaced", UP.add_stage_variable, "random", 3)
        got.append(draws())
    ctx.check(all(g == want for g in got), "same seed, same numbers")
    ctx.reach("seed")


def top(ctx):
    """A top context is the same as a context manager."""
    start, v = ctx.real("start", 0, 5), ctx.real("v", -3, 3)
    inner = bool(ctx.bool("inner"))
    c = create_top_context(initial_time=start, random_seed=3)
    base = UP.UpstageBase()
    world = World(base.env, start)
    look(ctx, world)
    UP.add_stage_variable("a", v)
    world.stage["a"] = v
    a = Car(name="c", debug_log=False)
    world.actors.append(a)
    world.entities.append(a)
    look(ctx, world)
    if inner:
        with UP.EnvironmentContext() as env:
            look(ctx, World(env, 0.0))
        look(ctx, world)
    clear_top_context(c)
    outside(ctx)
    ctx.reach("top")


def jobs(tier):
    ops = ["enter", "leave", "fail", "stage", "actor", "plant", "resource", "clone", "record", "run"]
    n = 4 if tier == "thorough" else 3
    out = [J("mixed", "history", n=n, ops=ops, depth=2),
           J("stages", "history", n=n + 1, ops=["enter", "leave", "stage", "run"], depth=2),
           J("entities", "history", n=n + 1, ops=["enter", "leave", "actor", "clone"], depth=1),
           J("errors", "history", n=n + 2, ops=["enter", "fail", "record"], depth=2),
           J("seeds", "seeds"), J("top", "top")]
    return out
