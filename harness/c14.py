"""C14: a sorted filter store hands out the best matching item."""

from .common import UP, J

BOUNDS = ("up to 3 (thorough: 4; 5 and 6 when only sorting) items with symbolic keys that may tie and be falsy, up to 2 (thorough: 3) gets with "
          "symbolic filters, either order; items and gets interleaved at symbolic times")
REACH = ["tie", "waited", "no-match", "several-match", "zero-item", "one-of-two-served", "fifo"]


class Act(UP.Actor):
    v = UP.State(default=0.0)


class Pair:
    def __init__(self, key, tag):
        self.key, self.tag = key, tag

    def __eq__(self, o):
        return True  # items may compare equal to each other

    __hash__ = None

    def __bool__(self):
        return False  # and may be falsy


def pick(ctx, items, lo, hi, mode, best):
    """Reference: index of the item to deliver, or None."""
    got, many = None, 0
    for i, (key, _) in enumerate(items):
        if ctx.And(key >= lo, key <= hi):
            many += 1
            if got is None:
                got = i
            elif mode != "none":
                cur = items[got][0]
                if key == cur:
                    ctx.reach("tie")
                elif (key > cur) if best == "max" else (key < cur):
                    got = i
    if many > 1:
        ctx.reach("several-match")
    return got


def run(ctx, n, gets, mode, task, mon):
    """Items arrive at symbolic times; each get is served as soon as it can be, in order."""
    with UP.EnvironmentContext() as env:
        store = (UP.SelfMonitoringSortedFilterStore if mon else UP.SortedFilterStore)(env)
        reverse = ctx.choice("reverse", [False, True]) if mode != "none" else False
        back = mode == "none-reverse"
        mode = "none" if back else mode
        events, t = [], 0.0
        # one merged schedule: puts in order, gets in order, at increasing times
        kinds = ["put"] * n + ["get"] * gets
        order, left = [], {"put": n, "get": gets}
        for k in range(len(kinds)):
            opts = [o for o in ("put", "get") if left[o]]
            o = ctx.choice(f"next{k}", opts) if len(opts) > 1 else opts[0]
            left[o] -= 1
            order.append(o)
            t = t + ctx.real(f"gap{k}", 0, 5, lo_open=True)
            events.append((o, t))
        keys = [ctx.real(f"key{i}", -5, 5) for i in range(n)]
        spans = []
        for j in range(gets):
            lo, hi = ctx.real(f"lo{j}", -5, 5), ctx.real(f"hi{j}", -5, 5)
            spans.append((lo, hi))
        out = {}

        def request(j):
            lo, hi = spans[j]
            kw = {"filter": lambda p: ctx.And(p.key >= lo, p.key <= hi)}
            if mode == "value":
                kw["sorter"] = lambda p: p.key
            elif mode == "tuple":
                kw["sorter"] = lambda p: (p.key, 1)
            if back:
                kw["reverse"] = True
            if mode != "none":
                kw["reverse"] = reverse
            return kw

        class Getter(UP.Task):
            def task(self, *, actor):
                j, at = actor.stage.plan[actor.name]
                yield UP.Wait(at)
                g = UP.SortedFilterGet(store, **request(j))
                yield g
                out[j] = (actor.env.now, g.get_value().tag)

        plan = {}
        UP.add_stage_variable("plan", plan)

        def direct(j, at):
            yield env.timeout(at)
            item = yield store.get(**request(j))
            out[j] = (env.now, item.tag)

        def put(i, at):
            yield env.timeout(at)
            yield store.put(Pair(keys[i], i))

        i = j = 0
        for o, at in events:
            if o == "put":
                env.process(put(i, at))
                i += 1
            else:
                if task:
                    plan[f"a{j}"] = (j, at)
                    Getter().run(actor=Act(name=f"a{j}", debug_log=False))
                else:
                    env.process(direct(j, at))
                j += 1
        env.run(until=100)
        # reference
        items, waiting, want = [], [], {}
        i = j = 0
        best = "max" if reverse else "min"
        for o, at in events:
            if o == "put":
                items.append((keys[i], i))
                i += 1
                todo = list(waiting)
            else:
                todo = [j]
                waiting.append(j)
                j += 1
            for w in todo:
                k = pick(ctx, items, *spans[w], mode, best)
                if k is None:
                    ctx.reach("no-match")
                else:
                    key, tag = items.pop(k)
                    if key == 0:
                        ctx.reach("zero-item")
                    waiting.remove(w)
                    want[w] = (at, tag)
                    if o == "put":
                        ctx.reach("waited")
                        if waiting and waiting[0] < w:
                            ctx.reach("one-of-two-served")
                    elif mode == "none" and tag > 0:
                        ctx.reach("fifo")
        ctx.check(set(out) == set(want), "served exactly when there is a match")
        for w in want:
            ctx.eq(out[w][0], want[w][0], "time of service")
            ctx.check(out[w][1] == want[w][1], "the best matching item, first come on ties")
        ctx.check([p.tag for p in store.items] == [tag for _, tag in items], "items left, in order")
        if mon:
            sizes, n_in = [(0.0, 0)], 0
            for t2, v in store._quantities[1:]:
                ctx.check(v != sizes[-1][1], "recorded when it changes")
                sizes.append((t2, v))
            ctx.check(store._quantities[-1][1] == len(items), "recorded size")


def sort_only(ctx, n):
    """Repeated gets empty the store in sorted order."""
    with UP.EnvironmentContext() as env:
        store = UP.SortedFilterStore(env)
        keys = [ctx.real(f"k{i}", -9, 9) for i in range(n)]
        rev = ctx.choice("rev", [False, True])
        for i, k in enumerate(keys):
            store.put((k, i))
        out = []

        def go():
            for _ in range(n):
                v = yield store.get(sorter=lambda x: x[0], reverse=rev)
                out.append(v)

        env.process(go())
        env.run()
        ctx.check(sorted(i for _, i in out) == list(range(n)), "every item once")
        for (a, i), (b, j) in zip(out, out[1:]):
            ctx.check(b <= a if rev else a <= b, "in order")
            if a == b:
                ctx.check(i < j, "first come first served on ties")
                ctx.reach("tie")


def jobs(tier):
    out = [J("sort3", "sort_only", n=3), J("sort5", "sort_only", n=5),
           J("2-2v", "run", n=2, gets=2, mode="value", task=True, mon=False),
           J("2-2n", "run", n=2, gets=2, mode="none", task=True, mon=True),
           J("3-1v", "run", n=3, gets=1, mode="value", task=False, mon=True),
           J("3-2v", "run", n=3, gets=2, mode="value", task=True, mon=True),
           J("3-2n", "run", n=3, gets=2, mode="none", task=False, mon=False),
           J("3-1nr", "run", n=3, gets=1, mode="none-reverse", task=True, mon=False),
           J("3-2t", "run", n=3, gets=2, mode="tuple", task=True, mon=True)]
    if tier == "thorough":
        out += [J("sort6", "sort_only", n=6),
                J("4-1v", "run", n=4, gets=1, mode="value", task=False, mon=True),
                J("3-3n", "run", n=3, gets=3, mode="none", task=True, mon=False),
                J("4-2v", "run", n=4, gets=2, mode="value", task=True, mon=True)]
    return out
