"""C13: reservations are honoured exactly, for any history of requests."""

from .common import UP, J

BOUNDS = ("every sequence of 3 (thorough: 4) operations by 2 requesters, with symbolic amounts, capacity, "
          "initial level, times and expirations; an operation in the very instant of an expiration is "
          "excluded; requesters are told apart by equality")
REACH = ["reserved", "refused", "expired", "taken", "cancelled", "too-much", "capacity-increase",
         "reserve-again", "not-queued"]


class Ref:
    def __init__(self, cap, init):
        self.cap, self.level, self.real = cap, init, init
        self.q = {}
        self.log = [(0.0, init)]

    def expire(self, ctx, now):
        for who in list(self.q):
            amt, end = self.q[who]
            if end is not None:
                ctx.assume(ctx.Not(end == now))
                if end < now:
                    del self.q[who]
                    self.level = self.level + amt
                    ctx.reach("expired")


class Person:
    """A requester that equals another of its name, as names themselves do."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Person) and other.name == self.name

    def __hash__(self):
        return hash(self.name)

    def again(self):
        return Person(self.name)


def seq(ctx, ops, people):
    with UP.EnvironmentContext() as env:
        cap = ctx.real("cap", 0, 30)
        init = ctx.real("init", 0, 30)
        ctx.assume(init <= cap)
        mon = len(ops) % 2 == 0
        c = (UP.SelfMonitoringReserveContainer if mon else UP.ReserveContainer)(
            env, init=init, capacity=cap)
        ref = Ref(cap, init)
        who = [Person(f"p{i}") for i in range(people)]
        now, was = 0.0, set()
        for k, op in enumerate(ops):
            dt = ctx.real(f"dt{k}", 0, 10)
            if dt > 0:
                now = now + dt
                env.run(until=now)
            ref.expire(ctx, now)
            p = who[ctx.choice(f"who{k}", range(people))] if op != "put" else None
            if op in ("reserve", "expiring"):
                q = ctx.real(f"q{k}", 0, 30)
                ex = ctx.real(f"ex{k}", 0, 20) if op == "expiring" else None
                got = c.reserve(p, q, ex) if ex is not None else c.reserve(p, q)
                if p not in ref.q and q <= ref.level:
                    ctx.check(got is True, "an available amount is reserved")
                    ref.q[p] = (q, None if ex is None else now + ex)
                    ref.level = ref.level - q
                    ctx.reach("reserve-again" if p in was else "reserved")
                    was.add(p)
                else:
                    ctx.check(got is False, "refused: too much, or already holding")
                    ctx.reach("refused")
            elif op == "cancel":
                got = c.cancel_request(p.again())
                ctx.check(got is (p in ref.q), "cancel tells if there was a reservation")
                if p in ref.q:
                    ref.level = ref.level + ref.q.pop(p)[0]
                    ctx.reach("cancelled")
            elif op == "take":
                if p in ref.q:
                    amt = ref.q.pop(p)[0]
                    ctx.eq(c.take(p.again()), amt, "the reserved amount is taken")
                    ref.real = ref.real - amt
                    ref.log.append((now, ref.real))
                    ctx.reach("taken")
                else:
                    ctx.check_raises(ValueError, "take needs a reservation", c.take, p)
                    ctx.reach("not-queued")
            else:
                a = ctx.real(f"a{k}", 0, 30)
                inc = ctx.choice(f"inc{k}", [False, True])
                if ref.real + a > cap and not inc:
                    ctx.check_raises(ValueError, "too much", c.put, a)
                    ctx.reach("too-much")
                else:
                    c.put(a, capacity_increase=True) if inc else c.put(a)
                    if inc and ref.real + a > cap:
                        ctx.reach("capacity-increase")
                    ref.level, ref.real = ref.level + a, ref.real + a
                    ref.log.append((now, ref.real))
            ctx.eq(c.remaining, ref.level, "amount that can still be reserved")
            ctx.eq(c.available, ref.level, "available is the same")
            ctx.check(list(c.queued) == list(ref.q), "who holds a reservation")
            ctx.le(0, c.remaining, "never over-committed")
        end = now + ctx.real("dt_end", 0, 30, lo_open=True)
        env.run(until=end)
        ref.expire(ctx, end)
        ctx.eq(c.remaining, ref.level, "amount after expirations")
        ctx.check(list(c.queued) == list(ref.q), "who still holds a reservation")
        held = ctx.sum(a for a, _ in ref.q.values())
        ctx.eq(c.remaining + held, ref.real, "free + reserved = content")
        if mon:
            want = []
            for t, v in ref.log:
                if not want or not ctx.And(want[-1][0] == t, ctx.same(want[-1][1], v)):
                    want.append((t, v))
            ctx.eq(c._quantities, want, "recorded content")


OPS = ["reserve", "expiring", "cancel", "take", "put"]


def jobs(tier):
    out = []
    for a in ("reserve", "expiring", "put"):
        for b in OPS:
            out.append(J(f"{a[:3]}-{b[:3]}", "seq", ops=[a, b], people=2))
            for c in OPS:
                if a == "put" and tier != "thorough":
                    continue
                out.append(J(f"{a[:3]}-{b[:3]}-{c[:3]}", "seq", ops=[a, b, c], people=2))
                if a == "put":
                    continue
                for d in OPS:
                    if tier == "thorough" or (b in ("take", "expiring", "cancel")
                                              and d in ("reserve", "put")):
                        out.append(J(f"{a[:3]}-{b[:3]}-{c[:3]}-{d[:3]}", "seq", ops=[a, b, c, d],
                                     people=1 if tier != "thorough" else 2))
    return out
