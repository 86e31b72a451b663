"""C16: point to point messages arrive once, on time, unless the link stays blocked."""

import simpy
from upstage_des.communications.comms import Message, MessageContent
from upstage_des.communications.processes import generate_comms_wait

from .common import UP, J

BOUNDS = ("up to 3 messages between 2-3 actors (modes from the class or their own) with symbolic send times and send delay; up to 2 blocked "
          "windows (whole network, node or one-way link) with symbolic start and length; up to 4 "
          "(thorough: 6) retries at a symbolic rate; a window edge exactly at an attempt is excluded")
REACH = ["delivered", "retried", "dropped", "not-affected", "send-time", "callback", "connected",
         "by-mode", "no-store"]


class Talker(UP.Actor):
    radio = UP.CommunicationStore(modes=None)
    wire = UP.CommunicationStore(modes="wire")
    box = UP.ResourceState(default=simpy.Store)


class Mute(UP.Actor):
    v = UP.State(default=0.0)


def node(name):
    return Talker(name=name, radio={"modes": ["radio", "tv"]}, debug_log=False)


def manager(ctx, send_time, tries, how, env):
    rate = ctx.real("rate", 0, 2, lo_open=True)
    # any maximum that allows this number of tries
    part = ctx.real("part", 0, 1, lo_open=True)
    retry_max = rate * (tries - 1 + part) if tries else 0.0
    mode = {"radio": "radio", "wire": "wire", "connect": None}[how]
    m = UP.PointToPointCommsManager(name="net", mode=mode, send_time=send_time,
                                    retry_max_time=retry_max, retry_rate=rate)
    m.run()
    return m, rate


def box_of(a, how):
    return {"radio": a.radio, "wire": a.wire, "connect": a.box}[how]


def block(env, m, kind, win, a, b):
    s, e = win

    def go():
        yield env.timeout(s)
        if kind == "all":
            m.comms_degraded = True
        elif kind == "link":
            m.blocked_links.append((a, b))
        else:
            m.blocked_nodes.append(a if kind == "source" else b)
        yield env.timeout(e - s)
        if kind == "all":
            m.comms_degraded = False
        elif kind == "link":
            m.blocked_links.remove((a, b))
        else:
            m.blocked_nodes.remove(a if kind == "source" else b)

    env.process(go())


class Sender(UP.Task):
    def task(self, *, actor):
        p = actor.stage.plan
        for t, dest, payload in p[actor.name]:
            yield UP.Wait(t - actor.env.now) if t is not None else UP.Wait(0.0)
            yield p["m"].make_put(payload, actor, dest)


def fate(ctx, t, windows, rate, tries):
    """Reference: instant the link is taken, or None."""
    at = t
    for k in range(tries + 1):
        blocked = False
        for s, e in windows:
            ctx.assume(ctx.And(ctx.Not(at == s), ctx.Not(at == e)))
            blocked = ctx.Or(blocked, ctx.And(s < at, at < e))
        if not blocked:
            if k:
                ctx.reach("retried")
            return at
        at = at + rate
    return None


def traffic(ctx, n, tries, kinds, how):
    """Messages from a to b and back, with blocked windows on a -> b."""
    with UP.EnvironmentContext() as env:
        send = ctx.real("send", 0, 3)
        m, rate = manager(ctx, send, tries, how, env)
        a, b = node("a"), node("b")
        if how == "connect":
            m.connect(a, "box")
            m.connect(b, "box")
            ctx.reach("connected")
        else:
            ctx.reach("by-mode")
        p = {"m": m, "a": [], "b": []}
        UP.add_stage_variable("plan", p)
        t, sent = 0.0, []
        for k in range(n):
            t = t + ctx.real(f"gap{k}", 0, 5, lo_open=True)
            frm, to = (a, b) if k != 1 else (b, a)
            val = ctx.real(f"val{k}", -5, 5)
            payload = [{"val": val}, f"text{k}", MessageContent(data={"x": val}, message="m")][k % 3]
            p[frm.name].append((t, to, payload))
            sent.append((t, frm, to, payload))
        wins, e = {}, 0.0
        for i, kind in enumerate(kinds):
            s = e + ctx.real(f"s{i}", 0, 5, lo_open=True)
            e = s + ctx.real(f"len{i}", 0, 10)
            block(env, m, kind, (s, e), a, b)
            wins[i] = (kind, s, e)
        got = []

        def watch(who):
            while True:
                msg = yield box_of(who, how).get()
                got.append((env.now, who, msg))

        for who in (a, b):
            env.process(watch(who))
        for who in (a, b):
            Sender().run(actor=who)
        env.run(until=100)
        want = []
        for t, frm, to, payload in sent:
            hit = [(s, e) for kind, s, e in wins.values()
                   if kind in ("all", "source", "dest") or (kind == "link" and frm is a)]
            at = fate(ctx, t, hit, rate, tries)
            if at is None:
                ctx.reach("dropped")
                continue
            if len(hit) < len(wins):
                ctx.reach("not-affected")
            want.append((at + send, frm, to, payload))
            ctx.reach("delivered")
            if send > 0:
                ctx.reach("send-time")
        ctx.check(len(got) == len(want), "each message arrives once, or never if the link stays blocked")
        for t, frm, to, payload in want:
            mine = [g for g in got if same_payload(g[2].content, payload)]
            ctx.check(len(mine) == 1, "the message arrives once")
            now, who, msg = mine[0]
            ctx.check(who is to, "at its destination")
            ctx.check(msg.sender is frm and msg.destination is to, "sender and destination")
            ctx.eq(now, t, "time of arrival")
            ctx.eq(msg.time_sent, t, "time stamp")
            ctx.check(msg.mode == m.mode, "mode")
        for who in (a, b):
            for box in (who.radio, who.wire, who.box):
                ctx.check(len(box.items) == 0, "nothing anywhere else")


def same_payload(content, payload):
    if isinstance(payload, MessageContent):
        return content is payload
    if isinstance(payload, dict):
        return content.data is payload and content.message is None
    return content.message == payload and content.data == {}


def order(ctx, n):
    """Messages over an open link arrive in the order they were sent, through a callback too."""
    with UP.EnvironmentContext() as env:
        send = ctx.real("send", 0, 3)
        m, _ = manager(ctx, send, 1, "wire", env)
        a, b = node("a"), node("b")
        p = {"m": m, "a": []}
        UP.add_stage_variable("plan", p)
        t, times = 0.0, []
        for k in range(n):
            t = t + ctx.real(f"gap{k}", 0, 5)
            times.append(t)
            p["a"].append((t, b, f"m{k}"))
        got = []
        generate_comms_wait(b.wire, lambda c: got.append((env.now, c.message)))()
        Sender().run(actor=a)
        env.run(until=100)
        ctx.check([x for _, x in got] == [f"m{k}" for k in range(n)], "in order, each once")
        for (now, _), t in zip(got, times):
            ctx.eq(now, t + send, "time of arrival")
        ctx.reach("callback")


def lookup(ctx):
    """The destination store is found by mode, or by explicit connection, or it is an error."""
    with UP.EnvironmentContext() as env:
        a, b, c = node("a"), node("b"), Mute(name="c", debug_log=False)
        mode = ctx.choice("mode", ["radio", "tv", "wire", "smoke"])
        m = UP.PointToPointCommsManager(name="net", mode=mode)
        if ctx.choice("connect", [False, True]):
            m.connect(b, "box")
            ctx.check(m.store_from_actor(b) is b.box, "explicit connection")
        elif mode == "smoke":
            ctx.check_raises(UP.SimulationError, "no store for the mode", m.store_from_actor, b)
            ctx.reach("no-store")
        else:
            want = b.wire if mode == "wire" else b.radio
            ctx.check(m.store_from_actor(b) is want, "store for the mode")
        ctx.check_raises(UP.SimulationError, "no store", m.store_from_actor, c)
        ready = Message(sender=a, content=MessageContent(data={}), destination=b)
        put = m.make_put(ready, a, b, rehearsal_time_to_complete=2.0)
        ctx.check(put.put_object is ready, "a message is sent as it is")
        ctx.check(m.clean_message(ready) is ready.content, "content of a message")
        ctx.check(m.clean_message("x").data == {"message": "x"}, "content of anything else")
        two = UP.PointToPointCommsManager(name="net", init_entities=[(a, "box"), (b, "wire")])
        ctx.check(two.store_from_actor(a) is a.box and two.store_from_actor(b) is b.wire,
                  "initial connections")
        env.run(until=1)


class Pair(UP.Actor):
    first = UP.CommunicationStore(modes="uhf")
    second = UP.CommunicationStore(modes=["vhf", "tv"])


def modes(ctx, n):
    """A message goes to the store of its destination that has the manager's mode, its own or the class's."""
    own = {"first": [None, "tv", ["vhf", "lf"]], "second": [None, "uhf", "lf"]}
    usual = {"first": ["uhf"], "second": ["vhf", "tv"]}
    with UP.EnvironmentContext() as env:
        people, have = [], []
        for i in range(n):
            given, mine = {}, {}
            for name, options in own.items():
                m = ctx.choice(f"{name}{i}", options)
                if m is not None:
                    given[name] = {"modes": list(m) if isinstance(m, list) else m}
                mine[name] = usual[name] if m is None else m if isinstance(m, list) else [m]
            people.append(Pair(name=f"p{i}", debug_log=False, **given))
            have.append(mine)
        to = ctx.choice("to", list(range(n)))
        mode = ctx.choice("mode", ["uhf", "vhf", "tv", "lf"])
        stores = [k for k, v in have[to].items() if mode in v]
        send = ctx.real("send", 0, 3)
        m = UP.PointToPointCommsManager(name="m", mode=mode, send_time=send)
        m.run()
        a = people[(to + 1) % n]

        class Send(UP.Task):
            def task(self, *, actor):
                yield m.make_put("hello", actor, people[to])

        Send().run(actor=a)
        if not stores:
            ctx.check_raises(UP.SimulationError, "no store of the mode", env.run, until=10)
            ctx.reach("no-store")
            return
        env.run(until=10)
        count = [{k: len(getattr(p, k).items) for k in own} for p in people]
        for i in range(n):
            if i != to:
                ctx.check(count[i] == {"first": 0, "second": 0}, "nothing for others")
        ctx.check(sum(count[to].values()) == 1, "delivered once")
        ctx.check([k for k, v in count[to].items() if v][0] in stores, "in a store of the mode")
        if len(stores) == 1:
            ctx.reach("by-mode")


def jobs(tier):
    out = [J("modes", "modes", n=2), J("lookup", "lookup"), J("order2", "order", n=2), J("order3", "order", n=3)]
    for kind in ("all", "source", "dest", "link"):
        out.append(J("1-" + kind, "traffic", n=1, tries=3, kinds=[kind], how="wire"))
        out.append(J("2-" + kind, "traffic", n=2, tries=2, kinds=[kind], how="radio"))
    out += [J("none", "traffic", n=3, tries=1, kinds=[], how="radio"),
            J("conn", "traffic", n=2, tries=1, kinds=["link"], how="connect"),
            J("noretry", "traffic", n=2, tries=0, kinds=["all"], how="wire"),
            J("1-4", "traffic", n=1, tries=4, kinds=["link"], how="wire"),
            J("1-two", "traffic", n=1, tries=3, kinds=["all", "link"], how="wire"),
            J("1-two-nodes", "traffic", n=1, tries=2, kinds=["source", "dest"], how="wire")]
    if tier == "thorough":
        out += [J("order4", "order", n=4),
                J("3-link", "traffic", n=3, tries=2, kinds=["link"], how="radio"),
                J("3-all", "traffic", n=3, tries=2, kinds=["all"], how="wire"),
                J("1-6", "traffic", n=1, tries=6, kinds=["all"], how="wire"),
                J("2-two", "traffic", n=2, tries=3, kinds=["all", "link"], how="connect")]
    return out
