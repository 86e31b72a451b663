"""C17: routed messages take shortest open paths and arrive exactly when those allow."""

from .common import UP, J

BOUNDS = ("networks of 4-7 nodes: a fixed skeleton with up to 5 optional links (symbolic), one message, up to 4 links or nodes that are down (symbolic), up to 2 blocked windows on links, nodes or the whole network with symbolic start "
          "and length, 1-3 retries, symbolic retry rate, send delay and send time, both ignore policies")
REACH = ["delivered", "no-route", "multi-hop", "detour", "retried", "gave-up-hop", "came-back", "ignored",
         "same-node", "many-down"]


class Node(UP.Actor):
    messages = UP.CommunicationStore(modes="net")


class Routes(UP.RoutingTableCommsManager):
    """Records every routing decision."""

    def __init__(self, decisions, **k):
        super().__init__(**k)
        self.decisions = decisions

    def select_hop(self, *a, **k):
        hop = super().select_hop(*a, **k)
        self.decisions.append((self.env.now, hop))
        return hop


def distances(edges, goal, without):
    """Reference: hops to the goal, by relaxation."""
    dist = {goal: 0}
    for _ in range(8):
        for u, v in edges:
            if u in without or v in without:
                continue
            if v in dist and dist.get(u, 99) > dist[v] + 1:
                dist[u] = dist[v] + 1
    return dist


def route(ctx, fixed, optional, blocks, tries, goal, two_way=False, seq=False, down=()):
    with UP.EnvironmentContext() as env:
        rate = ctx.real("rate", 0, 2, lo_open=True)
        send = ctx.real("send", 0, 3)
        keep = ctx.choice("global", [False, True]) if blocks or down else False
        log = []
        m = Routes(log, name="net", mode="net", send_time=send, retry_max_time=rate * tries,
                   retry_rate=rate, global_ignore=keep)
        m.run()
        nodes = {n: Node(name=n, debug_log=False) for n in sorted(set("ABCDE") | set("".join(fixed + optional)))}
        edges = set()
        for e in fixed:
            m.connect_nodes(nodes[e[0]], nodes[e[1]], two_way)
            edges.add((e[0], e[1]))
            if two_way:
                edges.add((e[1], e[0]))
        for e in optional:
            if ctx.bool("link" + e):
                m.connect_nodes(nodes[e[0]], nodes[e[1]])
                edges.add((e[0], e[1]))
        wins = []
        dead = [n for n in down if ctx.bool("down" + n)]
        for what in dead:
            if len(what) == 2:
                m.blocked_links.append((nodes[what[0]], nodes[what[1]]))
            else:
                m.blocked_nodes.append(nodes[what])
        if len(dead) > 2:
            ctx.reach("many-down")
        for i, what in enumerate(blocks):
            s = ctx.real(f"s{i}", 0, 10, lo_open=True)
            if seq and wins:
                s = s + wins[-1][2]
            e = s + ctx.real(f"len{i}", 0, 20, lo_open=True)
            wins.append((what, s, e))

            def go(what=what, s=s, e=e):
                yield env.timeout(s)
                if what == "*":
                    m.comms_degraded = True
                elif len(what) == 2:
                    m.blocked_links.append((nodes[what[0]], nodes[what[1]]))
                else:
                    m.blocked_nodes.append(nodes[what])
                yield env.timeout(e - s)
                if what == "*":
                    m.comms_degraded = False
                elif len(what) == 2:
                    m.blocked_links.remove((nodes[what[0]], nodes[what[1]]))
                else:
                    m.blocked_nodes.remove(nodes[what])

            env.process(go())
        start = ctx.real("start", 0, 10)

        class Send(UP.Task):
            def task(self, *, actor):
                yield UP.Wait(start)
                yield m.make_put("hello", actor, nodes[goal])

        got = []

        def watch(n):
            msg = yield nodes[n].messages.get()
            got.append((env.now, n, msg))

        for n in nodes:
            env.process(watch(n))
        Send().run(actor=nodes["A"])
        env.run(until=200)

        def blocked(u, v, t):
            r = any(what in (u, v, u + v) for what in dead)
            for what, s, e in wins:
                if what == "*" or what == u + v or what in (u, v):
                    ctx.assume(ctx.And(ctx.Not(t == s), ctx.Not(t == e)))
                    r = ctx.Or(r, ctx.And(s < t, t < e))
            return r

        cur, t, failed, hops, arrived = "A", start, [], 0, None
        i = 0
        while True:
            if cur == goal:
                arrived = t
                break
            ctx.check(i < len(log), "a decision at every step")
            at, hop = log[i]
            i += 1
            ctx.eq(at, t, "time of the routing decision")
            dist = distances(edges, goal, failed)
            if cur not in dist:
                ctx.check(hop is None, "no route is left")
                ctx.reach("no-route")
                break
            ctx.check(hop is not None, "a route exists")
            ctx.check((cur, hop.name) in edges, "over an existing link")
            ctx.check(hop.name not in failed, "not through a failed node")
            ctx.check(dist.get(hop.name, 99) == dist[cur] - 1, "along a shortest path")
            if len(distances(edges, goal, [])) and failed:
                ctx.reach("detour")
            ok = False
            for k in range(tries + 1):
                if not blocked(cur, hop.name, t + rate * k):
                    ok = True
                    t = t + rate * k
                    if k:
                        ctx.reach("retried")
                    break
            if not ok:
                t = t + rate * tries
                if hop.name in failed:
                    ctx.reach("came-back")
                failed = failed + [hop.name]
                ctx.reach("gave-up-hop")
                continue
            t = t + send
            cur = hop.name
            hops += 1
            if not keep:
                if failed:
                    ctx.reach("came-back")
                failed = []
            elif failed:
                ctx.reach("ignored")
        ctx.check(len(log) == i, "no other decisions")
        if arrived is None:
            ctx.check(got == [], "not delivered without a route")
        else:
            ctx.check(len(got) == 1, "delivered once")
            now, n, msg = got[0]
            ctx.check(n == goal, "at its destination only")
            ctx.eq(now, arrived, "time of arrival")
            ctx.eq(msg.time_sent, arrived, "time stamp")
            ctx.check(msg.content.message == "hello", "content")
            ctx.reach("delivered")
            if hops > 1:
                ctx.reach("multi-hop")
            if hops == 0:
                ctx.reach("same-node")


def setup(ctx):
    with UP.EnvironmentContext():
        m = UP.RoutingTableCommsManager(name="net", mode="other")
        a, b = Node(name="a", debug_log=False), Node(name="b", debug_log=False)
        ctx.check_raises(UP.SimulationError, "no store on the mode", m.connect_nodes, a, b)
        ctx.check_raises(UP.SimulationError, "connect is not for routing", m.connect, a, "messages")


def jobs(tier):
    sk = ["AB", "BC"]
    out = [J("setup", "setup"),
           J("open", "route", fixed=sk, optional=["AD", "DC", "AC", "BD", "BA"], blocks=[], tries=1,
             goal="C"),
           J("self", "route", fixed=sk, optional=["CA"], blocks=[], tries=1, goal="A"),
           J("two-way", "route", fixed=["CB", "BA", "DA"], optional=["DC", "DE", "EC"], blocks=["AB"],
             tries=1, goal="C", two_way=True),
           J("link", "route", fixed=sk, optional=["AD", "DC", "DB", "AC"], blocks=["AB"], tries=1,
             goal="C"),
           J("node", "route", fixed=sk, optional=["AD", "DC", "DB"], blocks=["B"], tries=1, goal="C"),
           J("all", "route", fixed=sk, optional=["AD", "DC"], blocks=["*"], tries=2, goal="C"),
           J("mid", "route", fixed=sk, optional=["BD", "DC", "DB", "AC"], blocks=["BC"], tries=1,
             goal="C"),
           J("dest", "route", fixed=["AC", "AB", "BC"], optional=["DC"], blocks=["AC"], tries=1,
             goal="C"),
           J("long", "route", fixed=["AB", "BC", "AD", "DE"], optional=["EB", "EC"], blocks=["B"],
             tries=1, goal="C"),
           J("two", "route", fixed=["AB", "BC", "AD"], optional=["DC"], blocks=["AB", "BC"],
             tries=1, goal="C", seq=True)]
    wide = ["AB", "BG", "AC", "CG", "AD", "DG", "AE", "EF", "FG"]
    out += [J("wide", "route", fixed=wide, optional=[], blocks=[], tries=1, goal="G", down=list("BCDE")),
            J("stages", "route", fixed=["AB", "AC", "BD", "CD", "DE", "DF", "EG", "FG"], optional=["AD", "DG"],
              blocks=[], tries=1, goal="G", down=["B", "AC", "E", "DG"])]
    if tier == "thorough":
        out += [J("wide2", "route", fixed=wide, optional=["BC"], blocks=["D"], tries=1, goal="G",
                  down=["AB", "C", "E"])]
        out += [J("open2", "route", fixed=["AB"], optional=["BC", "AD", "DC", "AC", "BD", "DE", "EC"],
                  blocks=[], tries=1, goal="C"),
                J("link2", "route", fixed=sk, optional=["AD", "DC", "DB", "AC"], blocks=["AB"],
                  tries=3, goal="C"),
                J("two1", "route", fixed=["AB", "BC", "AD"], optional=["DC", "DB"],
                  blocks=["AB", "BC"], tries=1, goal="C"),
                J("two2", "route", fixed=["AB", "BC", "AD"], optional=["DC", "DB"],
                  blocks=["AB", "BC"], tries=2, goal="C", seq=True),
                J("nodes", "route", fixed=["AB", "BC", "AD", "DC"], optional=["AC", "BD"],
                  blocks=["B", "D"], tries=1, goal="C"),
                J("long2", "route", fixed=["AB", "BC", "AD", "DE"], optional=["EB", "EC"],
                  blocks=["B", "EC"], tries=1, goal="C")]
    return out
