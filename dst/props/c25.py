"""C25: groups of a device are changed only to add the controller where it is missing in the lifeline."""
import collections

from .. import zwire
from ..sim import START, TICK, Net
from ..world import NodeInfo, System, start

ID = "C25"
RUNS = {"quick": 3000, "thorough": 120000}
RULE = ("One run = one seeded history of interviews of association groups of several nodes and endpoints, single, of the whole node, overlapping and cancelled, while members and number of groups are changed by others, and queries, answers and acknowledges are lost, "
        "late, repeated, cut short, supervised, about another group or mixed with unasked reports. Non-trivial: at least two interviews, or a fault fired.")
REAL = ["pyzwave.commandclass (Association, MultiChannelAssociation, dispatch)", "pyzwave.node", "pyzwave.application", "pyzwave.zipgateway", "pyzwave.zipconnection", "pyzwave.util", "codec", "asyncio tasks, timeouts, cancellation"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
SHRINK = ("rates", "faults", "odd")

CONTROLLER = 1
MEMBERS = [[1, None], [1, None], [1, 0], [1, 1], [1, 3], [2, None], [5, None], [17, None], [129, None], [232, None], [2, 0], [2, 1], [129, 1], [65, 2]]


def members(rng, multi):
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        m = rng.choice(MEMBERS)
        if (multi or m[1] is None) and m not in out:
            out.append(m)
    return out


def gen(rng, index, tier):
    big = index % 100 == 53
    nodes = []
    for n in rng.sample([2, 3, 4, 5, 18, 66, 130, 200], rng.randint(1, 3) if not big else rng.choice([1, 8])):
        eps = []
        for e in range(1 + rng.choice([0, 0, 1, 2])):
            plus, multi, channels = int(rng.chance(0.75)), int(rng.chance(0.5)), int(rng.chance(0.6)) if e == 0 else int(rng.chance(0.15))
            eps.append([plus, multi, channels, [[rng.choice([1, 2, 5, 10]), members(rng, multi)] for _ in range(rng.choice([0, 1, 1, 2, 3, 5] if not big else [1, 5, 40, 255]))]])
        nodes.append([n, eps])
    ops, t = [], 0
    for _ in range(rng.randint(2, 14 if tier == "quick" else 40) if not big else rng.randint(20, 120)):
        n, eps = rng.choice(nodes)
        ep = rng.choice([0, rng.randint(0, len(eps) - 1)])
        k = rng.weighted([("int", 6), ("whole", 1), ("one", 0.7), ("set", 3), ("count", 1), ("stray", 1), ("stall", 0.3)])
        op = {"t": t, "k": k, "n": n, "ep": ep}
        if k in ("int", "whole", "one") and rng.chance(0.1):
            op["cancel"] = rng.choice([1, 2, rng.randint(1, 250)])
        if k in ("set", "stray", "one"):
            op["g"] = rng.choice([1, 1, 1, 2, 3])
        if k in ("set", "stray"):
            op["members"] = members(rng, eps[ep][1])
        if k == "stray":
            op["what"] = rng.choice(["group", "group", "other", "count"])
            op["via"] = rng.choice(["u", "c"])
        if k == "count":
            op["count"] = rng.choice([0, 1, 1, 2, 3, 5])
        if k == "stall":
            op["ticks"] = rng.choice([3, 30, 150])
        ops.append(op)
        t += rng.choice([0, 1, 3, rng.randint(0, 60), rng.randint(0, 400), rng.randint(200, 3000)])
    rates = {"drop": rng.choice([0, 0.1]), "delay": rng.choice([0, 0.4]), "delay_max": rng.choice([3, 40, 200])} if rng.chance(0.35) else {}
    faults = rng.choice([{}, {}, {"noack": 0.1, "noreply": 0.15}, {"slow": 0.6, "slow_max": rng.choice([6, 60, 300]), "dup": 0.2}, {"noack": 0.1, "noreply": 0.1, "slow": 0.4, "slow_max": 100, "slowack": 0.3, "slowack_max": 200, "early": 0.3, "dup": 0.3, "dup_max": 300}])
    odd = rng.choice([{}, {}, {"cut": 0.2}, {"cut": 0.1, "other": 0.15, "sup": 0.2, "extra": 0.2}])
    return {"cfg": {"nodes": nodes, "version": rng.choice([0, 1, 2, 2]), "rates": rates, "faults": dict(faults), "odd": dict(odd)}, "ops": ops}


class Call:
    def __init__(self, op, key):
        self.op, self.key = op, key
        self.out = None
        self.cancelled = self.overlap = False
        self.since = 0


def report(multi, g, size, who):
    out = bytes([0x8E if multi else 0x85, 0x03, g, size, 0]) + bytes(n for n, e in who if e is None)
    pairs = [(n, e) for n, e in who if e is not None]
    return out + (b"\0" + b"".join(bytes(x) for x in pairs) if multi and pairs else b"")


def told(p):
    """(group, size, members) of a complete report."""
    if len(p) < 5:
        return None
    who, rest = [], p[5:]
    while rest and rest[0]:
        who.append((rest[0], None))
        rest = rest[1:]
    rest = rest[1:]
    if len(rest) % 2:
        return None
    return p[2], p[3], tuple(who + [(rest[i], rest[i + 1]) for i in range(0, len(rest), 2)])


def has(who):
    return any(n == CONTROLLER and not e for n, e in who)


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.kind = {(n, e): (bool(x[0]), bool(x[1]), bool(x[2])) for n, eps in self.cfg["nodes"] for e, x in enumerate(eps)}  # Z-Wave Plus, multi channel association, multi channel
        self.groups = {(n, e): {i + 1: [g[0], [tuple(m) for m in g[1]]] for i, g in enumerate(x[3])} for n, eps in self.cfg["nodes"] for e, x in enumerate(eps)}
        self.heard = collections.defaultdict(list)  # (key, group) -> [(time, size, members)]
        self.counts = collections.defaultdict(list)  # key -> [(time, number)]
        self.sent = collections.defaultdict(list)  # key -> [(time, payload)]
        self.seen = set()
        self.calls = []
        self.session = 0
        self.exact = not (self.cfg["rates"] or self.cfg["faults"] or self.cfg["odd"]) and not any(o["k"] in ("stall", "stray", "count") or "cancel" in o for o in self.ops)

    # --- the nodes ---
    def responder(self, n):
        def respond(frame, _src):
            p, key = frame.payload, (n, frame.dep)
            k, mine = p[:2], self.groups.get(key)
            if mine is None:
                return []
            if k == b"\x86\x13":
                return [bytes([0x86, 0x14, p[2], 2])]
            if k == b"\x85\x05":
                return self.twist(n, key, [bytes([0x85, 0x06, len(mine)])])
            if k in (b"\x85\x02", b"\x8e\x02") and len(p) > 2:
                g = p[2] if p[2] in mine else 1
                if g not in mine:
                    return []
                return self.twist(n, key, [report(k[0] == 0x8E, g, mine[g][0], mine[g][1])], True)
            if k in (b"\x85\x01", b"\x8e\x01") and len(p) > 2 and p[2] in mine:
                what = told(bytes([k[0], 3, p[2], 0, 0]) + p[3:])
                group = mine[p[2]]
                for m in what[2] if what else ():
                    if m not in group[1] and len(group[1]) < group[0]:
                        group[1].append(m)
            return []

        return respond

    def twist(self, n, key, replies, group=False):
        """Answers that are cut short, supervised, about another group, or that come with others."""
        odd = self.odd
        if not odd:
            return replies

        def pick(rng):
            d = {k: 1 for k in ("cut", "other", "sup", "extra") if rng.chance(odd.get(k, 0))}
            if "cut" in d:
                d["cut"] = rng.randint(0, 2)
            return d or None

        d = self.sim.chooser.pick("odd:%d:%d" % key, pick) or {}
        p = replies[0]
        for k in d:
            self.sim.fault_count["answer-" + k] += 1
        if "other" in d and group:
            p = p[:2] + bytes([p[2] % 255 + 1]) + p[3:]
        if "cut" in d:
            p = p[:2 + d["cut"]] if group else p[:2]
        out = [p]
        if "extra" in d and group:
            out.append(bytes([p[0], 3, 2 if p[2:3] == b"\1" else 1, 9, 0]))
        if "sup" in d:
            self.session = (self.session + 1) % 64
            out[0] = bytes([0x6C, 0x01, self.session, len(p)]) + p
        return out

    # --- what goes over the network ---
    def on_rx(self, _sock, data, addr):
        f = zwire.parse(data)
        n = next((i for i, x in self.sys.peers.items() if x.ip == addr[0]), None)
        if f is None or (n, f.sep) not in self.kind:
            return
        p, key, now = f.payload, (n, f.sep), self.sim.now
        if p[:2] == b"\x6c\x01" and len(p) >= 4:
            p = p[4:4 + p[3]]
        if p[:2] in (b"\x85\x03", b"\x8e\x03"):
            what = told(p)
            if what and (p[0] == 0x8E) == self.kind[key][1]:
                self.heard[(key, what[0])].append((now, what[1], what[2]))
        elif p[:2] == b"\x85\x06" and len(p) > 2:
            self.counts[key].append((now, p[2]))

    def on_tx(self, now, _sock, dst, data):
        f = zwire.parse(data)
        n = next((i for i, x in self.sys.peers.items() if x.addr == dst), None)
        if f is None or n is None or f.payload[:1] not in (b"\x85", b"\x8e"):
            return
        key, p = (n, f.dep), f.payload
        self.sent[key].append((now, p))
        if p[1:2] == b"\x01":
            self.changed(now, key, p)
        elif p[1:2] == b"\x02" and (p[0] == 0x8E) != self.kind[key][1]:
            self.sim.fail("wrong-question", "%s was sent to %s, %s" % (p.hex(), key, self.describe(key)))
        elif p[1:2] not in (b"\x02", b"\x05"):
            self.sim.fail("wrong-command", "%s was sent to %s" % (p.hex(), key))

    def describe(self, key):
        return "Z-Wave Plus %s, multi channel association %s, multi channel %s" % self.kind[key]

    def changed(self, now, key, p):
        """A command that changes a group."""
        plus, multi, channels = self.kind[key]
        self.sim.probe["set"] += 1
        running = [c for c in self.calls if c.key == key and c.op["k"] != "one" and not (c.out and c.out.done)]
        if not running:
            self.sim.fail("unasked-change", "%s was sent to %s without an interview" % (p.hex(), key))
            return
        if not plus:
            self.sim.fail("change-not-plus", "%s was sent to %s, %s" % (p.hex(), key, self.describe(key)))
            return
        want = bytes([0x8E, 1, 1, 0, CONTROLLER, 0]) if multi and channels else bytes([0x85, 1, 1, CONTROLLER])
        if p != want:
            self.sim.fail("wrong-change", "%s was sent to %s, expected %s, %s" % (p.hex(), key, want.hex(), self.describe(key)))
            return
        since = min(c.since for c in running)
        got = [x for t, _, x in self.heard[(key, 1)] if t >= since]
        alone = len(running) == 1 and not running[0].overlap
        known = self.recorded(key).get(1)
        # (a report can come when nobody waits for it, so that what is recorded was not reported last)
        if alone and (known is None or has(known[1])):
            needless = True
        elif 0 in [x for t, x in self.counts[key] if t >= since]:
            needless = False  # forgotten in between
        else:
            needless = not got and all(c.before for c in running) or got and all(has(x) for x in got) and (self.exact or all(c.before for c in running))
        if needless:
            self.sim.fail("needless-change", "%s was sent to %s, reported since %.4f were %s, recorded before %s" % (p.hex(), key, since - START, got, [c.before for c in running]))

    # --- the scenario ---
    async def scenario(self, sim):
        infos = []
        for n, eps in self.cfg["nodes"]:
            cl = [[0x85] + [0x86] + [0x5E] * x[0] + [0x8E] * x[1] + [0x60] * x[2] for x in eps]
            infos.append(NodeInfo(n, cl[0], endpoints=[(0x10, 1, c) for c in cl[1:]]))
        # (endpoints are looked for in nodes with the multi channel class)
        self.sys = s = System(sim, infos)
        await s.up()
        keys = sorted(k for k in self.kind if "%d:%d" % k in s.app.nodes)
        for k in self.kind:
            if k not in keys and (k[1] == 0 or self.kind[(k[0], 0)][2]):
                sim.fail("setup-failed", "node %d:%d was not loaded" % k)
                return
        self.odd = {}
        sim.rx_watch.append(self.on_rx)
        sim.net.on_send.append(self.on_tx)
        for n, p in s.peers.items():
            p.responder = self.responder(n)
        for k in keys:
            if self.cfg["version"]:
                self.cc(k).__setstate__({"version": self.cfg["version"]})
        await sim.sleep(64)
        for p in s.peers.values():
            p.faults = self.cfg["faults"]
        sim.net.rates = self.cfg["rates"]
        self.odd = self.cfg["odd"]
        base = sim.now
        for op in self.ops:
            if (op["n"], op["ep"]) in keys:
                sim.at(base + op["t"] * TICK, lambda op=op: self.do(op))
        await sim.until(base + (max(o["t"] for o in self.ops) + 64) * TICK)
        for _ in range(1600):
            if all(c.out.done for c in self.calls):
                break
            await sim.sleep(64)
        for c in self.calls:
            if not c.out.done:
                sim.fail("never-ends", c.out.describe())
                return
        # With no more faults an interview learns all groups, and the controller is in the lifeline
        sim.net.rates = {}
        for p in s.peers.values():
            p.faults = {}
        self.odd = {}
        await sim.sleep(64 * 20)
        self.exact = True
        for k in keys:
            before = {g: list(x[1]) for g, x in self.groups[k].items()}
            first = sim.now
            c = self.call({"k": "int"}, k)
            while not c.out.done:
                await sim.sleep(16)
            if c.out.value is False:
                sim.fail("interview-failed", c.out.describe())
                return
            now = self.groups[k]
            want = {g: list(x) for g, x in before.items()}
            added = []
            if self.kind[k][0] and 1 in want and not has(self.visible(k, want[1])):
                added = [(CONTROLLER, 0 if self.kind[k][1] and self.kind[k][2] else None)]
                if len(want[1]) < now[1][0]:
                    want[1] += [m for m in added if m not in want[1]]
            if {g: x[1] for g, x in now.items()} != want:
                sim.fail("groups-changed", "groups of %s are %s after an interview, were %s, %s" % (k, now, before, self.describe(k)))
                return
            sets = [p for t, p in self.sent[k] if t >= first and p[1] == 1]
            if len(sets) != len(added):
                sim.fail("sets", "%d changes were sent to %s, expected %d" % (len(sets), k, len(added)))
                return
            seen = {g: (x[0], sorted(self.visible(k, x[1]), key=str)) for g, x in now.items()}
            got = {g: (size, sorted(who, key=str)) for g, (size, who) in self.recorded(k).items()}
            if got != seen:
                sim.fail("groups-not-learned", "groups of %s are recorded as %s, they are %s" % (k, got, seen))
                return

    def cc(self, key):
        return self.sys.app.nodes["%d:%d" % key].supported[0x85]

    def visible(self, key, who):
        """Members a node tells when asked with the class used."""
        return [m for m in who if self.kind[key][1] or m[1] is None]

    def recorded(self, key):
        return {int(g): (int(x.maxNodes), tuple((int(n), None if e is None else int(e)) for n, e in x.nodes)) for g, x in self.cc(key).groupings.items()}

    def do(self, op):
        sim, s, k = self.sim, self.sys, op["k"]
        key = (op["n"], op["ep"])
        mine = self.groups[key]
        if k == "stall":
            sim.stall(op["ticks"])
        elif k == "set":
            if op["g"] in mine:
                mine[op["g"]][1] = [tuple(m) for m in op["members"]][:mine[op["g"]][0]]
        elif k == "count":
            for g in [g for g in mine if g > op["count"]]:
                del mine[g]
            for g in range(1, op["count"] + 1):
                mine.setdefault(g, [5, []])
        elif k == "stray":
            multi = self.kind[key][1] != (op["what"] == "other")
            p = bytes([0x85, 6, len(mine)]) if op["what"] == "count" else report(multi, op["g"], 7, [tuple(m) for m in op["members"]])
            sock = s.socket_of(op["n"]) if op["via"] == "c" else None
            sim.fault_count["unasked-report"] += 1
            s.peers[op["n"]].cmd(sock.local if sock else (Net.CLIENT_IP, 4123), p, sep=op["ep"], link="n%d>%s" % (op["n"], op["via"]))
        else:
            self.call(op, key)

    def call(self, op, key):
        sim, k = self.sim, op["k"]
        node = self.sys.app.nodes["%d:%d" % key]
        c = Call(op, key)
        c.since = sim.now
        for x in self.calls:
            if x.key == key and not x.out.done:
                x.overlap = c.overlap = True
                c.since = min(c.since, x.since)
        got = self.recorded(key)
        c.had = got
        c.before = 1 in got and has(got[1][1])
        if k == "one":
            if op["g"] not in got:
                return None
            fn = lambda: node.supported[0x85].interviewGrouping(op["g"])
        elif k == "whole":
            fn = node.interview
        else:
            fn = node.supported[0x85].interview
        self.calls.append(c)
        c.out, task = start(sim, "%s of %s" % (k, key), fn)
        task.add_done_callback(lambda _t: self.ended(c))
        if op.get("cancel"):
            def cancel():
                if not c.out.done:
                    sim.fault_count["cancelled"] += 1
                    c.cancelled = True
                    task.cancel()

            sim.after(op["cancel"], cancel)
        return c

    # --- the judgement ---
    def ended(self, c):
        sim, out, key, k = self.sim, c.out, c.key, c.op["k"]
        ok = out.exc is None and out.value is not False
        sim.probe["%s-%s" % (k, "ok" if ok else "failed")] += 1
        if out.exc is not None and not (c.cancelled and out.cancelled) and not (k == "one" and out.timeout):
            sim.fail("error", out.describe())
            return
        if c.overlap:
            return
        got = self.recorded(key)
        counts = [x for t, x in self.counts[key] if t >= out.start]
        for g, what in got.items():
            heard = [(size, who) for t, size, who in self.heard[(key, g)] if t >= out.start]
            old = c.had.get(g, (0, ()))
            if what != old and what not in heard:
                sim.fail("wrong-group", "%s: group %d of %s is recorded as %s, before %s, reported were %s" % (out.describe(), g, key, what, old, heard))
                return
        if len(got) != len(c.had) and (k == "one" or len(got) not in counts) or sorted(got) != list(range(1, len(got) + 1)):
            sim.fail("wrong-number", "%s: recorded of %s are groups %s, before %s, reported were %s" % (out.describe(), key, sorted(got), sorted(c.had), counts))
            return
        if k == "one" and ok:
            heard = [(size, who) for t, size, who in self.heard[(key, c.op["g"])] if t >= out.start]
            if got.get(c.op["g"]) not in heard:
                sim.fail("not-recorded", "%s: group %d of %s is recorded as %s, reported were %s" % (out.describe(), c.op["g"], key, got.get(c.op["g"]), heard))
        if k != "int" or not ok or not self.cc(key).version:
            return
        sent = [(t, p) for t, p in self.sent[key] if t >= out.start]
        if not counts or len(got) not in counts:
            sim.fail("wrong-number", "%s: recorded of %s are %d groups, reported were %s" % (out.describe(), key, len(got), counts))
            return
        for g in got:
            if not any(p[1] == 2 and p[2] == g for _, p in sent):
                sim.fail("not-asked", "%s: %s was not asked for group %d of %d" % (out.describe(), key, g, len(got)))
                return
        sets = [t for t, p in sent if p[1] == 1]
        if len(sets) > 1:
            sim.fail("sets", "%s: %d changes were sent to %s" % (out.describe(), len(sets), key))
            return
        for g in got if self.exact else ():
            heard = [(size, who) for t, size, who in self.heard[(key, g)] if t >= out.start]
            if got[g] not in heard[-1:]:
                sim.fail("not-recorded", "%s: group %d of %s is recorded as %s, reported were %s" % (out.describe(), g, key, got[g], heard))
                return
        heard = [x for t, _, x in self.heard[(key, 1)] if t >= out.start and (not sets or t <= sets[0])]
        if self.kind[key][0] and 1 in got and not sets and not (has(got[1][1]) and (not self.exact or any(has(x) for x in heard))):
            sim.fail("not-added", "%s: the controller was not added to the lifeline of %s, reported were %s, recorded before %s" % (out.describe(), key, heard, c.had.get(1)))
            return
        if sets and not any(t >= sets[0] and p[1] == 2 and p[2] == 1 for t, p in sent):
            sim.fail("not-asked-again", "%s: the lifeline of %s was changed and not asked for again" % (out.describe(), key))


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = bool(sim.fault_count) or len(world.calls) >= 2 + len(world.kind)
