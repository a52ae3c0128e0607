"""C05: unsolicited reports reach the right node once, in order, and are acknowledged."""
import asyncio
import collections

from .. import zwire
from ..sim import START, TICK, Net
from ..world import GW_IP, NodeInfo, NodePeer, System, node_ip, start

ID = "C05"
RUNS = {"quick": 2000, "thorough": 150000}
RULE = ("One run = one seeded history of reports from several nodes, endpoints, the gateway and strangers, with and without acknowledgement request, duplicated, delayed and reordered, "
        "with slow and failing listeners, requests in progress, failing internal handlers, node list changes and stalls. Non-trivial: at least four reports arrived, or a fault fired.")
REAL = ["pyzwave.zipgateway", "pyzwave.application", "pyzwave.node", "pyzwave.commandclass (dispatch, Zip, reports)", "pyzwave.connection", "pyzwave.util", "codec", "asyncio tasks"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
SHRINK = ("rates", "lst", "versions")

CLASSES = [0x20, 0x25, 0x70, 0x80, 0x31]
KINDS = ("set", "rep", "bin", "ind", "conf", "sens", "poison", "unk", "batt", "supp", "cget")


def gen_rejoin(rng):
    """Nodes that come back, and report as soon as they are announced; their addresses take their time."""
    nodes = [[3 + i, 0] for i in range(rng.randint(1, 4))]
    volatile = [n[0] for n in nodes if rng.chance(0.8)] or [nodes[0][0]]
    ops = []
    t = 0
    for i in range(rng.randint(2, 6)):
        ops.append({"t": t, "op": "list", "gone": [v for v in volatile if rng.chance(0.5)]})
        for _ in range(rng.randint(0, 3)):
            ops.append({"t": t + rng.randint(0, 600), "op": "report", "n": rng.choice(nodes)[0], "data": bytes([0x20, 0x01, rng.randint(0, 255)]).hex(), "ack": rng.randint(0, 1), "seq": rng.randint(0, 255),
                        "sep": 0, "dep": 0, "port": 4123, "ext": None})
        t += 64 * 14
    slow = rng.choice([0, 5, 100])
    return {"cfg": {"nodes": nodes, "volatile": volatile, "rejoin": [rng.choice([0, 1, 3, 64]) for _ in range(3)], "rates": {}, "lst": [], "first": 0, "versions": 0,
                    "gw": {"adv_slow": int(bool(slow)), "adv_slow_max": slow or 9, "adv_dup": rng.choice([0, 0.3])}, "faults": {}}, "ops": ops}


def gen(rng, index, tier):
    if index % 20 == 7:
        return gen_rejoin(rng)
    big = index % 100 == 53
    nodes = []
    for i in range(rng.randint(1, 4) if not big else rng.randint(3, 90)):
        nodes.append([3 + i, rng.randint(0, 2)])
    if index % 50 == 31:
        nodes[-1][1] = rng.choice([65, 127])  # as many endpoints as there can be
    ops = []
    t = 0
    volatile = [n[0] for n in nodes if rng.chance(0.5)] if rng.chance(0.4) else []
    for i in range(rng.randint(4, 30 if tier == "quick" else 60) if not big else rng.randint(100, 400)):
        node, eps = rng.choice(nodes)
        r = rng.random()
        if r < 0.72:
            kind = rng.choice(KINDS)
            data = {"set": b"\x20\x01", "rep": b"\x20\x03", "bin": b"\x25\x03", "ind": b"\x87\x03", "batt": b"\x80\x03"}.get(kind)
            if data:
                data += bytes([rng.randint(0, 255)])
            elif kind == "conf":
                size = rng.choice([1, 2, 4])
                data = bytes([0x70, 0x06, rng.randint(1, 3), size]) + rng.bytes(size)
            elif kind == "sens":
                data = bytes([0x31, 0x05, 1, 0x22]) + rng.bytes(2)
            elif kind == "poison":
                data = bytes([0x31, 0x05, 1])
            elif kind == "supp":  # its class handles other messages itself, not this one
                data = bytes([0x31, 0x06, rng.choice([1, 3, 5]), rng.randint(0, 15)])
            elif kind == "cget":
                data = bytes([0x70, 0x05, rng.randint(0, 255)])
            else:
                data = bytes([0x99, rng.randint(1, 3), 5])
            op = {"t": t, "op": "report", "n": node, "data": data.hex(), "ack": rng.randint(0, 1), "seq": rng.choice([rng.randint(0, 255), rng.randint(0, 3), 0, 255]),
                  "sep": rng.choice([0, 0, eps, rng.randint(0, min(eps + 1, 127))]), "dep": rng.choice([0, 0, 0, 1, 127]), "port": rng.choice([4123, 4123, 41230, 50000 + node]),
                  "ext": rng.choice([None, None, None, [], [[4, "0001"]], [[1, "00001e"]]])}
            if op["ext"]:
                op["ext"] = [[a, b] for a, b in op["ext"]]
            ops.append(op)
            while rng.chance(0.2):  # the very same frame again
                ops.append(dict(op, t=t + rng.choice([0, 0, 1, 5, 100])))
        elif r < 0.78:
            ops.append({"t": t, "op": "gw", "data": bytes([0x25, 0x03, rng.randint(0, 255)]).hex(), "ack": rng.randint(0, 1), "seq": rng.randint(0, 255)})
        elif r < 0.84:
            ops.append({"t": t, "op": "stranger", "ip": rng.choice([node_ip(node, 9), node_ip(77), "fd00:aaaa::77"]), "data": bytes([0x25, 0x03, rng.randint(0, 255)]).hex(), "ack": rng.randint(0, 1), "seq": rng.randint(0, 255)})
        elif r < 0.92:
            ops.append({"t": t, "op": "request", "n": node, "ep": rng.randint(0, eps)})
        elif r < 0.95:
            ops.append({"t": t, "op": "stall", "ticks": rng.choice([3, 30, 200])})
        elif volatile:
            ops.append({"t": t, "op": "list", "gone": [v for v in volatile if rng.chance(0.5)]})
        t += rng.choice([0, 0, 0, 1, 1, 2, rng.randint(0, 30), rng.randint(0, 400)])
    rates = {}
    if rng.chance(0.5):
        rates = {"drop": rng.choice([0, 0.1]), "dup": rng.choice([0, 0.15]), "dup_max": 60, "delay": rng.choice([0, 0.4]), "delay_max": rng.choice([3, 40])}
    lst = [rng.choice(["raise", "araise", "slow", "slowtrue", "acancel", "cancel", "true"]) for _ in range(rng.randint(0, 3))] if rng.chance(0.6) else []
    return {"cfg": {"nodes": nodes, "volatile": volatile, "rates": rates, "lst": lst, "first": rng.randint(0, 1), "versions": rng.choice([0, 5]), "controller": 200 if index % 5 == 3 else 1, "faults": {"noack": 0.1, "noreply": 0.1, "slow": 0.3, "slow_max": 300}}, "ops": ops}


class Faulty:
    """A listener that misbehaves."""

    def __init__(self, world, how):
        self.world = world
        self.how = how
        if how in ("raise", "cancel", "true"):
            self.onMessage = self.plain
        else:
            self.onMessage = self.coro

    def plain(self, *_args):
        self.world.sim.fault_count["listener-" + self.how] += 1
        if self.how == "raise":
            raise ValueError("listener failed")
        if self.how == "cancel":
            raise asyncio.CancelledError()
        return True

    async def coro(self, *_args):
        self.world.sim.fault_count["listener-" + self.how] += 1
        if self.how == "araise":
            raise ValueError("listener failed")
        if self.how == "acancel":
            raise asyncio.CancelledError()
        await self.world.sim.sleep(64 * 20)
        return self.how == "slowtrue"


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.rx = []  # (t, ip, addr, frame)
        self.heard = collections.defaultdict(list)  # (target, where) -> [(t, payload)]
        self.acks = []
        self.lists = []  # (t, nodes listed)
        self.joined = []  # (t, node) announced
        self.stalls = 0.0

    def on_rx(self, sock, data, addr):
        if sock.remote is None and self.watching:
            f = zwire.parse(data)
            if f is not None and f.payload[:2] == b"\x52\x02":
                self.lists.append((self.sim.now, {i for i in range(1, 233) if f.payload[5 + (i - 1) // 8] >> ((i - 1) & 7) & 1}))
            if f is not None and f.payload[:2] != b"\x52\x02":
                self.rx.append((self.sim.now, addr[0], addr, f))

    def on_tx(self, now, sock, dst, data):
        if sock.remote is None and self.watching:
            f = zwire.parse(data)
            if f is None:
                self.sim.fail("garbage-sent", data.hex())
                return
            self.acks.append((now, dst, f))

    def attach(self, node):
        world = self
        key = node.nodeId

        def note(where, msg):
            world.sim.log("heard", key, where)
            if isinstance(msg.hid(), int) and not msg.NAME:
                data = bytes([msg.hid() >> 8, msg.hid() & 255])
            elif msg.hid() == 0x3105:
                v = msg.sensorValue
                data = ("sens", int(msg.sensorType), round(float(v), 4)) if v is not None else ("sens", int(msg.sensorType), None)
            elif msg.hid() == 0x7006:
                data = ("conf",)
            else:
                data = msg.compose()
            world.heard[(key, where)].append((world.sim.now, data))

        class Good:
            def onMessage(self, _speaker, msg):
                note("node", msg)

        class GoodCC:
            def onSet(self, _speaker, msg, _flags):
                note("cc", msg)

            def onReport(self, _speaker, msg, _flags):
                note("cc", msg)

            def onGet(self, _speaker, msg, _flags):
                note("cc", msg)

            def onSupportedScaleReport(self, _speaker, msg, _flags):
                note("cc", msg)

        bad = [Faulty(self, how) for how in self.cfg["lst"] or ()]
        for b in bad[: self.cfg["first"] and len(bad)]:
            node.addListener(b)
        node.addListener(Good())
        for b in bad[self.cfg["first"] and len(bad):]:
            node.addListener(b)
        for cc in (0x20, 0x25, 0x31, 0x70):
            if cc in node.supported:
                node.supported[cc].addListener(GoodCC())
        if self.cfg["versions"] and 0x31 in node.supported:
            node.supported[0x31].__setstate__({"version": self.cfg["versions"]})

    # listener of the application
    def nodeAdded(self, _app, node):
        self.attach(node)
        if self.watching and self.cfg.get("rejoin"):
            self.joined.append((self.sim.now, node.rootNodeId))
            for i, d in enumerate(self.cfg["rejoin"]):
                self.sim.after(d, lambda i=i: self.system.peers[node.rootNodeId].report(bytes([0x20, 0x01, i]), ack_request=bool(i & 1)))

    def messageReceived(self, _app, msg):
        if msg.hid() == 0x2503:  # late answers of the gateway also end up here
            self.heard[("1:0", "app")].append((self.sim.now, msg.compose()))

    async def scenario(self, sim):
        self.watching = False
        sim.rx_watch.append(self.on_rx)
        sim.net.on_send.append(self.on_tx)
        infos = [NodeInfo(n, CLASSES + ([0x60] if e else []), endpoints=[(0x10, 1, CLASSES)] * e) for n, e in self.cfg["nodes"]]
        self.system = s = System(sim, infos)
        s.gw.controller = self.cfg.get("controller") or 1
        s.make()
        s.app.addListener(self)
        await s.adapter.connect()
        await s.app.startup()
        for n in infos:
            await s.adapter.connectToNode(n.id)
        for n, e in self.cfg["nodes"]:
            for ep in range(e + 1):
                if "%d:%d" % (n, ep) not in s.app.nodes:
                    sim.fail("setup-failed", "node %d:%d was not loaded" % (n, ep))
                    return
        for p in s.peers.values():
            p.faults = self.cfg["faults"]
            p.responder = lambda f, _src: [b"\x80\x03\x21"] if f.payload[:2] == b"\x80\x02" else []
        await sim.sleep(64)
        self.watching = True
        sim.net.rates = self.cfg["rates"]
        s.gw.adv_fault = self.cfg.get("gw") or {}
        base = sim.now
        for op in self.ops:
            sim.at(base + op["t"] * TICK, (lambda op=op: self.do(op)))
        await sim.until(base + (max([o["t"] for o in self.ops] or [0]) + 64 * 30) * TICK)
        sim.net.rates = {}
        await sim.sleep(64 * 30)
        self.judge()

    def do(self, op):
        from pyzwave.commandclass import Battery

        sim, s = self.sim, self.system
        u = (Net.CLIENT_IP, 4123)
        what = op["op"]
        if what in ("report", "stranger"):
            ip = s.peers[op["n"]].ip if what == "report" else op["ip"]
            opts = None if op.get("ext") is None else [(a, bytes.fromhex(b)) for a, b in op["ext"]]
            flags = self.sim.frame_flags
            pkt = zwire.packet(op["seq"], bytes.fromhex(op["data"]), zwire.ACK_REQ if op["ack"] else 0, flags and flags[op["seq"] % len(flags)] or None, op.get("sep", 0), op.get("dep", 0), opts)
            sim.net.to_client("x", (ip, op.get("port", 4123)), u, pkt, "n%d>u" % op.get("n", 0))
        elif what == "gw":
            s.gw.raw(u, zwire.packet(op["seq"], bytes.fromhex(op["data"]), zwire.ACK_REQ if op["ack"] else 0), link="gw>u")
        elif what == "list":
            s.gw.announce(nodes=[i for i in s.gw.ids() if i not in op["gone"]])
        elif what == "stall":
            self.stalls += op["ticks"] * TICK
            sim.stall(op["ticks"])
        elif what == "request":
            node = s.app.nodes.get("%d:%d" % (op["n"], op["ep"]))
            if node is not None:
                start(sim, "req", lambda: node.sendAndReceive(Battery.Get(), Battery.Report))

    def judge(self):
        sim = self.sim
        stable = {node_ip(n): n for n, _ in self.cfg["nodes"] if n not in self.cfg["volatile"]}
        vol = {node_ip(n): n for n in self.cfg["volatile"]}
        eps = dict(self.cfg["nodes"])
        want = collections.defaultdict(list)
        may = collections.defaultdict(list)
        acks, mayack = collections.Counter(), collections.Counter()
        lastconf = {}
        slack = 1.0 + self.stalls
        for t, ip, addr, f in self.rx:
            key = None
            if ip in stable or ip in vol:
                key = "%d:%d" % ({**stable, **vol}[ip], f.sep)
            a = (addr[0], addr[1], f.seq, f.dep, f.sep)
            if f.ack_request:
                (acks if ip in stable or ip == GW_IP else mayack)[a] += 1
            if ip == GW_IP:
                want[("1:0", "app")].append((t, f.payload))
            if key is None:
                continue
            if f.sep > eps[int(key.split(":")[0])]:
                continue
            sim.probe["report"] += 1
            p = f.payload
            cc = p[0]
            dst = want if ip in stable else may
            if cc == 0x70 and p[1] == 0x06:
                number, size = p[2], p[3]
                if ip in stable:
                    lastconf[(key, number)] = (int.from_bytes(p[4:4 + size], "big"), size)
                continue
            if cc == 0x80:
                continue
            if cc == 0x99:
                dst[(key, "node")].append((t, p[:2]))
            elif cc == 0x31 and p[1] == 0x05:
                # with version 5 nothing is known about the supported types, and nothing is passed on
                if len(p) < 6 and ip in stable and self.cfg["versions"] == 0:
                    may[(key, "cc")].append((t, ("sens", 1, None)))
                    may[(key, "node")].append((t, ("sens", 1, None)))
                if (self.cfg["versions"] == 0 or ip in vol) and len(p) == 6:  # (a node that comes back: before its version is set)
                    v = ("sens", 1, round(int.from_bytes(p[4:6], "big", signed=True) / 10.0, 4))
                    dst[(key, "cc")].append((t, v))
                    dst[(key, "node")].append((t, v))
            else:
                if cc in (0x20, 0x25, 0x31, 0x70):
                    dst[(key, "cc")].append((t, p))
                dst[(key, "node")].append((t, p))

        def kinds(items):
            out = collections.defaultdict(list)
            for t, d in items:
                out[d[:2] if isinstance(d, bytes) else d[0]].append((t, d))
            return out

        for where, got in self.heard.items():
            got = [(t, d) for t, d in got if not (isinstance(d, tuple) and (d[0] == "conf" or d[2] is None)) and not (isinstance(d, bytes) and d[0] == 0x80)]
            exact, loose = kinds(want.get(where, [])), kinds(may.get(where, []))
            for k, items in kinds(got).items():
                ref, opt = [d for _, d in exact.get(k, [])], [d for _, d in loose.get(k, [])]
                seq = [d for _, d in items]
                if where[0].split(":")[0] in [str(v) for v in vol.values()]:
                    # possibly not delivered around a change of the node list, but never twice, altered or out of order
                    it = iter(opt)
                    if not all(any(d == e for e in it) for d in seq):
                        sim.fail("wrong-delivery", "%s heard %s of received %s" % (where, [self.show(d) for d in seq], [self.show(d) for d in opt]))
                        return
                elif seq != ref:
                    sim.fail("wrong-delivery", "%s heard %s, but received was %s" % (where, [self.show(d) for d in seq], [self.show(d) for d in ref]))
                    return
        if self.cfg.get("rejoin") and not self.rejoined():
            return
        for where, items in want.items():
            have = collections.Counter(d for _, d in self.heard.get(where, []))
            for t, d in items:
                if have[d] < 1:
                    sim.fail("not-delivered", "%s received at %.4f was not delivered to %s" % (self.show(d), t - START, where))
                    return
            got = kinds(self.heard[where])
            for k, its in kinds(items).items():
                for (t, d), (h, _) in zip(its, got[k]):
                    if h > t + slack:
                        sim.fail("delivered-late", "%s received at %.4f was delivered to %s at %.4f" % (self.show(d), t - START, where, h - START))
                        return
        for (key, number), (value, size) in lastconf.items():
            node = self.system.app.nodes.get(key)
            par = node.supported[0x70].parameters.get(number)
            if par is None or (par.value, par.size) != (value, size):
                sim.fail("wrong-value", "parameter %d of %s is %r after a report of %d (size %d)" % (number, key, par and (par.value, par.size), value, size))
                return
        got = collections.Counter()
        for t, dst, f in self.acks:
            if not f.ack or f.nack or f.has_cmd or f.ack_request:
                sim.fail("bad-ack", f.raw.hex())
                return
            got[(dst[0], dst[1], f.seq, f.sep, f.dep)] += 1
        for a, n in got.items():
            lo, hi = acks[a], acks[a] + mayack[a]
            if n > hi:
                sim.fail("extra-ack", "%d acknowledgements %s for %d reports asking for it" % (n, a, hi))
                return
        for a, n in acks.items():
            if got[a] < n:
                sim.fail("missing-ack", "%d acknowledgements %s for %d reports asking for it" % (got[a], a, n))
                return
        times = collections.defaultdict(list)
        for t, dst, f in self.acks:
            times[(dst[0], dst[1], f.seq, f.sep, f.dep)].append(t)
        for t, ip, addr, f in self.rx:
            a = (addr[0], addr[1], f.seq, f.dep, f.sep)
            if f.ack_request and a in acks and a not in mayack and not any(t <= x <= t + slack for x in times[a]):
                sim.fail("ack-late", "no acknowledgement %s within a second of %.4f" % (a, t - START))
                return
        if self.sim.loop.callback_errors:
            sim.fail("exception", repr(self.sim.loop.callback_errors[0]))

    def rejoined(self):
        """What an announced node reports is delivered: its address has been looked up before."""
        got = collections.defaultdict(collections.Counter)
        for (key, where), items in self.heard.items():
            if where == "node":
                got[key] = collections.Counter(d for _, d in items)
        need = collections.defaultdict(collections.Counter)
        for t, ip, _addr, f in self.rx:
            for node in self.cfg["volatile"]:
                if node_ip(node) != ip:
                    continue
                ta = max([x for x, n in self.joined if n == node and x < t] or [0])
                before = [x for x in self.lists if x[0] <= t]
                if ta and before and before[-1][0] <= ta and node in before[-1][1]:
                    self.sim.probe["rejoined"] += 1
                    need["%d:0" % node][f.payload] += 1
        for key, items in need.items():
            for p, n in items.items():
                if got[key][p] < n:
                    self.sim.fail("not-delivered", "node %s was announced, and then %d reports %s were received from it, but %d were delivered" % (key, n, p.hex(), got[key][p]))
                    return False
        return True

    @staticmethod
    def show(d):
        return d.hex() if isinstance(d, bytes) else repr(d)


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = bool(sim.fault_count) or sim.probe["report"] >= 4
