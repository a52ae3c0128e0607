"""C09: a connection never stays silent for more than 25 seconds."""
import collections

from .. import zwire
from ..sim import START, TICK
from ..world import NodeInfo, NodePeer, System, start

ID = "C09"
RUNS = {"quick": 1800, "thorough": 100000}
RULE = ("One run = one seeded history of one to four connections (alone, or gateway and node connections of a whole system) over minutes to hours: sends and requests placed around the 25 second marks, "
        "acknowledged, lost, late, failing to compose or cancelled, incoming frames of every kind, socket errors, stalls and failed connection attempts. Non-trivial: at least three keep-alives were due, or a fault fired.")
REAL = ["pyzwave.zipconnection", "pyzwave.adapter", "pyzwave.connection", "pyzwave.zipgateway and application in half of the runs", "codec", "asyncio timers"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
SHRINK = ("rates", "faults", "tail")

KEEP = 25.0
EPS = 1e-6
MARK = 1600


def gen(rng, index, tier):
    mode = rng.choice(["conn", "system"])
    n = rng.randint(1, 3)
    ops = []
    t = 0
    for i in range(rng.randint(1, 25 if tier == "quick" else 80) if index % 100 != 53 else rng.randint(100, 300)):
        r = rng.random()
        c = rng.randint(0, n - 1)
        if r < 0.5:
            op = {"op": "send", "c": c, "bad": 1 if rng.chance(0.12) else 0, "req": 1 if rng.chance(0.2) else 0, "timeout": rng.choice([1, 3, 3, 30, 60])}
            if rng.chance(0.25):
                op["ep"] = [rng.choice([0, 1]), rng.choice([1, 2, 127])]
            if rng.chance(0.2):
                op["cancel"] = rng.choice([0, 1, 3, 64, MARK - 1, MARK, rng.randint(0, 4000)])
        elif r < 0.8:
            op = {"op": "rx", "c": c, "what": rng.choice(["stray", "ack", "kack", "kreq", "nack", "wait", "garbage", "empty", "ackreq"])}
        elif r < 0.85:
            op = {"op": "sockerr", "c": c}
        elif r < 0.92:
            op = {"op": "stall", "ticks": rng.choice([1, 64, MARK, rng.randint(0, 6000)])}
        elif r < 0.96:
            op = {"op": "connect", "c": c}
        else:
            op = {"op": "lookup", "c": c}
        op["t"] = t
        ops.append(op)
        t += rng.choice([0, 0, 1, rng.randint(0, 64), MARK, MARK, MARK - 1, MARK + 1, MARK - 2, 2 * MARK, rng.randint(0, 2 * MARK), rng.randint(0, 2 * MARK), rng.randint(0, 8 * MARK)])
    rates = {}
    if rng.chance(0.5):
        rates = {"drop": rng.choice([0, 0.2, 0.6]), "dup": rng.choice([0, 0.2]), "dup_max": 200, "delay": rng.choice([0, 0.4]), "delay_max": rng.choice([5, 500])}
    faults = {"noack": rng.choice([0, 0.3]), "slowack": rng.choice([0, 0.3]), "slowack_max": 400, "noreply": 0.2, "slow": 0.2, "slow_max": 300}
    return {"cfg": {"mode": mode, "n": n, "rates": rates, "faults": faults, "endpoint": rng.choice([0, 0, 0.3]), "silent": rng.choice([0, 0, 1]), "lazy": rng.randint(0, 1),
                    "tail": rng.choice([1, 60, 60, 600, 3600, 3 * 3600])}, "ops": ops}


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.tx = collections.defaultdict(list)  # sid -> [(t, kind)]
        self.opened = {}
        self.failed = set()
        self.stalls = []
        self.conns = {}

    def on_tx(self, now, sock, dst, data):
        if sock.remote is None:
            return
        if zwire.is_keepalive(data):
            kind = "keepalive"
        elif zwire.solicitation(data) is not None:
            return
        elif zwire.parse(data) is not None:
            kind = "command"
        else:
            self.sim.fail("garbage-sent", data.hex())
            return
        self.tx[sock.sid].append((now, kind))

    async def scenario(self, sim):
        from pyzwave.zipconnection import ZIPConnection

        cfg = self.cfg
        sim.net.on_send.append(self.on_tx)
        if cfg["mode"] == "conn":
            self.peers = [NodePeer(sim, NodeInfo(10 + i)) for i in range(cfg["n"])]
            self.make = lambda i: ZIPConnection(self.peers[i].ip, b"psk")
            for i in range(cfg["n"]):
                if not cfg["lazy"] or i == 0:
                    await self.connect(i)
        else:
            infos = [NodeInfo(10 + i, [0x20, 0x25]) for i in range(cfg["n"])]
            self.system = s = System(sim, infos)
            await s.up(preconnect=not cfg["lazy"])
            self.peers = [s.peers[n.id] for n in infos]
            self.allpeers = self.peers + [s.gw]
        for p in self.peers:
            p.faults = cfg["faults"]
            p.responder = lambda f, _s: [b"\x20\x03\x05"] if f.payload == b"\x20\x02" else []
            p.keepalive_ack = not cfg["silent"]
        sim.net.rates = cfg["rates"]
        sim.endpoint_faults = cfg["endpoint"]
        base = sim.now
        for op in self.ops:
            sim.at(base + op["t"] * TICK, (lambda op=op: self.do(op)))
        await sim.until(base + (max([o["t"] for o in self.ops] or [0]) + 1) * TICK)
        await sim.sleep(64 * cfg["tail"])
        # what was due at this very instant may still be about to happen
        self.end = sim.now
        await sim.sleep(1)
        self.judge()

    async def connect(self, i):
        if i in self.conns:
            return
        c = self.make(i)
        self.conns[i] = c
        try:
            await c.connect()
        except OSError:
            del self.conns[i]
            self.sim.probe["connect-failed"] += 1

    def target(self, i):
        """Something with send and sendAndReceive towards peer i."""
        if self.cfg["mode"] == "conn":
            return self.conns.get(i)
        return self.system.app.nodes.get("%d:0" % (10 + i))

    def do(self, op):
        from pyzwave.commandclass import Basic

        sim = self.sim
        what = op["op"]
        if what == "stall":
            a = sim.now
            sim.stall(op["ticks"])
            self.stalls.append((a, sim.now))
            return
        c = op["c"]
        peer = self.peers[c]
        if what == "connect":
            if self.cfg["mode"] == "conn":
                start(sim, "connect", lambda: self.connect(c))
            else:
                start(sim, "connect", lambda: self.system.adapter.connectToNode(10 + c))
            return
        if what == "lookup":
            if self.cfg["mode"] == "system":
                start(sim, "lookup", lambda: self.system.adapter.ipOfNode(10 + c))
            return
        if what == "send":
            t = self.target(c)
            if t is None:
                return
            if op["bad"]:
                fn = lambda: t.send(Basic.Set())
            elif "ep" in op:  # to an end point
                kw = {"sourceEP": op["ep"][0], "destEP": op["ep"][1], "timeout": op["timeout"]}
                if self.cfg["mode"] == "conn":
                    fn = lambda: t.send(Basic.Set(value=1), **kw)
                else:
                    fn = lambda: self.system.adapter.sendToNode(10 + c, Basic.Set(value=1), **kw)
            elif op["req"]:
                fn = lambda: t.sendAndReceive(Basic.Get(), Basic.Report)
            else:
                fn = lambda: t.send(Basic.Set(value=1), timeout=op["timeout"])
            out, task = start(sim, "send", fn)
            if "cancel" in op:
                sim.after(op["cancel"], lambda: None if out.done else (sim.fault_count.update(["cancelled-send"]), task.cancel()))
            return
        socks = [s for s in sim.net.sockets if s.remote == peer.addr]
        for s in socks:
            if what == "sockerr":
                sim.fault_count["socket-error"] += 1
                sim.net.sock_error(s)
                continue
            seq = op["t"] & 0xFF
            data = {"stray": zwire.packet(seq, b"\x25\x03\x01"), "ack": zwire.ack(seq), "kack": zwire.KEEPALIVE_ACK, "kreq": zwire.KEEPALIVE, "nack": zwire.nack(seq),
                    "wait": zwire.waiting(seq, 100), "garbage": b"\x23\x02\x80", "empty": b"", "ackreq": zwire.packet(seq, b"\x25\x03\x01", zwire.ACK_REQ)}[op["what"]]
            peer.raw(s.local, data)

    def judge(self):
        sim = self.sim
        for opened, sock in sim.net.opened:
            if sock.remote is None:
                continue
            if sock.closing:
                if self.tx[sock.sid]:
                    sim.fail("closed", "the connection to %s was closed by itself" % sock.remote[0])
                    return
                continue  # never came into use: an attempt to connect that was given up
            last = opened
            for t, kind in self.tx[sock.sid]:
                due = last + KEEP
                latest = due
                for a, b in self.stalls:
                    if a - EPS <= latest <= b + EPS:
                        latest = max(latest, b)
                if kind == "keepalive":
                    sim.probe["keepalive"] += 1
                    if t < due - EPS:
                        sim.fail("too-early", "keep-alive at %.4f, but something was sent at %.4f" % (t - START, last - START))
                        return
                if t > latest + EPS:
                    sim.fail("silent", "nothing sent between %.4f and %.4f" % (last - START, t - START))
                    return
                last = t
            latest = last + KEEP
            for a, b in self.stalls:
                if a - EPS <= latest <= b + EPS:
                    latest = max(latest, b)
            if self.end > latest + EPS:
                sim.fail("silent", "nothing sent since %.4f until the end at %.4f" % (last - START, self.end - START))
                return


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = bool(sim.fault_count) or sim.probe["keepalive"] >= 3
