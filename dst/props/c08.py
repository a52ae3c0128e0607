"""C08: network management commands keep working indefinitely."""
from .. import zwire
from ..nmmodel import NAMES, QUERIES, frame, invoke, matches, params, show
from ..sim import START
from ..world import GW_IP, Gateway, NodeInfo, call, start

ID = "C08"
RUNS = {"quick": 450, "thorough": 40000}
RULE = ("One run = one long seeded history (50 to 700 operations) of all network management operations on one gateway object, some overlapping, each answered, not acknowledged, not answered or answered late; "
        "every frame is compared with the frame layout and every result with what the gateway answered. Non-trivial: more than 50 operations.")
REAL = ["pyzwave.zipgateway", "pyzwave.zipconnection", "pyzwave.adapter", "pyzwave.connection", "pyzwave.util", "codec", "asyncio tasks, timeouts"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway"]
CHUNK = 4
MAX_STEPS = 400000


def gen(rng, index, tier):
    nodes = [2 + i for i in range(6)] + [200, 232]
    n = rng.choice([50, 270, 300, 300, 560, 700]) + rng.randint(0, 20)
    p = rng.choice([0, 0.05, 0.2])
    ops = []
    some = rng.sample(NAMES, rng.randint(3, len(NAMES)))
    for i in range(n):
        op = params(rng, rng.choice(some), nodes)
        if rng.chance(p):
            op["fault"] = rng.choice(["noack", "noreply", "lost", "late"])
        op["gap"] = rng.choice([0, 0, 0, 1, 30, rng.randint(0, 400)])
        op["v"] = rng.randint(0, 255)
        if rng.chance(0.1):
            op["bg"] = 1
        op["t"] = i
        ops.append(op)
    return {"cfg": {"nodes": nodes, "nolist": rng.chance(0.5)}, "ops": ops}


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.frames = []
        self.pending = []  # ops whose frame has not been seen yet
        self.count = 0
        self.listknown = False

    def answer(self, op, seq):
        """What the gateway says, and the result that means."""
        v, k = op["v"], op["op"]
        if k == "list":
            ids = sorted(set(self.cfg["nodes"]) | {1})
            return zwire.node_list_report(seq, ids, 1), set(ids)
        if k == "info":
            cl = [0x20, 0x25, 0x60 + (v & 0x1F)]
            return zwire.node_info_report(seq, v & 1, v & 7, v, 255 - v, cl), (bool(v & 1), v & 7, v, 255 - v, cl)
        if k == "eps":
            return zwire.endpoint_report(seq, op["n"], v & 31, (v >> 5)), (v & 31) + (v >> 5)
        if k == "cap":
            cl = [0x25] * (v & 7) + [v]
            return zwire.capability_report(seq, op["n"], op["ep"], v, 7, cl), (op["n"], op["ep"], v, 7, cl)
        if k == "failed":
            ids = [x for i, x in enumerate(self.cfg["nodes"]) if v >> i & 1]
            return zwire.failed_list_report(seq, ids), set(ids)
        if k == "removefailed":
            return bytes([0x34, 0x08, seq, v % 3, op["n"]]), v % 3
        return None, True

    def unanswered(self, k):
        return {"list": set(), "info": (False, 0, 0, 0, []), "eps": 0, "cap": (None, None, 0, 0, []), "failed": set(), "removefailed": 2}.get(k, False)

    @staticmethod
    def value(op, res):
        """Comparable form of a result."""
        k = op["op"]
        if k == "info":
            return (bool(res.listening), int(res.basicDeviceClass or 0), int(res.genericDeviceClass or 0), int(res.specificDeviceClass or 0), list(res.commandClass or ()))
        if k == "cap":
            return (None if res.nodeID is None else int(res.nodeID), None if res.endPoint is None else int(res.endPoint), int(res.genericDeviceClass or 0), int(res.specificDeviceClass or 0), list(res.commandClass or ()))
        if k in ("list", "failed"):
            return set(res)
        if k in ("eps", "removefailed"):
            return int(res)
        return res

    def on_frame(self, f, src):
        p = f.payload
        sim, gw = self.sim, self.gw
        if p[:1] not in (b"\x52", b"\x34") or not self.active:
            Gateway.on_frame(gw, f, src)
            return
        self.frames.append(p)
        op = next((o for o in self.pending if matches(o, p)), None)
        if op is None:
            sim.fail("malformed-frame", "transmitted %s, expected %s" % (p.hex(), " or ".join("%s %s" % (show(o), frame(o, p[2] if len(p) > 2 else 0).hex()) for o in self.pending)))
            gw.answer(f, src, [], {})
            return
        self.pending.remove(op)
        op["seen"] = 1
        reply, _ = self.answer(op, p[2])
        fault = op.get("fault")
        if fault:
            sim.fault_count["nm-" + fault] += 1
        if fault not in ("noack", "lost"):
            gw.raw(src, zwire.ack(f.seq), 1)
        if reply is not None and fault not in ("noreply", "lost"):
            gw.cmd(src, reply, 64 * 7 + 700 if fault == "late" else 2)

    async def one(self, op):
        sim = self.sim
        k = op["op"]
        op = dict(op)
        cached = k == "list" and self.listknown
        if not cached:
            self.pending.append(op)
        out = await call(sim, show(op), invoke(self.adapter, op))
        self.count += 1
        sim.probe["op-" + k] += 1
        if out.exc is not None:
            sim.fail("exception", "operation %d %s" % (self.count, out.describe()))
            return
        if not cached and "seen" not in op:
            sim.fail("not-sent", "operation %d %s, but transmitted nothing" % (self.count, out.describe()))
            return
        fault = op.get("fault")
        good = self.answer(op, 0)[1]
        if k in QUERIES:
            ok = fault in (None, "noack") or cached
        else:
            ok = fault not in ("noack", "lost")
        want = good if ok else self.unanswered(k)
        if k == "list" and ok:
            self.listknown = True
        got = self.value(op, out.value)
        if got != want:
            sim.fail("wrong-result", "operation %d (%s, fault %s) returned %r, expected %r" % (self.count, show(op), fault, got, want))

    async def scenario(self, sim):
        from pyzwave.zipgateway import ZIPGateway

        self.active = False
        self.gw = gw = Gateway(sim, [NodeInfo(n) for n in self.cfg["nodes"]])
        gw.on_frame = self.on_frame
        self.adapter = ZIPGateway(GW_IP, b"psk")
        if self.cfg["nolist"]:
            gw.extra = lambda f, _s: [] if f.payload[:2] == b"\x52\x01" else None
        await self.adapter.connect()
        gw.extra = None
        self.listknown = not self.cfg["nolist"]
        self.active = True
        background = []
        busy = set()
        for op in self.ops:
            if sim.violations:
                return
            while op["op"] in busy:
                # overlapping queries of one kind are another property's business
                await sim.sleep(16)
            if op.get("bg") and op["op"] != "list":
                busy.add(op["op"])

                async def go(op=op):
                    try:
                        await self.one(op)
                    finally:
                        busy.discard(op["op"])

                background.append(start(sim, "bg", go))
            else:
                await self.one(op)
            if op["gap"]:
                await sim.sleep(op["gap"])
        await sim.sleep(64 * 40)
        for out, _ in background:
            if not out.done:
                sim.fail("never-ended", out.describe())
                return
        for i in range(1, len(self.frames)):
            if self.frames[i][2] == self.frames[i - 1][2]:
                sim.fail("same-number", "commands %d and %d carry the same number: %s, %s" % (i, i + 1, self.frames[i - 1].hex(), self.frames[i].hex()))
                return


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.probe["wraps"] += len(world.frames) // 256
    sim.nontrivial = len(world.frames) > 50
