"""C07: the node set follows the gateway's list; changes are announced once."""
import collections

from ..sim import START, TICK
from ..world import NodeInfo, System, start

ID = "C07"
RUNS = {"quick": 2000, "thorough": 150000}
RULE = ("One run = one seeded history of node list announcements (adds, removes, re-adds, repeats) during connection, start-up and afterwards, with slow, lost, duplicated and reordered answers, "
        "slow and failing listeners, list announcements that overlap earlier ones still being processed, and a final announcement. Non-trivial: at least two announcements, or a fault fired.")
REAL = ["pyzwave.zipgateway", "pyzwave.application", "pyzwave.node", "pyzwave.zipconnection", "pyzwave.adapter", "pyzwave.connection", "pyzwave.util", "codec", "asyncio tasks, locks, timeouts"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
MAX_STEPS = 1000000
SHRINK = ("rates", "faults", "listener")

POOL = [2, 3, 8, 9, 16, 17, 128, 224, 225, 232]


def gen(rng, index, tier):
    big = index % 100 == 53
    full = index % 1000 == 553  # nearly every possible node
    pool = rng.sample(POOL, rng.randint(2, 5)) if not big else rng.sample(range(2, 232), rng.randint(20, 60) if not full else 230)
    controller = rng.choice([1, 1, 1, 5, 232 if 232 not in pool else 1])
    mode = rng.choice(["A", "B"])
    cur = set(n for n in pool if rng.chance(0.5 if not full else 0.95))
    first = sorted(cur)
    ops = []
    t = rng.choice([0, 0, 4, 64 * 8])
    late = rng.chance(0.3)
    ops.append({"t": rng.choice([0, 1, 30, 300]), "op": "startup"})
    for i in range(rng.randint(1, 8 if tier == "quick" else 20) if not big else rng.randint(5, 15)):
        r = rng.random()
        if r < 0.75:
            for n in rng.sample(pool, rng.randint(0, 2)):
                cur ^= {n}
            ops.append({"t": t, "op": "list", "nodes": sorted(cur)})
        elif r < 0.85:
            ops.append({"t": t, "op": "list", "nodes": sorted(n for n in pool if rng.chance(0.5 if not full else 0.95))})
            cur = set(ops[-1]["nodes"])
        elif r < 0.93:
            ops.append({"t": t, "op": "traffic", "n": rng.choice(pool)})
        else:
            ops.append({"t": t, "op": "stall", "ticks": rng.choice([10, 200])})
        t += rng.choice([0, 1, 2, 3, 4, rng.randint(0, 20), rng.randint(0, 20), rng.randint(0, 250), rng.randint(0, 2000), rng.randint(0, 64 * 60) if late else 5])
    for n in rng.sample(pool, rng.randint(0, 2)):
        cur ^= {n}
    ops.append({"t": t if mode == "B" else t + 64, "op": "list" if mode == "B" else "final", "nodes": sorted(cur)})
    faults = {}
    rates = {}
    if rng.chance(0.8):
        faults = {"noack": rng.choice([0, 0.15, 0.4]), "noreply": rng.choice([0, 0.15, 0.4]), "slow": rng.choice([0, 0.3]), "slow_max": rng.choice([20, 150, 260]), "dup": rng.choice([0, 0.2]),
                  "adv_drop": rng.choice([0, 0.2, 0.6]), "adv_slow": rng.choice([0, 0.4]), "adv_slow_max": rng.choice([30, 250]), "adv_dup": rng.choice([0, 0.2])}
    if rng.chance(0.4):
        rates = {"drop": rng.choice([0, 0.1]), "dup": rng.choice([0, 0.15]), "dup_max": 60, "delay": rng.choice([0, 0.4]), "delay_max": rng.choice([5, 60, 300])}
    listener = rng.choice([None, None, "slow", "araise", "raise", "veryslow"])
    if big and listener:
        listener = "raise"
    return {"cfg": {"pool": pool, "first": first, "controller": controller, "mode": mode, "faults": faults, "rates": rates, "listener": listener,
                    "eps": {str(n): rng.choice([0, 0, 1, 2]) for n in pool}}, "ops": ops}


class Bad:
    def __init__(self, world, how):
        self.world, self.how = world, how

    async def _a(self, *_args):
        self.world.sim.fault_count["listener-" + self.how] += 1
        if self.how == "araise":
            raise ValueError("listener failed")
        await self.world.sim.sleep(64 * 20 if self.how == "slow" else 64 * 90)

    def _s(self, *_args):
        self.world.sim.fault_count["listener-" + self.how] += 1
        raise ValueError("listener failed")

    def __getattr__(self, name):
        if name in ("nodeAdded", "nodeRemoved", "nodesAdded", "nodesRemoved"):
            return self._s if self.how == "raise" else self._a
        raise AttributeError(name)


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.single = collections.defaultdict(list)
        self.batch = collections.defaultdict(list)
        self.started = None
        self.last = {}

    def nodeAdded(self, _app, node):
        self.single[node.nodeId].append(("added", self.sim.now))
        self.last[node.nodeId] = node

    def nodeRemoved(self, _app, nodeId):
        self.single[nodeId].append(("removed", self.sim.now))

    def nodesAdded(self, _app, nodes):
        for n in nodes:
            self.batch[n.nodeId].append(("added", self.sim.now))

    def nodesRemoved(self, _app, nodes):
        for n in nodes:
            self.batch[n].append(("removed", self.sim.now))

    def apply(self, nodes):
        gw = self.system.gw
        gw.nodes = {n: self.infos[n] for n in nodes}
        gw.announce()

    async def scenario(self, sim):
        cfg = self.cfg
        self.infos = {n: NodeInfo(n, [0x20, 0x25] + ([0x60] if cfg["eps"][str(n)] else []), endpoints=[(0x10, 1, [0x25])] * cfg["eps"][str(n)]) for n in cfg["pool"]}
        self.system = s = System(sim, list(self.infos.values()), dict(cfg["faults"]))
        s.gw.controller = cfg["controller"]
        s.gw.nodes = {n: self.infos[n] for n in cfg["first"]}
        s.make()
        s.app.addListener(self)
        if cfg["listener"]:
            s.app.addListener(Bad(self, cfg["listener"]))
        if cfg["mode"] == "B":
            # so that the last announcement is the last list the gateway ever sends
            faults, s.gw.faults, s.gw.adv_fault = s.gw.faults, {}, {}
            await s.adapter.connect()
            s.gw.faults = s.gw.adv_fault = faults
            sim.net.exempt = ("gw>u",)
            sim.net.rates = cfg["rates"]
        else:
            sim.net.rates = cfg["rates"]
            start(sim, "connect", s.adapter.connect)
            await sim.sleep(64 * 2)
        base = sim.now
        final = next((o["nodes"] for o in self.ops if o["op"] == "final"), None)
        for op in self.ops:
            if op["op"] == "list":
                sim.at(base + op["t"] * TICK, (lambda op=op: self.apply(op["nodes"])))
            elif op["op"] == "stall":
                sim.at(base + op["t"] * TICK, (lambda op=op: sim.stall(op["ticks"])))
            elif op["op"] == "traffic":
                sim.at(base + op["t"] * TICK, (lambda op=op: s.peers[op["n"]].report(b"\x25\x03\x01")))
            elif op["op"] == "startup":
                sim.at(base + op["t"] * TICK, self.startup)
        end = base + (max([o["t"] for o in self.ops] or [0]) + 1) * TICK
        lists = [o["nodes"] for o in sorted((o for o in self.ops if o["op"] == "list"), key=lambda o: o["t"])]
        await sim.until(end)
        work = 64 * 100 + 64 * 3 * sum(12 + 4 * len(cfg["pool"]) for _ in range(len(lists) + 2))
        slow = {"slow": 20, "veryslow": 90}.get(cfg["listener"], 0) * 64 * (len(lists) + 2) * (2 + 8 * len(cfg["pool"]))
        await sim.sleep(work + slow)
        if self.started is None:
            return
        if cfg["mode"] == "A":
            sim.net.rates = {}
            s.gw.faults = s.gw.adv_fault = {}
            await sim.sleep(64 * 10)
            if final is None:
                return
            self.apply(final)
            await sim.sleep(work + slow)
        elif lists:
            final = lists[-1]
        else:
            final = cfg["first"]
        if not self.started[0].done:
            sim.fail("startup-stuck", self.started[0].describe())
            return
        if self.started[0].exc is not None:
            sim.fail("startup-failed", self.started[0].describe())
            return
        self.judge(set(final))

    def startup(self):
        self.started = start(self.sim, "startup", self.system.app.startup)

    def judge(self, final):
        sim, app = self.sim, self.system.app
        want = final - {self.system.gw.controller}
        have = {n.rootNodeId for n in app.nodes.values()}
        roots = {n.rootNodeId for n in app.nodes.values() if n.endpoint == 0}
        if have != want or roots != want:
            sim.fail("wrong-nodes", "the gateway lists %s (controller %d), the application has %s" % (sorted(final), self.system.gw.controller, sorted(app.nodes)))
            return
        for key, node in app.nodes.items():
            if self.last.get(key) is not None and self.last[key] is not node:
                sim.fail("other-object", "the object announced for %s is not the one in use" % key)
                return
        for what, log in (("nodeAdded/nodeRemoved", self.single), ("nodesAdded/nodesRemoved", self.batch)):
            for key in set(log) | set(app.nodes):
                seq = [e for e, _ in log.get(key, [])]
                sim.probe["announcement"] += len(seq)
                expect = ["added", "removed"] * (len(seq) // 2 + 1)
                if seq != expect[:len(seq)]:
                    sim.fail("announced-wrongly", "%s for %s: %s" % (what, key, [(e, round(t - START, 3)) for e, t in log[key]]))
                    return
                if (bool(seq) and seq[-1] == "added") != (key in app.nodes):
                    sim.fail("announced-wrongly", "last %s for %s was %s, but it %s in the network" % (what, key, seq[-1:] or "never made", "is" if key in app.nodes else "is not"))
                    return


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.probe["announced-lists"] += sum(1 for o in plan["ops"] if o["op"] == "list")
    sim.nontrivial = bool(sim.fault_count) or sum(1 for o in plan["ops"] if o["op"] == "list") > 1
