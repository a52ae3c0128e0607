"""C15: the storage lock defers saves but never loses or leaks one."""
import asyncio
import collections

from .. import zwire
from ..nodemodel import Script, difference, snapshot
from ..sim import START, TICK, Net
from ..world import NodeInfo, System, start

ID = "C15"
RUNS = {"quick": 2500, "thorough": 150000}
RULE = ("One run = concurrent tasks on several nodes and endpoints taking nested, overlapping and out of order storage locks around sleeps, interviews, updates by method call and by datagram, errors, timeouts and cancellations, "
        "on a storage that may fail. At every update and every lock entry and exit the number of saves is compared with a reference counter. Non-trivial: two locks on a node overlapped and a change happened.")
REAL = ["pyzwave.node", "pyzwave.commandclass", "pyzwave.util", "pyzwave.application", "pyzwave.zipgateway", "pyzwave.zipconnection", "codec", "asyncio tasks, timeouts, cancellation"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (recording, may fail)"]
SHRINK = ("faults",)

CLASSES = [0x70, 0x86, 0x72, 0x5E, 0x31, 0x85, 0x59]


def prog(rng, depth):
    out = []
    for _ in range(rng.randint(1, 4)):
        k = rng.weighted([("lock", 4), ("sleep", 4), ("conf", 4), ("raise", 0.5), ("interview", 0.8), ("timeout", 0.8), ("try", 0.8), ("spawn", 0.8), ("fifo", 0.8), ("unused", 0.2), ("cc", 0.6), ("gen", 0.3)])
        if k in ("lock", "timeout", "try", "spawn", "gen") and depth <= 0:
            k = "conf"
        if k == "sleep":
            out.append([k, rng.choice([0, 0, 1, 2, 20, 64, 200])])
        elif k == "conf":
            out.append([k, rng.randint(0, 3), rng.choice([0, 1, 2, 255, rng.randint(0, 255)])])
        elif k in ("lock", "try", "spawn", "gen"):
            out.append([k, prog(rng, depth - 1)])
        elif k == "timeout":
            out.append([k, rng.choice([0, 1, 10, 64]), prog(rng, depth - 1)])
        elif k == "fifo":
            out.append([k, rng.randint(2, 4), rng.choice([0, 1, 10]), rng.randint(0, 3)])
        elif k == "cc":
            out.append([k, rng.randint(0, 9)])
        else:
            out.append([k])
    return out


def gen(rng, index, tier):
    nodes = [[3 + i, rng.choice([0, 0, 1])] for i in range(rng.randint(1, 2))]
    ops = []
    t = 0
    for _ in range(rng.randint(2, 8 if tier == "quick" else 20) if index % 100 != 53 else rng.randint(30, 100)):
        n, eps = rng.choice(nodes)
        op = {"t": t, "n": n, "ep": rng.choice([0, eps])}
        if rng.chance(0.6):
            op.update(k="task", prog=[["lock", prog(rng, 2)]] if rng.chance(0.7) else prog(rng, 3), cancel=rng.choice([None, None, 0, 1, rng.randint(0, 64), rng.randint(0, 400)]))
        else:
            op.update(k="report", p=rng.randint(0, 3), v=rng.choice([0, 1, 2, 255, rng.randint(0, 255)]), sup=int(rng.chance(0.1)))
        ops.append(op)
        t += rng.choice([0, 0, 1, 5, 64, 200])
    faults = rng.choice([{}, {}, {"noack": 0.1, "noreply": 0.2, "slow": 0.3, "slow_max": 250}])
    return {"cfg": {"nodes": nodes, "faults": faults, "fail": rng.choice([0, 0, 0, 0.3, 1]), "other": rng.choice([None, None, "raise", "cancel"])}, "ops": ops}


class Failed(Exception):
    pass


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.saves = collections.Counter()
        self.saved = {}
        self.depth = collections.Counter()
        self.dirty = collections.Counter()
        self.want = collections.Counter()
        self.outs = []
        self.overlaps = collections.Counter()

    def storage(self):
        from pyzwave.persistantstorage import PersistantStorage

        w = self

        class Store(PersistantStorage):
            def nodeUpdated(self, node):
                key = node.nodeId
                w.saves[key] += 1
                w.sim.log("save", key)
                w.saved[key] = snapshot(node)
                w.sim.probe["saves"] += 1
                if w.depth[key]:
                    w.sim.fail("saved-while-locked", "node %s was saved while %d locks were held" % (key, w.depth[key]))
                if w.cfg["fail"] and w.sim.chooser.pick("save:" + key, lambda r: 1 if r.chance(w.cfg["fail"]) else None):
                    w.sim.fault_count["save-failed"] += 1
                    raise OSError(28, "No space left on device")

        return Store()

    def verify(self, key, when):
        if self.saves[key] != self.want[key]:
            kind = "not-saved" if self.saves[key] < self.want[key] else "saved-too-often"
            self.sim.fail(kind, "node %s was saved %d times, expected %d, %s at %.4f" % (key, self.saves[key], self.want[key], when, self.sim.now - START))
            self.want[key] = self.saves[key]

    def updated(self, key):
        if self.depth[key]:
            self.dirty[key] = 1
            self.sim.probe["deferred"] += 1
        else:
            self.want[key] += 1
        self.verify(key, "after a change %s" % ("under %d locks" % self.depth[key] if self.depth[key] else "without a lock"))

    def enter(self, node):
        key = node.nodeId
        cm = node.storageLock()
        cm.__enter__()
        self.depth[key] += 1
        if self.depth[key] > 1:
            self.overlaps[key] += 1
        self.verify(key, "after taking a lock")
        return cm

    def leave(self, node, cm, exc):
        """Release a lock the way the with statement does."""
        key = node.nodeId
        self.depth[key] -= 1
        if not self.depth[key]:
            self.want[key] += self.dirty[key]
            self.dirty[key] = 0
        swallowed = None
        try:
            if exc is None:
                swallowed = cm.__exit__(None, None, None)
            else:
                swallowed = cm.__exit__(type(exc), exc, exc.__traceback__)
        except BaseException as e:  # pylint: disable=broad-except
            if e is not exc:
                self.sim.fail("lock-raised", "releasing the lock of node %s raised %r" % (key, e))
        if swallowed:
            self.sim.fail("error-lost", "the lock of node %s swallowed %r" % (key, exc))
        self.verify(key, "after releasing a lock (%d left, left by %s)" % (self.depth[key], type(exc).__name__))
        if not self.depth[key] and key in self.saved and not self.sim.violations:
            live = snapshot(node)
            if self.want[key] and live != self.saved[key] and self.settled_now(key):
                self.sim.fail("stale-save", "node %s: %s" % (key, difference(self.saved[key], live)))

    def settled_now(self, key):
        """No interview may be half way through."""
        return not any(not o.done for o, k in self.outs if k == key)

    async def run_prog(self, node, steps):
        sim = self.sim
        for st in steps:
            k = st[0]
            if k == "sleep":
                await sim.sleep(st[1])
            elif k == "conf":
                await self.conf(node, st[1], st[2])
            elif k == "raise":
                sim.fault_count["locked-code-failed"] += 1
                raise Failed()
            elif k == "interview":
                await node.interview()
            elif k == "cc":
                ids = sorted(node.supported)
                await node.supported[ids[st[1] % len(ids)]].interview()
            elif k == "try":
                try:
                    await self.run_prog(node, st[1])
                except Exception:  # pylint: disable=broad-except
                    pass
            elif k == "timeout":
                try:
                    await asyncio.wait_for(self.run_prog(node, st[2]), st[1] * TICK)
                except asyncio.TimeoutError:
                    sim.fault_count["locked-code-timeout"] += 1
            elif k == "spawn":
                self.start(node, st[1])
            elif k == "unused":
                node.storageLock()  # never entered
            elif k == "fifo":
                cms = []
                for _ in range(st[1]):
                    cms.append(self.enter(node))
                    try:
                        await sim.sleep(st[2])
                    except asyncio.CancelledError as e:
                        for cm in cms:
                            self.leave(node, cm, e)
                        raise
                if st[3]:
                    await self.conf(node, 2, st[3])
                for cm in cms:
                    self.leave(node, cm, None)
            elif k == "lock":
                cm = self.enter(node)
                try:
                    await self.run_prog(node, st[1])
                except BaseException as e:
                    self.leave(node, cm, e)
                    raise
                self.leave(node, cm, None)
            elif k == "gen":
                # a lock held by a generator that is closed instead of exhausted
                def locked():
                    cm = self.enter(node)
                    exc = None
                    try:
                        yield
                    except GeneratorExit as e:
                        exc = e
                        raise
                    finally:
                        self.leave(node, cm, exc)

                g = locked()
                next(g)
                try:
                    await self.run_prog(node, st[1])
                finally:
                    g.close()

    async def conf(self, node, p, v):
        from pyzwave.commandclass import Configuration

        await node.handleMessage(Configuration.Report(parameterNumber=p, size=1, value=v), None)

    def start(self, node, steps):
        out, task = start(self.sim, "task", lambda: self.run_prog(node, steps))
        self.outs.append((out, node.nodeId))
        return out, task

    async def scenario(self, sim):
        infos = [NodeInfo(n, CLASSES + ([0x60] if e else []), endpoints=[(0x10, 1, CLASSES)] * e) for n, e in self.cfg["nodes"]]
        self.sys = s = System(sim, infos, storage=self.storage())
        for n, peer in s.peers.items():
            peer.responder = Script(n)
        await s.up()
        w = self
        for key, node in s.app.nodes.items():
            for cc in node.supported.values():

                class Watch:
                    @staticmethod
                    def commandClassUpdated(_cc, key=key):
                        w.updated(key)

                cc.addListener(Watch())
            if self.cfg["other"]:

                class Bad:
                    @staticmethod
                    def nodeUpdated(_node):
                        sim.fault_count["listener-failed"] += 1
                        if w.cfg["other"] == "raise":
                            raise ValueError("listener failed")
                        raise asyncio.CancelledError()

                node.addListener(Bad())
        for p in s.peers.values():
            p.faults = self.cfg["faults"]
        base = sim.now
        for op in self.ops:
            sim.at(base + op["t"] * TICK, (lambda op=op: self.do(op)))
        await sim.until(base + max([o["t"] for o in self.ops] or [0]) * TICK)
        while any(not o.done for o, _ in self.outs):
            await sim.sleep(64)
        await sim.sleep(64 * 20)
        for out, key in self.outs:
            if out.exc is not None and not isinstance(out.exc, (Failed, asyncio.CancelledError)):
                sim.fail("exception", out.describe())
        for key, node in s.app.nodes.items():
            self.verify(key, "at the end")
            if key in self.saved and snapshot(node) != self.saved[key]:
                sim.fail("stale-save", "node %s: %s" % (key, difference(self.saved[key], snapshot(node))))
        # locks must not leak: afterwards a change is saved at once, and one lock works
        for key, node in s.app.nodes.items():
            before = self.saves[key]
            await self.conf(node, 200, 1)
            if self.saves[key] != before + 1:
                sim.fail("lock-leaked", "node %s is not saved any more although no lock is held" % key)
        if sim.loop.callback_errors:
            sim.fail("exception", repr(sim.loop.callback_errors[0]))

    def do(self, op):
        sim, s = self.sim, self.sys
        key = "%d:%d" % (op["n"], op["ep"])
        node = s.app.nodes.get(key)
        if node is None:
            sim.fail("setup-failed", "node %s is unknown" % key)
            return
        if op["k"] == "report":
            data = bytes([0x70, 0x06, op["p"], 1, op["v"]])
            if op["sup"]:
                data = bytes([0x6C, 0x01, 3, len(data)]) + data
            s.peers[op["n"]].cmd((Net.CLIENT_IP, 4123), data, sep=op["ep"], link="x>u")
            return
        out, task = self.start(node, op["prog"])
        if op["cancel"] is not None:
            def cancel():
                if not out.done:
                    sim.fault_count["cancelled"] += 1
                    task.cancel()

            sim.after(op["cancel"], cancel)


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = sim.probe["deferred"] > 0 and sum(world.overlaps.values()) > 0
