"""C18: a failing listener does not affect the others or the system."""
import asyncio
import collections

from .. import zwire
from ..sim import START, TICK, Net
from ..world import GW_IP, Gateway, NodeInfo, NodePeer, start

ID = "C18"
RUNS = {"quick": 3500, "thorough": 100000}
RULE = ("One run = one system with up to eight listeners on the adapter, the application, its nodes, their command classes and the storage - plain or coroutine, correct, raising, slow, raising after a while, cancelled - through start-up, "
        "node list changes, reports, configuration updates, inclusion status and requests. Every call of every listener is compared with the events that happened. Non-trivial: a listener failed.")
REAL = ["pyzwave.util (Listenable)", "pyzwave.application", "pyzwave.node", "pyzwave.commandclass", "pyzwave.adapter", "pyzwave.zipgateway", "codec", "asyncio tasks"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (recording stub, may fail)"]
SHRINK = ("rates",)

CLASSES = [0x20, 0x25, 0x70, 0x80]
HOW = ("ok", "ok", "raise", "raise", "cancel", "stop", "stall", "aok", "aok", "araise", "acancel", "aself", "aslow", "aslowraise", "ayield", "missing", "mixed", "amixed", "true", "atrue")
EVENTS = {
    "adapter": ("onMessageReceived", "messageReceived", "nodeListUpdated"),
    "app": ("nodeAdded", "nodesAdded", "nodeRemoved", "nodesRemoved", "messageReceived", "addNodeStatus", "removeNodeStatus"),
    "node": ("onMessage", "nodeUpdated"),
    "cc": ("onSet", "onReport", "commandClassUpdated"),
}
SETTLE = 64 * 120


def gen(rng, index, tier):
    nodes = [[3 + i, rng.choice([0, 0, 1])] for i in range(rng.randint(1, 3))]
    phases = []
    for i in range(rng.randint(1, 3 if tier == "quick" else 6) if index % 100 != 53 else rng.randint(3, 8)):
        ops = []
        t = 0
        for j in range(rng.randint(0, 10) if index % 100 != 53 else rng.randint(10, 60)):
            node, eps = rng.choice(nodes)
            kind = rng.choice(["set", "bin", "ind", "conf", "conf", "gw", "status", "remstatus", "req", "unkgw"])
            ops.append({"t": t, "k": kind, "n": node, "ep": rng.choice([0, eps]), "v": rng.randint(0, 255), "via": rng.choice(["u", "c"])})
            t += rng.choice([0, 0, 0, 1, 1, 5, 64, 200])
        gone = [n for n, _ in nodes if rng.chance(0.4)] if i and rng.chance(0.7) else None
        phases.append({"gone": gone, "ops": ops})
    lst = []
    for scope in EVENTS:
        for _ in range(rng.randint(0, 4)):
            lst.append({"scope": scope, "how": rng.choice(HOW), "d": rng.choice([1, 64, 130])})
        lst.append({"scope": scope, "how": "ok"})
        lst.append({"scope": scope, "how": "aok"})
    for l in lst:
        if l["how"] == "stall":
            l["d"] = 1 + l["d"] % 5  # must not make requests time out
    if rng.chance(0.04):
        for l in rng.sample(lst, rng.choice([1, 1, 2])):  # some take very long
            l.update(how=rng.choice(["aslow", "aslowraise"]), d=64 * rng.choice([12, 45, 90]))
    rng.shuffle(lst)
    return {"cfg": {"nodes": nodes, "store": rng.choice(["ok", "ok", "raise", "cancel", "araise", "aslow", "aslowraise"]), "early": rng.randint(0, 1), "lst": lst},
            "ops": [dict(p, t=i) for i, p in enumerate(phases)]}


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.phases, self.lst = sim, plan["cfg"], plan["ops"], plan["cfg"]["lst"]
        self.calls = collections.defaultdict(list)  # (scope key, event) -> [(global no, listener index, args, t)]
        self.want = collections.defaultdict(list)  # (scope key, event) -> [args]
        self.counter = 0
        self.ended = collections.Counter()  # coroutine listeners that reached their end
        self.members = collections.defaultdict(list)  # scope key -> listener indices in order of registration
        self.slow = 0.0
        self.requests = []
        self.settle = SETTLE if all(l.get("d", 1) < 200 for l in self.lst) else SETTLE * 20
        self.stored = []
        self.gen = collections.Counter()
        self.listed = set()

    # --- listeners ---
    @staticmethod
    def args(ev, args):
        if ev in ("nodeAdded",):
            return args[1].nodeId
        if ev in ("nodesAdded",):
            return tuple(sorted(n.nodeId for n in args[1]))
        if ev == "nodesRemoved":
            return tuple(sorted(args[1])) if args[1] != [0] else (0,)
        if ev == "nodeRemoved":
            return args[1]
        if ev == "messageReceived" and len(args) == 5:
            return (args[1], args[2], World.msg(args[3]))
        if ev in ("onMessageReceived",):
            m = args[1]
            return World.msg(getattr(m, "command", m))
        if ev in ("messageReceived", "addNodeStatus", "removeNodeStatus", "onMessage", "onSet", "onReport"):
            return World.msg(args[1])
        return ()

    @staticmethod
    def msg(m):
        if not m.NAME:
            return "%04x" % m.hid()
        if m.cmdClass() in (0x70, 0x34):
            return "%04x" % m.hid()
        return m.compose().hex()

    def listener(self, idx, how, d, key, scope):
        world, sim = self, self.sim

        class Listener:
            pass

        obj = Listener()

        def enter(ev, args):
            world.counter += 1
            world.calls[(key, ev)].append((world.counter, idx, world.args(ev, args), sim.now))
            sim.log("heard", key, ev, idx)
            n = len(world.calls[(key, ev)])
            return how if how not in ("mixed", "amixed") else ("a" if how[0] == "a" else "") + ("ok", "raise", "cancel")[n % 3]

        def make(ev):
            def plain(*args):
                h = enter(ev, args)
                if h not in ("ok", "true"):
                    sim.fault_count["listener-" + h] += 1
                if h == "raise":
                    raise ValueError("listener failed")
                if h == "cancel":
                    raise asyncio.CancelledError()
                if h == "stop":
                    raise StopIteration("listener failed")
                if h == "stall":
                    world.slow += d * TICK
                    sim.stall(d)
                return True if h == "true" else None

            async def coro(*args):
                h = enter(ev, args)
                if h not in ("aok", "atrue"):
                    sim.fault_count["listener-" + h] += 1
                if h == "araise":
                    raise ValueError("listener failed")
                if h == "acancel":
                    raise asyncio.CancelledError()
                if h == "aself":
                    asyncio.current_task().cancel()
                    await asyncio.sleep(0)
                if h == "ayield":
                    for _ in range(5):
                        await asyncio.sleep(0)
                if h in ("aslow", "aslowraise"):
                    await sim.sleep(d)
                world.ended[(key, ev, idx)] += 1
                if h == "aslowraise":
                    raise KeyError("listener failed")
                return True if h == "atrue" else None

            return coro if how.startswith("a") else plain

        if how != "missing":
            for ev in EVENTS[scope]:
                setattr(obj, ev, make(ev))
        return obj

    def attach(self, speaker, scope, key):
        for i, l in enumerate(self.lst):
            if l["scope"] != scope:
                continue
            if l["how"] != "missing":
                self.members[key].append(i)
            speaker.addListener(self.listener(i, l["how"], l.get("d", 1), key, scope))

    def attach_node(self, node):
        self.gen[node.nodeId] += 1
        self.attach(node, "node", "node:%s/%d" % (node.nodeId, self.gen[node.nodeId]))
        for cc in (0x20, 0x25, 0x70):
            if cc in node.supported:
                self.attach(node.supported[cc], "cc", "cc:%s:%x/%d" % (node.nodeId, cc, self.gen[node.nodeId]))

    def storage(self):
        world, sim, how = self, self.sim, self.cfg["store"]
        from pyzwave.persistantstorage import PersistantStorage

        def act(ev, node):
            world.stored.append((ev, node.nodeId))
            if how != "ok":
                sim.fault_count["storage-" + how] += 1

        class Store(PersistantStorage):
            def nodeAdded(self, _app, node):
                act("nodeAdded", node)
                if how == "raise":
                    raise OSError(28, "No space left on device")
                if how == "cancel":
                    raise asyncio.CancelledError()

            def nodeUpdated(self, node):
                act("nodeUpdated", node)
                if how == "raise":
                    raise OSError(28, "No space left on device")
                if how == "cancel":
                    raise asyncio.CancelledError()

        class AStore(PersistantStorage):
            async def nodeAdded(self, _app, node):
                act("nodeAdded", node)
                if how == "araise":
                    raise OSError(28, "No space left on device")
                await sim.sleep(60)
                if how == "aslowraise":
                    raise OSError(28, "No space left on device")

            async def nodeUpdated(self, node):
                act("nodeUpdated", node)
                if how == "araise":
                    raise OSError(28, "No space left on device")
                await sim.sleep(60)
                if how == "aslowraise":
                    raise OSError(28, "No space left on device")

        return AStore() if how[0] == "a" else Store()

    # --- scenario ---
    def ids(self, nodes):
        return ["%d:%d" % (n, ep) for n, e in self.cfg["nodes"] if n in nodes for ep in range(e + 1)]

    async def scenario(self, sim):
        from pyzwave.application import Application
        from pyzwave.zipgateway import ZIPGateway

        infos = [NodeInfo(n, CLASSES + ([0x60] if e else []), endpoints=[(0x10, 1, CLASSES)] * e) for n, e in self.cfg["nodes"]]
        self.gw = gw = Gateway(sim, infos)
        self.peers = {i.id: NodePeer(sim, i) for i in infos}
        for p in self.peers.values():
            p.responder = lambda f, _s: [b"\x80\x03\x37"] if f.payload == b"\x80\x02" else []
        self.adapter = ZIPGateway(GW_IP, b"psk")
        if self.cfg["early"]:
            self.attach(self.adapter, "adapter", "adapter")
        self.app = Application(self.adapter, self.storage())
        if not self.cfg["early"]:
            self.attach(self.adapter, "adapter", "adapter")
        world = self

        class Attach:
            def nodeAdded(self, _app, node):
                world.attach_node(node)

        self.app.addListener(Attach())
        self.attach(self.app, "app", "app")
        await self.adapter.connect()
        out, _ = start(sim, "startup", self.app.startup)
        await sim.sleep(self.settle)
        if not out.done or out.exc is not None:
            sim.fail("startup", out.describe())
            return
        self.listed = {n for n, _ in self.cfg["nodes"]}
        ids = self.ids(self.listed)
        self.want[("app", "nodesAdded")].append(tuple(sorted(ids)))
        self.want[("app", "nodeAdded")].extend(ids)
        self.store_want = [("nodeAdded", i) for i in ids]
        for n in sorted(self.listed):
            await self.adapter.connectToNode(n)
        for p in self.phases:
            if sim.violations:
                return
            if p["gone"] is not None:
                self.relist(p["gone"])
                await sim.sleep(self.settle)
            base = sim.now
            for op in p["ops"]:
                sim.at(base + op["t"] * TICK, (lambda op=op: self.do(op)))
            await sim.until(base + self.settle * TICK + (max([o["t"] for o in p["ops"]] or [0])) * TICK)
        self.judge()

    def relist(self, gone):
        new = {n for n, _ in self.cfg["nodes"] if n not in gone}
        removed, added = self.ids(self.listed - new), self.ids(new - self.listed)
        if removed:
            self.want[("app", "nodeRemoved")].extend(removed)
            self.want[("app", "nodesRemoved")].append(tuple(sorted(removed)))
        if added:
            self.want[("app", "nodeAdded")].extend(added)
            self.want[("app", "nodesAdded")].append(tuple(sorted(added)))
        self.store_want += [("nodeAdded", i) for i in added]
        self.want[("adapter", "nodeListUpdated")].append(())
        self.listed = new
        self.gw.announce(nodes=sorted(new | {1}))

    def do(self, op):
        from pyzwave.commandclass import Battery

        sim, gw, k = self.sim, self.gw, op["k"]
        u = (Net.CLIENT_IP, 4123)
        main = next(s for s in sim.net.sockets if s.remote == gw.addr)
        want = self.want
        if k == "gw":  # from the gateway itself, unsolicited
            data = bytes([0x25, 0x03, op["v"]])
            gw.unsolicited(data)
            want[("adapter", "messageReceived")].append((1, 0, data.hex()))
            want[("app", "messageReceived")].append(data.hex())
            return
        if k == "unkgw":
            data = bytes([0x20, 0x03, op["v"]])
            gw.cmd(main.local, data)
            want[("adapter", "onMessageReceived")].append(data.hex())
            want[("app", "messageReceived")].append(data.hex())
            return
        if k in ("status", "remstatus"):
            data = bytes([0x34, 0x02, op["v"], 7, 0, 0, 1]) if k == "status" else bytes([0x34, 0x04, op["v"], 6, 0])
            gw.cmd(main.local, data)
            want[("adapter", "onMessageReceived")].append(data[:2].hex())
            if k == "status":
                want[("app", "addNodeStatus")].append(data[:2].hex())
            else:
                want[("app", "removeNodeStatus")].append(data[:2].hex())
                want[("app", "nodeRemoved")].append(0)
                want[("app", "nodesRemoved")].append((0,))
            return
        n, ep = op["n"], op["ep"]
        if n not in self.listed:
            return
        key = "%d:%d" % (n, ep)
        node = self.app.nodes.get(key)
        if node is None:
            sim.fail("node-missing", "node %s is listed, but unknown" % key)
            return
        g = self.gen[key]
        if k == "req":
            out, _ = start(sim, "request to %s" % key, lambda: node.sendAndReceive(Battery.Get(), Battery.Report))
            self.requests.append(out)
            want[("adapter", "messageReceived")].append((n, ep, "800337"))
            return
        data = {"set": bytes([0x20, 0x01, op["v"]]), "bin": bytes([0x25, 0x03, op["v"]]), "ind": bytes([0x87, 0x03, op["v"]]), "conf": bytes([0x70, 0x06, 1 + op["v"] % 3, 1, op["v"]])}[k]
        peer = self.peers[n]
        dst = u
        if op["via"] == "c":
            dst = next(s for s in sim.net.sockets if s.remote == peer.addr).local
        peer.cmd(dst, data, sep=ep, link=peer.name + ">x")
        text = data.hex() if k != "conf" else "7006"
        want[("adapter", "messageReceived")].append((n, ep, text))
        if k == "conf":
            want[("cc:%s:70/%d" % (key, g), "commandClassUpdated")].append(())
            want[("node:%s/%d" % (key, g), "nodeUpdated")].append(())
            self.store_want.append(("nodeUpdated", key))
            return
        handled = k != "ind" and any(l["scope"] == "cc" and l["how"] in ("true", "atrue") for l in self.lst)
        if k != "ind":
            want[("cc:%s:%x/%d" % (key, data[0], g), "onSet" if k == "set" else "onReport")].append(text)
        if not handled:
            want[("node:%s/%d" % (key, g), "onMessage")].append(text)

    # --- judgement ---
    def judge(self):
        sim = self.sim
        for out in self.requests:
            if not out.done or out.exc is not None:
                sim.fail("request-failed", out.describe())
                return
        have, wanted = collections.Counter(self.stored), collections.Counter(self.store_want)
        if have != wanted:
            k = sorted(set(have) | set(wanted), key=lambda k: (have[k] == wanted[k], k))[0]
            sim.fail("storage", "the storage was told %s %d times, expected %d" % (k, have[k], wanted[k]))
            return
        for key in sorted(set(self.want) | set(self.calls)):
            scope, ev = key
            want = self.want.get(key, [])
            ignore = None
            if (scope, ev) in (("adapter", "messageReceived"), ("adapter", "onMessageReceived")):
                ignore = collections.Counter(want)  # order between sockets is not fixed
            elif ev in ("nodeRemoved", "nodesRemoved", "nodeAdded"):
                ignore = collections.Counter(want)
            for idx in self.members[scope]:
                got = [a for _, i, a, _ in self.calls.get(key, []) if i == idx and not (ev == "onMessage" and a == "800337")]  # (a reply to a second request)
                if (collections.Counter(got) != ignore) if ignore is not None else (sorted(map(str, got)) != sorted(map(str, want))):
                    sim.fail("wrong-calls", "listener %d (%s) of %s was called for %s %d times: %s, expected %d: %s; all listeners: %s" % (
                        idx, self.lst[idx]["how"], scope, ev, len(got), got, len(want), want, [self.lst[i]["how"] for i in self.members[scope]]))
                    return
            for idx in self.members[scope]:
                n = sum(i == idx for _, i, _, _ in self.calls.get(key, []))
                if self.lst[idx]["how"] in ("aok", "aslow", "aslowraise", "ayield", "atrue") and self.ended[(scope, ev, idx)] != n:
                    sim.fail("interrupted", "listener %d (%s) of %s was called for %s %d times, but could finish only %d times" % (idx, self.lst[idx]["how"], scope, ev, n, self.ended[(scope, ev, idx)]))
                    return
            self.order(key)
            if sim.violations:
                return
        for key, items in self.calls.items():
            per = collections.defaultdict(list)
            for no, i, a, t in items:
                per[i].append(a)
            seqs = list(per.values())
            for s in seqs[1:]:
                if s != seqs[0]:
                    sim.fail("wrong-order", "listeners of %s heard %s events in different order: %s, %s" % (key[0], key[1], seqs[0], s))
                    return
        if sim.loop.callback_errors:
            sim.fail("exception", repr(sim.loop.callback_errors[0]))

    def order(self, key):
        """Within one event plain functions are called in registration order, and so are coroutines."""
        scope, ev = key
        for group in ("plain", "coro"):
            members = [i for i in self.members[scope] if self.lst[i]["how"].startswith("a") == (group == "coro")]
            nth = {i: [no for no, j, _, _ in self.calls.get(key, []) if j == i] for i in members}
            for a, b in zip(members, members[1:]):
                for x, y in zip(nth[a], nth[b]):
                    if x > y:
                        self.sim.fail("wrong-order", "%s listener %d of %s was called for %s before listener %d, which was registered earlier" % (group, b, scope, ev, a))
                        return


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = any(k.startswith(("listener-", "storage-")) for k in sim.fault_count)
