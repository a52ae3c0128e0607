"""C22: connecting and starting up load every node, surviving lost answers."""
import collections

from .. import zwire
from ..nodemodel import peek
from ..sim import START, TICK, Net
from ..world import Gateway, NodeInfo, NodePeer, Recorder, start, GW_IP

ID = "C22"
RUNS = {"quick": 7000, "thorough": 300000}
RULE = ("One run = connecting to a gateway with a random network and starting up, once or repeatedly and overlapping, while its answers, acknowledgements and advertisements are lost, late, early and duplicated, at random or all those about chosen nodes; "
        "nodes, endpoints, addresses and announcements are compared with the answers that arrived. Non-trivial: more than one node, or a fault fired.")
REAL = ["pyzwave.zipgateway", "pyzwave.application", "pyzwave.node", "pyzwave.zipconnection", "pyzwave.connection", "pyzwave.adapter", "pyzwave.util", "codec", "asyncio tasks, timeouts"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
SHRINK = ("rates", "faults", "mute", "adv", "listener")

CLASSES = [0x20, 0x25, 0x26, 0x31, 0x32, 0x59, 0x5E, 0x70, 0x72, 0x80, 0x85, 0x86, 0x87, 0x8E, 0x98, 0x9F, 0x6C, 0x21, 0x99, 0xEE, 0xF0]
SURE = 2.9  # an answer so long after its question is in time
MISSING = object()


def class_list(rng, multi):
    c = rng.sample(CLASSES, rng.randint(0, len(CLASSES)))
    if multi:
        c.insert(rng.randint(0, len(c)), 0x60)
    if rng.chance(0.2):
        c.insert(rng.randint(0, len(c)), 0xEF)
    if rng.chance(0.15):
        at = rng.randint(0, len(c))
        c[at:at] = [0xF1, 0x00]
    elif rng.chance(0.04):
        c.append(0xF1)  # half a mark: the rest was cut off
    return c


def supported(classes):
    """The classes a node supports (0x1000 added: again, where they need S0), according to the list it gave."""
    res, sup, secure, i = set(), True, 0, 0
    while i < len(classes):
        if classes[i:i + 2] == [0xF1, 0x00]:
            sup, secure = True, 0x1000
            i += 2
            continue
        if classes[i] == 0xEF:
            sup = False
        elif sup and classes[i] != 0xF1:
            res -= {classes[i] | 0x1000}
            res |= {classes[i], classes[i] | secure}
        i += 1
    return res


def gen(rng, index, tier):
    ops = []
    controller = rng.choice([1, 1, 1, 2, 17, 232])
    ids = [n for n in rng.sample([1, 2, 3, 4, 5, 6, 8, 9, 16, 17, 64, 127, 128, 200, 224, 225, 231, 232], rng.choice([0, 1, 2, 3, 3, 4, 5, 8])) if n != controller]
    if index % 100 == 53:
        ids = [n for n in rng.sample(range(1, 233), rng.choice([40, 100, 231])) if n != controller]
    for n in ids:
        multi = rng.chance(0.5)
        eps = [[rng.randint(0, 255), rng.randint(0, 255), class_list(rng, False)] for _ in range(rng.choice([0, 1, 1, 2, 3, 5]) if not rng.chance(0.008) else rng.choice([16, 33, 63, 100, 126]))] if multi or rng.chance(0.2) else []
        ops.append({"t": 0, "k": "node", "n": n, "l": rng.randint(0, 1), "b": rng.randint(0, 255), "g": rng.randint(0, 255), "s": rng.randint(0, 255), "c": class_list(rng, multi), "e": eps, "agg": rng.choice([0, 0, 0, 1])})
    mode = rng.choice(["clean", "mute", "mute", "faults", "faults", "net"])
    cfg = {"controller": controller, "mode": rng.choice([1, 1, 2, 2, 0, 255]), "faults": {}, "rates": {}, "mute": [], "adv": {}, "listener": rng.choice([0, 0, 1, 2]),
           "seq": rng.choice([0, 0, 0, rng.randint(0, 255), 250])}
    if mode == "faults":
        cfg["faults"] = {"noack": rng.choice([0, 0.1, 0.4, 1]), "noreply": rng.choice([0, 0.1, 0.5, 1]), "slow": rng.choice([0, 0.4]), "slow_max": rng.choice([10, 180, 400, 1500]), "slowack": rng.choice([0, 0.3]), "slowack_max": rng.choice([100, 250]),
                         "early": rng.choice([0, 0.3]), "dup": rng.choice([0, 0.3]), "dup_max": rng.choice([5, 200, 900])}
    if mode == "net":
        cfg["rates"] = {"drop": rng.choice([0, 0.1, 0.4]), "dup": rng.choice([0, 0.2]), "dup_max": 300, "delay": rng.choice([0, 0.4]), "delay_max": rng.choice([3, 40, 150])}
    if mode == "mute":
        for _ in range(rng.randint(1, 5)):
            n = rng.choice(ids or [1])
            cfg["mute"].append([rng.choice(["info", "info", "ends", "cap", "cap", "adv", "adv", "list1", "list", "mode", "failed", "unsol", "modeset"]), n, rng.randint(1, 3), rng.choice(["none", "none", "silent", "nack", "late"])])
    if rng.chance(0.4):
        cfg["adv"] = {"adv_drop": rng.choice([0, 0.2, 0.6, 1]), "adv_slow": rng.choice([0, 0.4]), "adv_slow_max": rng.choice([20, 191, 250, 500]), "adv_dup": rng.choice([0, 0.3])}
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append({"t": rng.choice([0, 0, 1, 64, rng.randint(0, 600), rng.randint(0, 2500)]), "k": rng.weighted([("startup", 3), ("list", 2), ("error", 1)])})
    return {"cfg": cfg, "ops": ops}


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.nodes = {o["n"]: o for o in self.ops if o["k"] == "node"}
        self.tx = []  # (time, payload or raw, zip seq) to the gateway
        self.acks = collections.defaultdict(list)  # zip seq -> times
        self.rx = collections.defaultdict(list)  # (class, command) -> [(time, payload)]
        self.unsolicited = []
        self.seen = {}
        self.heal = False

    # --- the gateway ---
    def script(self, frame, _src):
        p, gw = frame.payload, self.gw
        k = p[:2].hex()
        what = {"5203": "info", "5205": "ends", "5207": "cap", "5201": "list", "5f02": "mode", "520b": "failed", "5f08": "unsol", "5f01": "modeset"}.get(k)
        if what is None or self.heal:
            return None
        n = {"info": 4, "ends": 3, "cap": 3}.get(what)
        n = p[n] if n and len(p) > n else None
        self.seen[what] = self.seen.get(what, 0) + 1
        for name, node, ep, how in self.cfg["mute"] or ():
            if name == "list1" and what == "list" and self.seen[what] == 1 or name == what and (n is None or n == node) and (what != "cap" or p[4] & 127 == ep):
                self.sim.fault_count["answer-" + how] += 1
                if how == "none":
                    return [[0, "ack", None]]
                if how == "silent":
                    return []
                if how == "nack":
                    return [[0, "nack", 4 * (len(frame.payload) % 3)]]
                return [[0, "ack", None]] + [[197 + 64 * i, "reply", r.hex()] for i, r in enumerate(gw.respond(frame, None))]
        return None

    def extra(self, frame, _src):
        p = frame.payload
        if p[:2] == b"\x52\x05" and len(p) > 3 and p[3] in self.nodes:
            o = self.nodes[p[3]]
            agg = min(o["agg"], len(o["e"]))
            return [zwire.endpoint_report(p[2], p[3], len(o["e"]) - agg, agg)]
        return None

    def on_tx(self, now, sock, dst, data):
        if dst != self.gw.addr:
            return
        n = zwire.solicitation(data)
        if n is not None:
            self.tx.append((now, ("adv", n), None))
            return
        f = zwire.parse(data)
        if f is not None and f.payload:
            self.tx.append((now, f.payload, f.seq))

    def on_rx(self, sock, data, addr):
        if addr != self.gw.addr:
            return
        now = self.sim.now
        if data[:2] == b"\x58\x01" and len(data) >= 20:
            self.rx[("adv", data[3])].append((now, data))
            return
        f = zwire.parse(data)
        if f is None:
            return
        if f.ack:
            self.acks[f.seq].append(now)
        elif f.payload:
            if sock.local[1] == 4123:
                self.unsolicited.append((now, f.payload))
            else:
                self.rx[f.payload[:2]].append((now, f.payload))

    def queries(self, prefix, test=lambda p: True):
        return [q for q in self.tx if isinstance(q[1], bytes) and q[1].startswith(prefix) and test(q[1])]

    def answers(self, q, command, test=lambda p: True, numbered=True):
        """Reports that arrived in answer to a question; and whether one certainly counts."""
        t, p, seq = q
        got = [(at, r) for at, r in self.rx[command] if at >= t and (not numbered or r[2] == p[2]) and test(r)]
        acked = any(t <= a <= t + SURE for a in self.acks[seq])
        return got, acked and any(at <= t + SURE for at, _ in got)

    # --- the scenario ---
    async def scenario(self, sim):
        from pyzwave.application import Application
        from pyzwave.persistantstorage import PersistantStorage
        from pyzwave.zipgateway import ZIPGateway

        cfg = self.cfg
        infos = [NodeInfo(o["n"], o["c"], o["g"], o["s"], o["b"], bool(o["l"]), [tuple(e) for e in o["e"]]) for o in self.nodes.values()]
        self.gw = Gateway(sim, infos, dict(cfg["faults"] or {}, **(cfg["adv"] or {})), cfg["mode"], cfg["controller"])
        self.gw.script, self.gw.extra = self.script, self.extra
        on_other = self.gw.on_other

        def muted(data, src):
            n = zwire.solicitation(data)
            if not self.heal and any(m[0] == "adv" and m[1] == n for m in cfg["mute"] or ()):
                sim.fault_count["adv-muted"] += 1
                return
            on_other(data, src)

        self.gw.on_other = muted
        self.peers = {n.id: NodePeer(sim, n) for n in infos}
        sim.net.rates = dict(cfg["rates"] or {})
        sim.net.on_send.append(self.on_tx)
        sim.rx_watch.append(self.on_rx)
        self.adapter = ZIPGateway(GW_IP, b"psk")
        self.storage = PersistantStorage()
        self.app = Application(self.adapter, self.storage)
        self.adapter._nmSeq = cfg["seq"]  # pylint: disable=protected-access
        self.heard = []  # (kind, ids, nodes known)
        self.listen()
        listed = set(self.nodes) | {cfg["controller"]}
        bound = 60 + 8 * len(listed) + sum(14 + 7 * len(o["e"]) for o in self.nodes.values())

        out, _ = start(sim, "connect", self.adapter.connect)
        await self.wait([out], bound)
        if not out.done or out.exc is not None:
            sim.fail("connect", "connecting: %s after %.1f s" % (out.describe(), sim.now - out.start))
            return
        self.judge_connect()
        base = sim.now
        self.connected = base
        outs = []

        def startup():
            outs.append(start(sim, "startup", self.app.startup)[0])

        for op in self.ops:
            if op["k"] == "startup":
                sim.fault_count["overlap"] += 1
                sim.at(base + op["t"] * TICK, startup)
            elif op["k"] == "list":
                sim.at(base + op["t"] * TICK, lambda: self.gw.announce())
            elif op["k"] == "error":
                sim.at(base + op["t"] * TICK, self.error)
        startup()
        await self.wait(outs, bound * 3)
        await sim.until(max([base] + [base + o["t"] * TICK for o in self.ops]) + TICK)
        await self.wait(outs, bound * 3)
        await sim.sleep(64)
        if not self.check_outs(outs):
            return
        for _ in range(100 + 12 * len(self.nodes)):  # updates caused by node list reports
            n = len(self.tx), len(self.heard)
            await sim.sleep(64 * 8)
            if n == (len(self.tx), len(self.heard)):
                break
        self.judge_loaded(True)
        if sim.violations:
            return
        # Once the faults are over
        self.heal = True
        self.gw.faults, self.gw.adv_fault = {}, {}
        sim.net.rates = {}
        await sim.sleep(64 * 30)
        del outs[:]
        startup()
        await self.wait(outs, bound)
        if not self.check_outs(outs):
            return
        self.judge_loaded(False)
        if sim.violations:
            return
        missing = sorted(set(self.nodes) - {self.root(k) for k in self.app.nodes})
        if missing:
            sim.fail("not-loaded", "nodes %s are listed but not loaded, although nothing was lost any more" % missing)
            return
        await self.probe()

    def listen(self):
        sim, world, cfg = self.sim, self, self.cfg

        class Watcher:
            """Listens to the application."""

            def nodesAdded(self, _app, nodes):  # pylint: disable=invalid-name
                world.heard.append(("nodesAdded", [x.nodeId for x in nodes], list(world.app.nodes)))

            async def nodeAdded(self, _app, node):  # pylint: disable=invalid-name
                world.heard.append(("nodeAdded", [node.nodeId], list(world.app.nodes)))
                if cfg["listener"] == 1:
                    await sim.sleep(3)
                elif cfg["listener"] == 2:
                    raise RuntimeError("a listener fails")

        self.app.addListener(Watcher())

    def error(self):
        for s in list(self.sim.net.sockets):
            if s.remote == self.gw.addr:
                self.sim.fault_count["socket-error"] += 1
                self.sim.net.sock_error(s)

    async def wait(self, outs, seconds):
        until = self.sim.now + seconds
        while not all(o.done for o in outs) and self.sim.now < until:
            await self.sim.sleep(64)

    def check_outs(self, outs):
        for out in outs:
            if not out.done or out.exc is not None:
                self.sim.fail("startup", "starting up: %s after %.1f s" % (out.describe(), (out.end or self.sim.now) - out.start))
                return False
        return True

    @staticmethod
    def root(key):
        return int(str(key).split(":")[0])

    # --- the judgement ---
    def judge_connect(self):
        sim = self.sim
        gets, sets = self.queries(b"\x5f\x02"), self.queries(b"\x5f\x01")
        reports = [(t, p[2]) for t, p in self.rx[b"\x5f\x03"]]
        if not gets:
            sim.fail("mode", "the mode of the gateway was not asked for")
            return
        sure = self.answers(gets[0], b"\x5f\x03", numbered=False)[1]
        if sets and not any(m != 1 and t <= sets[0][0] for t, m in reports):
            sim.fail("mode", "the mode was set although the gateway reported %s" % reports)
        elif any(p[2] != 1 for _, p, _ in sets) or len(sets) > 1:
            sim.fail("mode", "the gateway was set to modes %s" % [p[2] for _, p, _ in sets])
        elif sure and self.cfg["mode"] != 1 and not sets:
            sim.fail("mode", "the gateway reported mode %d and was not set to another" % self.cfg["mode"])
        regs = self.queries(b"\x5f\x08")
        if not regs or any(p[-2:] != (4123).to_bytes(2, "big") for _, p, _ in regs):
            sim.fail("registration", "destinations for unsolicited reports: %s" % [p.hex() for _, p, _ in regs])
        if not any(s.local[1] == 4123 for s in sim.net.sockets):
            sim.fail("registration", "nothing listens to unsolicited reports")
        self.sure_ips = set()
        for t, what, _ in self.tx:
            if isinstance(what, tuple) and any(t <= at <= t + SURE for at, _ in self.rx[what]):
                self.sure_ips.add(what[1])
        if not self.queries(b"\x52\x01") and not any(p[:2] == b"\x52\x02" for _, p in self.unsolicited):
            sim.fail("address", "the nodes were not asked for while connecting, nor their addresses")
            return
        if any(self.answers(q, b"\x52\x02")[1] for q in self.queries(b"\x52\x01")):
            asked = {w[1] for _, w, _ in self.tx if isinstance(w, tuple)}
            missing = sorted((set(self.nodes) | {self.cfg["controller"]}) - asked)
            if missing:
                sim.fail("address", "the addresses of %s were not asked for while connecting" % missing)

    def judge_loaded(self, faulty):
        sim, app, cfg = self.sim, self.app, self.cfg
        roots = {self.root(k) for k in app.nodes}
        every = set(self.nodes)
        lists = self.rx[b"\x52\x02"] or [1 for _, p in self.unsolicited if p[:2] == b"\x52\x02"]
        sure = any(self.answers(q, b"\x52\x02")[1] for q in self.queries(b"\x52\x01"))
        if roots - every:
            sim.fail("unknown-node", "nodes %s were loaded, %s are listed" % (sorted(roots), sorted(every)))
            return
        if roots != every and (sure or roots) or roots and not lists:
            sim.fail("not-loaded", "nodes %s were loaded, %s are listed" % (sorted(roots), sorted(every)))
            return
        for n in sorted(roots):
            o = self.nodes[n]
            node = app.nodes.get("%d:0" % n)
            if node is None:
                sim.fail("not-loaded", "node %d:0 is missing" % n)
                return
            qs = self.queries(b"\x52\x03", lambda p, n=n: p[4] == n)
            if not qs:
                sim.fail("not-asked", "node %d was loaded without asking for its information" % n)
                return
            res = [self.answers(q, b"\x52\x04") for q in qs]
            want = (o["b"], o["g"], o["s"], bool(o["l"]), supported(o["c"]))
            have = self.classes_of(node, True)
            self.judge_values("node %d" % n, have, want, (0, 0, 0, False, set()), any(x[1] for x in res), any(x[0] for x in res))
            eps = sorted(int(k.split(":")[1]) for k in app.nodes if self.root(k) == n and k != "%d:0" % n)
            qs = self.queries(b"\x52\x05", lambda p, n=n: p[3] == n)
            if 0x60 not in have[4]:
                if eps:
                    sim.fail("endpoints", "node %d does not support endpoints, but has %s" % (n, eps))
                continue
            if not qs:
                sim.fail("not-asked", "node %d was loaded without asking for its endpoints" % n)
                return
            res = [self.answers(q, b"\x52\x06", lambda p, n=n: p[3] == n) for q in qs]
            full = list(range(1, len(o["e"]) + 1))
            if not (eps == full and (not full or any(x[0] for x in res)) or eps == [] and not any(x[1] for x in res)):
                sim.fail("endpoints", "node %d has the endpoints %s, the gateway was asked %d times and reported %s (certainly: %s)" % (n, eps, len(qs), full if any(x[0] for x in res) else "nothing", any(x[1] for x in res)))
                return
            for ep in eps:
                qs = self.queries(b"\x52\x07", lambda p, n=n, ep=ep: p[3] == n and p[4] & 127 == ep)
                if not qs:
                    sim.fail("not-asked", "endpoint %d:%d was loaded without asking for its information" % (n, ep))
                    return
                res = [self.answers(q, b"\x52\x08", lambda p, n=n, ep=ep: p[3] == n and p[5] == ep) for q in qs]
                e = o["e"][ep - 1]
                self.judge_values("endpoint %d:%d" % (n, ep), self.classes_of(app.nodes["%d:%d" % (n, ep)], False), (e[0], e[1], supported(e[2])), (0, 0, set()), any(x[1] for x in res), any(x[0] for x in res))
        # announcements
        for kind in ("nodesAdded", "nodeAdded"):
            told = collections.Counter(i for k, ids, _ in self.heard if k == kind for i in ids)
            twice = sorted(i for i, c in told.items() if c > 1)
            if twice:
                sim.fail("announced-twice", "%s: %s" % (kind, twice))
            elif set(told) != set(app.nodes):
                sim.fail("not-announced", "%s told of %s, the nodes are %s" % (kind, sorted(told), sorted(app.nodes)))
        for kind, ids, known in self.heard:
            if ids and set(known) != set(app.nodes):
                sim.fail("announced-early", "%s told of %s when only %s was loaded" % (kind, ids, known))
                return

    def classes_of(self, node, root):
        val = (int(node.genericDeviceClass or 0), int(node.specificDeviceClass or 0), set(int(x) | s for x, cc in node.supported.items() for s in (0, cc.securityS0 and 0x1000)) - {0xF1, 0x10F1})
        return ((int(node.basicDeviceClass or 0),) + val[:2] + (bool(node.listening), val[2])) if root else val

    def judge_values(self, what, have, want, unknown, sure, maybe):
        self.sim.probe["answered" if have == want else "unanswered"] += 1
        if have == want and (maybe or want == unknown):
            return
        if have == unknown and not sure:
            return
        self.sim.fail("wrong-data", "%s has %s, the gateway reported %s" % (what, have, want if maybe else "nothing"))

    async def probe(self):
        """Reports from nodes whose address was learned are recognised."""
        sim = self.sim
        for n in sorted(self.nodes):
            if n not in self.sure_ips:
                continue
            peer = self.peers[n]
            seq = peer.report(b"\x20\x01\x05", ack_request=True)
            await sim.sleep(64)
            acks = [f for _, f, _ in peer.frames if f.ack and f.seq == seq]
            if len(acks) != 1:
                sim.fail("address", "a report of node %d, whose address was told while connecting, was acknowledged %d times" % (n, len(acks)))
                return
            sim.probe["recognised"] += 1


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = bool(sim.fault_count) or len(world.nodes) > 1
