"""C12: each supervised command is answered by exactly one matching report."""
import asyncio
import collections

from .. import zwire
from ..sim import START, TICK, Net
from ..world import NodeInfo, System, start

ID = "C12"
RUNS = {"quick": 2200, "thorough": 150000}
RULE = ("One run = one seeded history of supervised (and some plain) commands from several nodes and endpoints, on the unsolicited and the node's own socket, duplicated, delayed and reordered, with handlers on node and "
        "command class that accept, refuse, fail, are slow or cancelled, with requests in progress, failing internal handlers, unacknowledged and lost reports. Non-trivial: at least three supervised commands arrived, or a fault fired.")
REAL = ["pyzwave.node (supervision)", "pyzwave.commandclass (Supervision, dispatch, internal handlers)", "pyzwave.application", "pyzwave.zipgateway", "pyzwave.zipconnection", "pyzwave.util", "codec", "asyncio tasks"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
SHRINK = ("rates", "handlers", "faults")

CLASSES = [0x20, 0x25, 0x70, 0x80, 0x31, 0x59, 0x6C]
ACTS = ["no", "no", "yes", "yes", "none", "raise", "cancel", "1-yes", "text-yes", "0-no"]
AACTS = ["no", "no", "yes", "yes", "none", "raise", "cancel", "1-yes", "text-yes", "0-no", "slowyes", "slowno", "slowraise", "slowyes", "slowno"]


def gen(rng, index, tier):
    nodes = [[3 + i, rng.randint(0, 2)] for i in range(rng.randint(1, 3))]
    ops = []
    t = 0
    for i in range(rng.randint(2, 25 if tier == "quick" else 60) if index % 100 != 53 else rng.randint(100, 300)):
        node, eps = rng.choice(nodes)
        r = rng.random()
        if r < 0.85:
            kind = rng.choice(["set", "set", "rep", "bin", "ind", "conf", "batt", "unk", "poison", "sens", "grp", "nested"])
            v = rng.randint(0, 255)
            data = {"set": b"\x20\x01", "rep": b"\x20\x03", "bin": b"\x25\x03", "ind": b"\x87\x03", "batt": b"\x80\x03"}.get(kind)
            if data:
                data += bytes([v])
            elif kind == "conf":
                data = bytes([0x70, 0x06, rng.randint(1, 3), 1, v])
            elif kind == "sens":  # a type or scale that is not supported
                data = bytes([0x31, 0x05, rng.choice([1, 2]), 0x2A]) + rng.bytes(2)
            elif kind == "poison":
                data = bytes([0x31, 0x05, 1])
            elif kind == "grp":
                data = bytes([0x59, 0x04, 0x01, rng.randint(1, 3), 0, 0, 1, 0, 0, 0])
            elif kind == "nested":
                data = bytes([0x6C, 0x01, rng.randint(0, 63), 3, 0x25, 0x03, v])
            else:
                data = bytes([0x99, 0x01, v])
            sess = rng.choice([rng.randint(0, 63), rng.randint(0, 3)])
            plain = rng.chance(0.1)
            op = {"t": t, "op": "cmd", "n": node, "ep": rng.choice([0, eps, rng.randint(0, eps)]), "data": data.hex(), "flags": rng.choice([0, 0, 0x80]), "sess": sess, "plain": int(plain),
                  "ack": rng.randint(0, 1), "via": rng.choice(["u", "u", "c"]), "dep": rng.choice([0, 0, 1])}
            if op["via"] == "c":
                op["ack"] = 0
            ops.append(op)
            while rng.chance(0.15):
                ops.append(dict(op, t=t + rng.choice([0, 0, 1, 5, 100])))
        elif r < 0.95:
            ops.append({"t": t, "op": "request", "n": node, "ep": rng.choice([0, eps]), "cancel": rng.choice([None, None, 1, 5, 100])})
        else:
            ops.append({"t": t, "op": "stall", "ticks": rng.choice([3, 30, 200])})
        t += rng.choice([0, 0, 0, 1, 1, 2, rng.randint(0, 30), rng.randint(0, 400)])
    rates = {}
    if rng.chance(0.5):
        rates = {"drop": rng.choice([0, 0.15]), "dup": rng.choice([0, 0.15]), "dup_max": 60, "delay": rng.choice([0, 0.4]), "delay_max": rng.choice([3, 40])}
    handlers = []
    for i in range(rng.randint(0, 4)):
        kind = rng.choice(["plain", "coro"])
        acts = [rng.choice(ACTS if kind == "plain" else AACTS) for _ in range(4)]
        handlers.append({"level": rng.choice(["node", "cc"]), "kind": kind, "acts": acts, "delay": rng.choice([1, 3, 64, 300, 900] + [64 * 45] * (index % 8 == 3) + [64 * 90] * (index % 8 == 3))})
    return {"cfg": {"nodes": nodes, "rates": rates, "handlers": handlers, "connect": rng.randint(0, 1),
                    "faults": {"noack": rng.choice([0, 0.3]), "noreply": 0.2, "slow": 0.3, "slow_max": 300, "slowack": rng.choice([0, 0.2]), "slowack_max": 300}}, "ops": ops}


def unmatched(n, items, fits):
    """Bipartite matching of n commands to reports: the first command without partner, or None."""
    owner = {}

    def place(i, seen):
        for j, r in enumerate(items):
            if j in seen or not fits(i, r):
                continue
            seen.add(j)
            if j not in owner or place(owner[j], seen):
                owner[j] = i
                return True
        return False

    for i in range(n):
        if not place(i, set()):
            return i
    return None


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.rx = []  # [t, key, payload]
        self.tx = []  # (t, node, Frame)
        self.calls = []  # [key, handler index, level, payload, t0, t1, verdict]
        self.requests = []  # (key, outcome)
        self.stalls = 0.0
        self.watching = False

    def on_rx(self, sock, data, addr):
        f = zwire.parse(data)
        if f is None or not f.has_cmd or addr[0] not in self.byip or f.ack or f.nack:
            return
        self.rx.append((self.sim.now, "%d:%d" % (self.byip[addr[0]], f.sep), f.payload))

    def on_tx(self, now, sock, dst, data):
        f = zwire.parse(data)
        if f is not None and f.payload[:2] == b"\x6c\x02":
            if dst[0] not in self.byip or dst[1] != 4123:
                self.sim.fail("misdirected", "supervision report sent to %s" % (dst,))
                return
            self.tx.append((now, "%d:%d" % (self.byip[dst[0]], f.dep), f.payload))

    @staticmethod
    def payload(msg):
        if not msg.NAME:
            return bytes([msg.hid() >> 8, msg.hid() & 255])
        if msg.cmdClass() in (0x31, 0x59):
            return bytes([msg.cmdClass()])
        if msg.cmdClass() == 0x70:
            return b"\x70"
        return msg.compose()

    def attach(self, node):
        world, sim = self, self.sim
        key = node.nodeId

        def make(i, h):
            def enter(msg):
                p = world.payload(msg)
                rec = [key, i, h["level"], p, sim.now, None, None]
                world.calls.append(rec)
                sim.log("heard", key, i)
                return rec, h["acts"][(p[2] if len(p) > 2 else 0) % 4]

            def leave(rec, act):
                rec[5] = sim.now
                rec[6] = act
                if act.endswith("raise"):
                    sim.fault_count["handler-raise"] += 1
                    raise ValueError("handler failed")
                if act == "cancel":
                    sim.fault_count["handler-cancel"] += 1
                    raise asyncio.CancelledError()
                if act == "none":
                    return None
                if "-" in act:  # a value other than True and False
                    return {"1-yes": 1, "text-yes": "handled", "0-no": 0}[act]
                return act.endswith("yes")

            def plain(msg):
                return leave(*enter(msg))

            async def coro(msg):
                rec, act = enter(msg)
                if act.startswith("slow"):
                    sim.fault_count["handler-slow"] += 1
                    await sim.sleep(h["delay"])
                return leave(rec, act)

            class Handler:
                pass

            obj = Handler()
            if h["kind"] == "plain":
                if h["level"] == "node":
                    obj.onMessage = lambda _n, msg: plain(msg)
                else:
                    obj.onSet = obj.onReport = lambda _c, msg, _f: plain(msg)
            else:
                if h["level"] == "node":
                    async def on_message(_n, msg):
                        return await coro(msg)
                    obj.onMessage = on_message
                else:
                    async def on_cc(_c, msg, _f):
                        return await coro(msg)
                    obj.onSet = obj.onReport = on_cc
            return obj

        hs = list(self.cfg["handlers"] or ()) + [{"level": "node", "kind": "plain", "acts": ["none"] * 4}, {"level": "cc", "kind": "plain", "acts": ["none"] * 4}]
        for i, h in enumerate(hs):
            obj = make(i, h)
            if h["level"] == "node":
                node.addListener(obj)
            else:
                for cc in (0x20, 0x25):
                    node.supported[cc].addListener(obj)
        self.hs = hs
        node.supported[0x31].__setstate__({"version": 5, "supportedTypes": {1: 1}})

    async def scenario(self, sim):
        infos = [NodeInfo(n, CLASSES + ([0x60] if e else []), endpoints=[(0x10, 1, CLASSES)] * e) for n, e in self.cfg["nodes"]]
        self.byip = {i.ip: i.id for i in infos}
        self.system = s = System(sim, infos)
        await s.up(preconnect=bool(self.cfg["connect"]))
        for n, e in self.cfg["nodes"]:
            for ep in range(e + 1):
                node = s.app.nodes.get("%d:%d" % (n, ep))
                if node is None:
                    sim.fail("setup-failed", "node %d:%d was not loaded" % (n, ep))
                    return
                self.attach(node)
        for p in s.peers.values():
            p.faults = self.cfg["faults"]
            p.responder = lambda f, _src: [b"\x80\x03\x21"] if f.payload[:2] == b"\x80\x02" else []
        await sim.sleep(64)
        sim.rx_watch.append(self.on_rx)
        sim.net.on_send.append(self.on_tx)
        sim.net.rates = self.cfg["rates"]
        sim.net.exempt = ("c>gw", "gw>c")
        base = sim.now
        for op in self.ops:
            sim.at(base + op["t"] * TICK, (lambda op=op: self.do(op)))
        await sim.until(base + (max([o["t"] for o in self.ops] or [0]) + 64 * 20) * TICK)
        sim.net.rates = {}
        await sim.sleep(64 * 60 + 4 * max([h["delay"] for h in self.cfg["handlers"] or ()] or [0]))
        self.judge()

    def do(self, op):
        from pyzwave.commandclass import Battery

        sim, s = self.sim, self.system
        what = op["op"]
        if what == "stall":
            if not self.cfg["connect"]:
                return  # the answer to the address lookup must not come too late
            self.stalls += op["ticks"] * TICK
            sim.stall(op["ticks"])
            return
        key = "%d:%d" % (op["n"], op["ep"])
        peer = s.peers[op["n"]]
        if what == "request":
            node = s.app.nodes[key]
            out, task = start(sim, "req", lambda: node.sendAndReceive(Battery.Get(), Battery.Report))
            self.requests.append((key, out))
            if op["cancel"] is not None:
                sim.after(op["cancel"], lambda: out.done or task.cancel())
            return
        data = bytes.fromhex(op["data"])
        if not op["plain"]:
            data = bytes([0x6C, 0x01, op["flags"] | op["sess"], len(data)]) + data
        dst = (Net.CLIENT_IP, 4123)
        if op["via"] == "c":
            sock = s.socket_of(op["n"])
            if sock is None:
                return
            dst = sock.local
        peer.cmd(dst, data, sep=op["ep"], dep=op["dep"], ack_request=bool(op["ack"]), link=peer.name + ">x")

    # --- the expected verdict for a wrapped command ---
    def verdict(self, key, t, inner):
        """(status or None if either may be right, time at which the slowest handler ends)"""
        cc = inner[0]
        if cc == 0x70 or cc == 0x31 and len(inner) == 6:
            return 0xFF, t  # consumed by the command class itself
        if cc == 0x59:
            return 0xFF, t
        if cc == 0x31:
            return 0, t
        if cc == 0x6C:
            return None, t
        v = inner[2] if cc not in (0x99,) else 0
        waited = None
        if cc == 0x80:
            for k, out in self.requests:
                if k == key and out.start <= t and (not out.done or out.end >= t):
                    waited = "maybe"
                    if out.value is not None and out.value.compose() == inner and inner[2] != 0x21:
                        same = [x for x, kk, p in self.rx if kk == key and p[-3:] == inner and out.start <= x <= out.end]
                        if len(same) == 1:
                            return 0xFF, t  # a request was waiting for it
        end = t

        def level(name):
            acc, end = False, t
            for h in self.hs:
                if h["level"] != name:
                    continue
                act = h["acts"][v % 4]
                if act.startswith("slow"):
                    end = max(end, t + h["delay"] * TICK)
                acc = acc or act.endswith("yes")
            return acc, end

        if cc in (0x20, 0x25):
            acc, end = level("cc")
            if acc:
                return 0xFF, end
            acc2, e2 = level("node")
            return (0xFF if acc2 else 0), end + (e2 - t)
        acc, e = level("node")
        if waited and not acc:
            return None, t
        return (0xFF if acc else 0), (t if waited else e)

    def judge(self):
        sim = self.sim
        slack = 1.0 + self.stalls
        want = collections.defaultdict(list)
        delivered = collections.defaultdict(list)
        for t, key, p in self.rx:
            if p[:2] == b"\x6c\x01":
                inner = p[4:4 + p[3]]
                sim.probe["supervised"] += 1
                want[(key, p[2] & 0x3F)].append((t, inner))
            else:
                inner = p
            delivered[key].append((t, inner))
        got = collections.defaultdict(list)
        for t, key, p in self.tx:
            if len(p) != 5:
                sim.fail("bad-report", p.hex())
                return
            if p[2] & 0x80:
                sim.fail("bad-report", "%s announces further status updates" % p.hex())
                return
            if p[3] not in (0, 0xFF):
                sim.fail("bad-report", "status %02x in %s" % (p[3], p.hex()))
                return
            got[(key, p[2] & 0x3F)].append((t, p[3]))
        for k in sorted(set(want) | set(got)):
            w, g = want.get(k, []), got.get(k, [])
            if len(w) != len(g):
                sim.fail("missing-report" if len(g) < len(w) else "extra-report", "%d supervised commands of node %s with session %d were received, and %d reports sent: %s, %s" % (
                    len(w), k[0], k[1], len(g), [(round(t - START, 4), i.hex()) for t, i in w], [(round(t - START, 4), s) for t, s in g]))
                return
            verdicts = [(t, inner) + self.verdict(k[0], t, inner) for t, inner in w]
            lo = sum(1 for x in verdicts if x[2] == 0xFF)
            hi = lo + sum(1 for x in verdicts if x[2] is None)
            n = sum(1 for _, s in g if s == 0xFF)
            if not lo <= n <= hi:
                sim.fail("wrong-status", "node %s session %d: %d reports of success, expected %d to %d: %s, %s" % (
                    k[0], k[1], n, lo, hi, [(round(t - START, 4), i.hex(), v) for t, i, v, _ in verdicts], [(round(t - START, 4), s) for t, s in g]))
                return
            # every command has its own report, at or after the end of its handling
            def fits(i, r):
                _t, inner, v, end = verdicts[i]
                late = inner[0] not in (0x59, 0x6C, 0x80) and r[0] > end + slack
                return r[0] >= end - 1e-9 and not late and v in (None, r[1])

            bad = unmatched(len(verdicts), g, fits)
            if bad is not None:
                t, inner, v, end = verdicts[bad]
                sim.fail("wrong-time", "node %s session %d: no report of its own (status %s) for %s, whose handling ended at %.4f: %s" % (
                    k[0], k[1], v, inner.hex(), end - START, [(round(a - START, 4), b) for a, b in g]))
                return
        self.deliveries(delivered)
        if self.sim.loop.callback_errors:
            sim.fail("exception", repr(self.sim.loop.callback_errors[0]))

    def deliveries(self, delivered):
        """The wrapped command reaches every handler once."""
        heard = collections.Counter()
        for key, i, _lv, p, _t0, _t1, _v in self.calls:
            heard[(key, i, p)] += 1
        want, may = collections.Counter(), collections.Counter()
        for key, items in delivered.items():
            for t, inner in items:
                cc = inner[0]
                if cc == 0x6C:
                    p = inner[4:]
                    for i, h in enumerate(self.hs):
                        may[(key, i, p)] += 1
                    continue
                if cc in (0x70, 0x31, 0x59):
                    continue
                p = inner[:2] if cc == 0x99 else inner
                v = inner[2] if cc != 0x99 else 0
                accepted = cc in (0x20, 0x25) and any(h["level"] == "cc" and h["acts"][v % 4].endswith("yes") for h in self.hs)
                for i, h in enumerate(self.hs):
                    k = (key, i, p)
                    if h["level"] == "cc":
                        if cc in (0x20, 0x25):
                            want[k] += 1
                    elif accepted or cc == 0x80:
                        may[k] += 1
                    else:
                        want[k] += 1
        for k in sorted(set(heard) | set(want)):
            if k[2][:1] in (b"\x70", b"\x31", b"\x59", b"\x6c"):
                continue
            if not want[k] <= heard[k] <= want[k] + may[k]:
                self.sim.fail("wrong-delivery", "handler %d of node %s heard %s %d times, expected %d to %d" % (k[1], k[0], k[2].hex(), heard[k], want[k], want[k] + may[k]))
                return


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = bool(sim.fault_count) or sim.probe["supervised"] >= 3
