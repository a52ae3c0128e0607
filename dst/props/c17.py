"""C17: bad datagrams are ignored and disturb nothing (the same run with and without them must not differ)."""
import collections

from .. import zwire
from ..nodemodel import Script, canon
from ..sim import START, TICK, Net, Rng, Sim
from ..world import GW_IP, NodeInfo, Recorder, System, node_ip, start

ID = "C17"
RUNS = {"quick": 3000, "thorough": 120000}
RULE = ("One run = the same seeded history (start-up, sends, requests, gateway queries, reports, node list updates, inclusion, idle time, message faults) executed twice, once with bad datagrams injected between any two events on any socket; "
        "results with their times, what listeners heard and everything transmitted must be identical. A part of the runs damages the gateway's answers during start-up instead. Non-trivial: a bad datagram reached a socket.")
REAL = ["pyzwave.connection", "pyzwave.zipconnection", "pyzwave.zipgateway", "pyzwave.adapter", "pyzwave.application", "pyzwave.node", "pyzwave.commandclass", "codec", "asyncio tasks, timeouts"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
SHRINK = ("rates", "faults", "damage")

U = (Net.CLIENT_IP, 4123)
CLASSES = [0x20, 0x25, 0x31, 0x59, 0x70, 0x72, 0x80, 0x85, 0x86]
# payloads that cannot be decoded: a field or a length that goes beyond the end, or text that is none
BROKEN = ["59020102ffff", "6902010100", "6c010503", "6c01050520", "59060108", "720500", "7205000100", "700605040001", "31057722", "31050122", "5202050001ff", "3202212200", "59020105414243", "69020100", "58010003fd00", "", "6a01", "9f0105"]
# payloads that decode, but without all of their fields
PARTIAL = ["20", "86", "52", "5f", "6c", "3402050700", "340205ff03", "340e", "8503", "3206", "34020506000000", "34110500", "341305", "690201", "690601000102", "59040f0000", "590481", "59040101", "7006", "700605", "70060504", "3105", "310501", "3106", "850301",
           "6c01", "6c0105", "340205", "3204", "3202", "320221", "2003", "2001", "2503", "8703", "8e0301", "5e02", "5e0201", "5906", "5902", "590201", "8506", "9f01", "ff", "000102", "f100", "efef", "5202", "520205", "52020500", "5204", "5208"]
AWAITED = ("5202", "5204", "5206", "5208", "520c", "5f")  # by requests to the gateway


def cannot(rng, sock, near=None):
    """A datagram that is certainly not a valid message."""
    k = rng.randint(0, 12)
    seq = rng.choice([0, 1, 2, 3, 255, rng.randint(0, 255)])
    if k == 0:
        return b""
    if k == 1:
        return rng.bytes(1)
    if k == 2:
        return b"\x23\x02" + rng.bytes(rng.randint(0, 2))
    if k == 3:
        return bytes([rng.choice([0x00, 0x01, 0x24, 0x9F, 0xFE, 0xFF])]) + rng.bytes(rng.randint(1, 30))
    if k == 4:
        return b"\x23" + bytes([rng.choice([0, 1, 4, 5, 9, 0xFF])]) + rng.bytes(rng.randint(0, 20))
    if k == 5:
        return bytes.fromhex(rng.choice(["2503ff", "2001ff", "580400" + "03", "6901", "520205000107", "3402050600"]))
    if k == 6:  # an advertisement without an address
        n = rng.choice([3, 4, 5, 1])
        if near is not None and rng.chance(0.7):
            n = near
        return (bytes([0x58, 0x01, 0, n]) + rng.bytes(16))[:rng.choice([4, 4, 4, rng.randint(2, 19)])]
    if k == 7:  # header extension that ends too early or is no list of options
        ext = rng.choice([b"\xff\x01\x02", b"\x05\x84", b"\x03\x84\x09", b"\x04\x01\x01\x00", b"\x04\x7f\x01\x00", b"\x06\x03\x03\x77\x01\x00", b"\x05\x03\x02\x00\x05", b"\x02\x01"])
        return bytes([0x23, 0x02, 0x00, 0xD0, seq, 0, 0]) + ext + rng.choice([b"", b"\x20\x03\xff"])
    if k == 8:
        return zwire.packet(seq, b"", 0, 0x50)  # says that it has a command
    if k in (9, 10):
        return zwire.packet(seq, bytes.fromhex(rng.choice(BROKEN)), 0, 0x50, rng.choice([0, 0, 1, 127]), 0)
    if k == 11:
        return b"\x23\x03" if sock != "unsol" else b"\x23\x03" + rng.bytes(1)
    return zwire.packet(seq, b"", 0, 0x10)  # neither command nor answer


def gen(rng, index, tier):
    nodes = [[n, rng.choice([0, 0, 1])] for n in rng.sample([3, 4, 5, 30, 200], rng.randint(1, 3))]
    mode = rng.choice(["cannot", "cannot", "cannot", "other", "partial", "damage"])
    cfg = {"mode": mode, "nodes": nodes, "damage": [], "rates": {}, "faults": {}}
    if rng.chance(0.4):
        cfg["rates"] = {"drop": rng.choice([0, 0.1]), "dup": rng.choice([0, 0.1]), "dup_max": 60, "delay": rng.choice([0, 0.3]), "delay_max": rng.choice([3, 40])}
    if rng.chance(0.6):
        cfg["faults"] = {"noack": rng.choice([0, 0.2]), "noreply": rng.choice([0, 0.2]), "slow": 0.4, "slow_max": rng.choice([10, 200]), "slowack": rng.choice([0, 0.3]), "slowack_max": 230, "early": rng.choice([0, 0.3])}
    if mode in ("damage", "partial"):  # what is answered additionally would shift the faults
        cfg["rates"], cfg["faults"] = {}, {}
    if mode == "damage":
        for _ in range(rng.randint(1, 4)):
            what = rng.choice(["5204", "5204", "5206", "5208", "520c", "5f03", "5202"])
            cfg["damage"].append([what, rng.choice(nodes)[0], rng.randint(1, 5 if what == "5202" else 10)])
        return {"cfg": cfg, "ops": []}
    ops = []
    t = 64 if rng.chance(0.7) else 0
    for _ in range(rng.randint(2, 14 if tier == "quick" else 40)):
        n, eps = rng.choice(nodes)
        k = rng.weighted([("send", 4), ("request", 4), ("query", 3), ("report", 4), ("list", 1), ("add", 1), ("lookup", 1)])
        op = {"t": t, "k": k, "n": n, "ep": rng.randint(0, eps)}
        if k == "query":
            op["what"] = rng.choice(["info", "endpoints", "failed", "mode"])
        elif k == "request":
            op["what"] = rng.choice(["manufacturer", "version", "battery"])
        elif k == "report":
            op["data"] = bytes(rng.choice([[0x25, 0x03, rng.randint(0, 255)], [0x20, 0x01, rng.randint(0, 255)], [0x80, 0x03, rng.randint(0, 100)], [0x70, 0x06, 5, 1, rng.randint(0, 99)], [0x6C, 0x01, rng.randint(0, 63), 3, 0x20, 0x01, 9]])).hex()
            op["ack"] = rng.randint(0, 1)
        elif k == "list":
            op["gone"] = [x for x, _ in nodes if rng.chance(0.3)]
        ops.append(op)
        near = t
        for _ in range(rng.choice([0, 1, 1, 2, 5])):
            ops.append(bad(rng, mode, nodes, max(0, near + rng.choice([0, 0, 1, 1, 2, 3, 4, 100, 192, 193, 500, -1, -2])), n))
        t += rng.choice([0, 1, 3, 20, 200, 400, 1600, 1700, 3300])
    if rng.chance(0.08):  # many of them, mostly on one socket while it is waiting for answers
        t0, one, n = rng.randint(0, max(t, 1)), rng.choice(["gw", "node", "unsol", None]), rng.choice(nodes)[0]
        length = rng.choice([100, 400])
        if one in ("gw", "node"):
            cfg["faults"] = dict(cfg["faults"], **({"slowack": 0.7, "slowack_max": 180, "slow": 0.4, "slow_max": 200} if mode != "partial" else {}))
            for _ in range(rng.randint(3, 10)):
                ops.append({"t": t0 + rng.randint(0, length), "k": "query", "n": n, "ep": 0, "what": rng.choice(["info", "endpoints", "failed"])} if one == "gw" else {"t": t0 + rng.randint(0, length), "k": rng.choice(["send", "request"]), "what": "version", "n": n, "ep": 0})
        for _ in range(rng.choice([25, 70, 140, 300])):
            op = bad(rng, mode, nodes, t0 + rng.randint(0, length), n)
            while one is not None and op["sock"] != one and rng.chance(0.9):
                op = bad(rng, mode, nodes, op["t"], n)
            ops.append(dict(op, n=n) if one == "node" else op)
    if rng.chance(0.5):  # while starting up
        for _ in range(rng.randint(1, 5)):
            ops.append(dict(bad(rng, mode, nodes, rng.randint(0, 40)), early=1))
    return {"cfg": cfg, "ops": ops}


def bad(rng, mode, nodes, t, near=None):
    op = {"t": t, "k": "bad", "sock": rng.choice(["gw", "node", "unsol", "unsol"]), "n": rng.choice(nodes)[0], "src": rng.choice(["own", "own", "gw", "stranger", "other"])}
    kind = mode
    if mode == "other" and rng.chance(0.3):
        kind = "cannot"
    if kind == "cannot":
        op["data"] = cannot(rng, op["sock"], near).hex()
        op["quiet"] = int(not op["data"].startswith("5801") and op["data"][6:8] != "d0" and not op["data"].endswith(("6a01", "9f0105")))
        if op["sock"] == "unsol" and rng.chance(0.3):
            r = rng.randint(0, 4)
            op["quiet"] = 1
            op["data"] = [zwire.ack(5), zwire.nack(6), zwire.waiting(7, 3), zwire.KEEPALIVE, zwire.packet(9, b"\x25\x03\xff", zwire.ACK_REQ)][r].hex()
            if r == 4:
                op["src"] = "stranger"
    elif kind == "partial":
        op["data"] = zwire.packet(rng.randint(0, 255), bytes.fromhex(rng.choice(PARTIAL)), rng.choice([0, 0, zwire.ACK_REQ]), 0x50, rng.choice([0, 0, 0, 1, 5]), 0).hex()
        op["sock"] = "unsol" if rng.chance(0.8) else op["sock"]
        if op["sock"] == "gw" and op["data"][14:].startswith(AWAITED):
            op["sock"] = "unsol"
    else:
        op["sock"] = rng.choice(["gw", "node"])
        op["dyn"] = rng.choice(["nack", "nack", "oldnack", "nackq", "nackopt", "nackext", "strayack", "straywait", "ackreq", "ackreq0", "kaack", "kareq", "kaboth", "sockerr"])
    return op


class World:
    """One execution of the history."""

    def __init__(self, sim, plan, inject):
        self.sim, self.cfg, self.ops, self.inject = sim, plan["cfg"], plan["ops"], inject
        self.outs, self.tx, self.lastseq = [], [], {}
        self.damaged = {}
        self.when = {}
        self.quiet = set()  # instants at which only datagrams arrive that are no messages
        self.announced = collections.Counter()
        sim.order_sockets = False

    def on_tx(self, now, sock, dst, data):
        self.tx.append((now, dst[0], data))
        f = zwire.parse(data)
        if f is not None and not f.ack and not f.nack:
            self.lastseq[sock] = f.seq

    def nodeAdded(self, _app, node):
        self.announced[node.nodeId] += 1
        node.addListener(Recorder(self.sim, "node" + node.nodeId, onMessage="async"))
        self.recorders.append(node._listeners[-1])
        for cc in sorted(node.supported):
            r = Recorder(self.sim, "cc%s-%02x" % (node.nodeId, cc), onReport=True, onSet="async")
            node.supported[cc].addListener(r)
            self.recorders.append(r)

    async def scenario(self, sim):
        self.recorders = []
        infos = [NodeInfo(n, CLASSES + ([0x60] if e else []), endpoints=[(0x10, 1, CLASSES)] * e) for n, e in self.cfg["nodes"]]
        self.sys = s = System(sim, infos)
        sim.net.on_send.append(self.on_tx)
        s.make()
        r = Recorder(sim, "app", messageReceived=True, addNodeStatus="async", nodeRemoved=True)
        s.app.addListener(self)
        s.app.addListener(r)
        self.recorders.append(r)
        r = Recorder(sim, "adapter", onMessageReceived=True)
        s.adapter.addListener(r)
        self.recorders.append(r)
        for n, p in s.peers.items():
            sc = Script(n)
            p.responder = lambda f, src, sc=sc: sc(f, src)
        if self.cfg["damage"]:
            s.gw.script = self.damage
        for op in self.ops:
            if op.get("early") and self.inject:
                sim.at(sim.now + (op["t"] + 0.5) * TICK, lambda op=op: self.bad(op))
        for name, fn in (("connect", s.adapter.connect), ("startup", s.app.startup)):
            out, _ = start(sim, name, fn)
            self.outs.append(out)
            for _ in range(300):
                if out.done:
                    break
                await sim.sleep(64 * 2)
            else:
                sim.fail("never-ends", "%s did not end" % name)
                return
            if out.exc is not None:
                sim.fail("error", out.describe())
                return
        if self.cfg["damage"]:
            self.judge_damage()
            return
        for n, _ in self.cfg["nodes"]:
            await s.adapter.connectToNode(n)
        sim.net.rates = self.cfg["rates"]
        for p in list(s.peers.values()) + [s.gw]:
            p.faults = self.cfg["faults"]
        base = sim.now
        for op in self.ops:
            if op.get("early"):
                continue
            if op["k"] != "bad":
                sim.at(base + op["t"] * TICK, lambda op=op: self.do(op))
            elif self.inject:
                sim.at(base + (op["t"] + 0.5) * TICK, lambda op=op: self.bad(op))
        await sim.until(base + (max([o["t"] for o in self.ops] or [0]) + 64 * 60) * TICK)

    # --- bad datagrams ---
    def bad(self, op):
        sim, s = self.sim, self.sys
        peer = s.gw if op["sock"] == "gw" else s.peers[op["n"]]
        if op["sock"] == "unsol":
            sock = sim.net.by_local.get(U)
            ids = sorted(s.peers)
            ip = {"own": s.peers[op["n"]].ip, "gw": GW_IP, "stranger": "fd00:cccc::9", "other": s.peers[ids[-1]].ip}[op["src"]]
            src = (ip, 4123)
        else:
            sock = next((x for x in sim.net.sockets if x.remote == peer.addr), None)
            src = peer.addr
        if sock is None or not sock.connected:
            return
        if op.get("dyn") == "sockerr":
            sim.fault_count["socket-error"] += 1
            sim.net.sock_error(sock)
            return
        self.when[id(op)] = sim.now
        if op.get("quiet"):
            self.quiet.add(sim.now)
        if "data" in op:
            data = bytes.fromhex(op["data"])
        else:
            last = self.lastseq.get(sock, 7)
            far = (last + 100) & 0xFF
            data = {"nack": zwire.nack(last), "oldnack": zwire.nack(far), "nackq": zwire.packet(last, b"", zwire.NACK | zwire.QFULL, zwire.SECURE), "nackopt": zwire.packet(last, b"", zwire.NACK | zwire.OPTERR, zwire.SECURE),
                    "nackext": zwire.packet(last, b"", zwire.NACK, zwire.SECURE, options=[(3, b"\x00\x01\x01\x01\x02\x00\x1a\x03\x05\x01\x02\x03\x04\x05"), (4, b"\x01\x00")]),
                    "strayack": zwire.ack(far), "straywait": zwire.waiting(far, 30), "ackreq": zwire.packet(far, b"\x20\x03\x63", zwire.ACK_REQ), "ackreq0": zwire.packet(far, b"", zwire.ACK_REQ, zwire.SECURE),
                    "kaack": zwire.KEEPALIVE_ACK, "kareq": zwire.KEEPALIVE, "kaboth": b"\x23\x03\xc0"}[op["dyn"]]
        sim.fault_count["bad-" + (op.get("dyn") or self.cfg["mode"])] += 1
        sim.log("inject", op["sock"], data.hex())
        sock.rx.append(("data", data, src))

    def damage(self, frame, src):
        p = frame.payload
        replies = self.sys.gw.respond(frame, src)
        out = [[0, "ack", None]] * frame.ack_request
        for i, r in enumerate(replies):
            node = p[4] if p[:2] == b"\x52\x03" and len(p) > 4 else p[3] if p[:2] in (b"\x52\x05", b"\x52\x07") else None
            for what, n, cut in self.cfg["damage"]:
                if r[:2].hex() == what and (node is None or node == n):
                    self.sim.fault_count["damaged-answer"] += 1
                    self.damaged.setdefault(what, set()).add(node)
                    r = r[:max(cut, 1)]
            out.append([1 + i, "reply", r.hex()])
        return out

    def judge_damage(self):
        sim, s = self.sim, self.sys
        if "5202" in self.damaged:
            return
        for n, eps in self.cfg["nodes"]:
            key = "%d:0" % n
            if key not in s.app.nodes or self.announced[key] != 1:
                sim.fail("not-loaded", "node %d is %s and was announced %d times" % (n, "known" if key in s.app.nodes else "unknown", self.announced[key]))
                return
            if n in self.damaged.get("5204", ()):
                continue
            want = set(CLASSES + ([0x60] if eps else []))
            if set(s.app.nodes[key].supported) != want:
                sim.fail("wrong-classes", "node %s has the command classes %s" % (key, sorted(s.app.nodes[key].supported)))
                return
            if eps and n not in self.damaged.get("5206", ()) and self.announced["%d:1" % n] != 1:
                sim.fail("not-loaded", "endpoint %d:1 was announced %d times" % (n, self.announced["%d:1" % n]))
                return
        if set(self.announced) - {"%d:%d" % (n, e) for n, eps in self.cfg["nodes"] for e in range(128)}:
            sim.fail("unknown-node", "%s" % sorted(self.announced))

    # --- the history ---
    def do(self, op):
        from pyzwave.adapter import TxOptions
        from pyzwave.commandclass import Basic, Battery, ManufacturerSpecific, Version

        sim, s, k = self.sim, self.sys, op["k"]
        key = "%d:%d" % (op["n"], op["ep"])
        node = s.app.nodes.get(key)
        fn = None
        if k == "send" and node:
            fn = lambda: node.send(Basic.Set(value=7))
        elif k == "request" and node:
            get, rep = {"manufacturer": (ManufacturerSpecific.Get, ManufacturerSpecific.Report), "version": (Version.VersionGet, Version.VersionReport), "battery": (Battery.Get, Battery.Report)}[op["what"]]
            fn = lambda: node.sendAndReceive(get(), rep)
        elif k == "query":
            fn = {"info": lambda: s.adapter.getNodeInfo(op["n"]), "endpoints": lambda: s.adapter.getMultiChannelEndPoints(op["n"]), "failed": s.adapter.getFailedNodeList, "mode": lambda: s.adapter.setGatewayMode(1)}[op["what"]]
        elif k == "lookup":
            fn = lambda: s.adapter.ipOfNode(op["n"])
        elif k == "report":
            s.peers[op["n"]].cmd(U, bytes.fromhex(op["data"]), sep=op["ep"], ack_request=bool(op["ack"]), link="n>u")
        elif k == "list":
            s.gw.announce(nodes=[i for i in s.gw.ids() if i not in op["gone"]])
        elif k == "add":
            s.gw.cmd(self.gwlocal(), bytes([0x34, 0x02, 9, 7, 0, 0, 0]), link="gw>c")
            fn = lambda: s.adapter.addNode(TxOptions.NULL)
        if fn:
            out, _ = start(sim, k + " " + op.get("what", ""), fn)
            self.outs.append(out)

    def gwlocal(self):
        return next(x.local for x in self.sim.net.sockets if x.remote == self.sys.gw.addr)

    # --- what can be observed ---
    def observed(self, relaxed):
        out = {}
        out["results"] = [(o.name, o.start, o.end, type(o.exc).__name__, canon(o.value)) for o in self.outs]
        heard = []
        for r in self.recorders:
            heard.append((r.name, [(t, ev, content(args)) for t, _, ev, args in r.log if whole(t)]))
        out["heard"] = sorted(heard)
        tx = []
        for t, dst, data in self.tx:
            if not whole(t) or relaxed and zwire.is_keepalive(data):
                continue
            f = zwire.parse(data)
            if relaxed and f is not None:
                data = (f.f0, f.sep, f.dep, f.payload[:2] + f.payload[3:] if f.payload[:1] in (b"\x52", b"\x34") else f.payload)
            tx.append((t, dst, data))
        out["sent"] = sorted(tx, key=repr) if relaxed else tx
        out["nodes"] = sorted(self.sys.app.nodes)
        return out


def whole(t):
    x = (t - START) / TICK
    return abs(x - round(x)) < 1e-6


def content(args):
    return repr([canon(a) for a in args[1:]])


def run(sim, plan):
    if plan["cfg"]["damage"]:
        world = World(sim, plan, True)
        sim.run(world.scenario)
        sim.nontrivial = bool(sim.fault_count)
        return
    ref = Sim({k: v for k, v in plan.items() if k != "trace"}, sim.max_steps)
    base = World(ref, plan, False)
    ref.run(base.scenario)
    world = World(sim, plan, True)
    sim.run(world.scenario)
    sim.log("without", ref.digest.hexdigest())
    sim.violations.extend(v for v in ref.violations if not sim.violations)
    sim.nontrivial = any(k.startswith("bad-") for k in sim.fault_count)
    if sim.violations:
        return
    mode = plan["cfg"]["mode"]
    a, b = base.observed(mode == "partial"), world.observed(mode == "partial")
    for what in ("results", "heard", "sent", "nodes"):
        if a[what] != b[what]:
            x = [e for e in b[what] if e not in a[what]][:2]
            y = [e for e in a[what] if e not in b[what]][:2]
            sim.fail("disturbed", "%s differ because of the bad datagrams: %s instead of %s" % (what, show(x), show(y)))
            return
    for op in world.ops:
        if op["k"] == "bad" and not op.get("quiet"):
            world.quiet.discard(world.when.get(id(op)))
    loud = [(r.name, ev, content(args)) for r in world.recorders for t, _, ev, args in r.log if t in world.quiet]
    if loud:
        sim.fail("heard", "a datagram that is no message was handed to listeners: %s" % show(loud[:2]))
        return
    if mode == "cannot":
        odd = [(t, dst, d.hex()) for t, dst, d in world.tx if not whole(t)]
        if odd:
            sim.fail("answered", "a datagram that cannot be decoded was answered: %s" % odd[:2])
        elif sim.loop.callback_errors:
            sim.fail("exception", repr(sim.loop.callback_errors[0]))


def show(x):
    s = repr(x)
    return s if len(s) < 500 else s[:500] + "..."
