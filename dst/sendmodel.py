"""Reference model of acknowledged sends, and workloads for it (C01, C02, used by others too)."""
import asyncio
import collections

from . import zwire
from .sim import START, TICK
from .world import NodePeer, NodeInfo, start, GW_IP

EPS = 1e-6


def gen_via(rng):
    """The layer a send is made through, and whether a default timeout is left out."""
    return [rng.weighted([("adapter", 40), ("node", 20), ("nodeep", 10), ("cc", 20), ("ccep", 10)]), rng.chance(0.5)]


def wait_time(delay):
    """How long a 'waiting' notice prolongs a send."""
    if delay in (None, "empty", "other"):
        return 60
    return (120 if delay < 0 else delay) + 60


def classify(data):
    """(seq, kind, delay) of a datagram that matters for acknowledgements, else None."""
    f = zwire.parse(data)
    if f is None:
        return None
    if f.ack:
        return f.seq, "ack", None
    if f.nack and f.f0 & zwire.WAITING:
        delay = None
        ext = f.ext
        while len(ext) >= 2:
            typ, ln = ext[0] & 0x7F, ext[1]
            if typ == 1 and ln == 3:
                delay = int.from_bytes(ext[2:5], "big", signed=True)
            ext = ext[2 + ln:]
        return f.seq, "wait", delay
    return None


def acceptable(t0, timeout, events, slack):
    """All acceptable (result, time) of a send transmitted at t0, given what arrived for it."""
    out = []
    end = t0 + timeout
    for t, kind, delay in events:
        if t > end + slack + EPS:
            break
        if t > end - EPS:
            out.append((False, end))  # tie, or arrived while the process was stalled: either way is fine
        if kind == "ack":
            out.append((True, t))
            return out
        end = t + wait_time(delay)
    out.append((False, end))
    return out


class Sends:
    """Tracks every send of a run and decides its outcome against the model."""

    def __init__(self, sim):
        self.sim = sim
        self.rx = []  # (time, event no, sid, seq, kind, delay)
        self.by_uid = {}
        self.active = {}
        self.tx = {}
        self.full = {}  # all sequence numbers were in use when the send was made
        self.stalled = 0.0
        sim.rx_watch.append(self.on_rx)
        sim.net.on_send.append(self.on_tx)

    def on_rx(self, sock, data, _addr):
        c = classify(data)
        if c:
            self.rx.append((self.sim.now, self.sim.events, sock.sid) + c)
            if c[1] == "ack":
                for key in [k for k, v in self.active.items() if v == (sock.sid, c[0])]:
                    del self.active[key]

    @staticmethod
    def payload(uid):
        return bytes([0x70, 0x04, uid & 0xFF, 4]) + uid.to_bytes(4, "big")

    @staticmethod
    def message(uid):
        from pyzwave.commandclass import Configuration

        return Configuration.Set(parameterNumber=uid & 0xFF, default=False, size=4, value=uid)

    def on_tx(self, now, sock, _dst, data):
        f = zwire.parse(data)
        if f is None or not f.ack_request or len(f.payload) != 8 or f.payload[:2] != b"\x70\x04":
            return
        uid = int.from_bytes(f.payload[4:], "big")
        if uid in self.tx:
            return
        self.tx[uid] = (now, self.sim.events, sock.sid, f.seq)
        for other, key in self.active.items():
            if key == (sock.sid, f.seq):
                self.sim.fail("duplicate-seq", "frames %d and %d are outstanding with the same sequence number %d" % (other, uid, f.seq))
        if uid in self.by_uid and not self.by_uid[uid][0].done:
            self.active[uid] = (sock.sid, f.seq)

    def begin(self, uid, coro_fn, timeout, cancel=None):
        """Start a send as a task; coro_fn() is the API call."""
        sim = self.sim

        def go():
            self.full[uid] = max(collections.Counter(s for s, _ in self.active.values()).values(), default=0) >= 256
            return coro_fn()

        out, task = start(sim, "send%d" % uid, go)
        self.by_uid[uid] = (out, timeout, cancel)
        task.add_done_callback(lambda _t: self.active.pop(uid, None))
        if cancel is not None:
            out_cancel = START + cancel * TICK if False else sim.now + cancel * TICK

            def do_cancel():
                if not task.done():
                    sim.fault_count["cancel"] += 1
                    sim.log("cancel", uid)
                    task.cancel()

            self.by_uid[uid] = (out, timeout, out_cancel)
            sim.at(out_cancel, do_cancel)
        return out, task

    def events_for(self, uid):
        t0, ev0, sid, seq = self.tx[uid]
        return [(t, kind, delay) for (t, ev, s, q, kind, delay) in self.rx if s == sid and q == seq and ev >= ev0]

    def judge(self, uid, prefix=""):
        sim = self.sim
        out, timeout, cancel_at = self.by_uid[uid]
        slack = self.stalled
        if not out.done:
            if uid in self.tx:
                ok = acceptable(self.tx[uid][0], timeout, self.events_for(uid), slack)
                if max(t for _, t in ok) > sim.now - slack - EPS:
                    sim.probe["still-waiting-at-end"] += 1
                    return
                sim.fail(prefix + "send-never-ends", "%s; acceptable: %s" % (out.describe(), fmt(ok)))
                return
            sim.fail(prefix + "send-never-ends", out.describe())
            return
        if uid not in self.tx:
            if cancel_at is not None and out.cancelled:
                return
            if self.full.get(uid) and out.value is False and out.end <= out.start + slack + EPS:
                sim.probe["refused"] += 1
                return
            sim.fail(prefix + "not-transmitted", out.describe())
            return
        t0 = self.tx[uid][0]
        ok = acceptable(t0, timeout, self.events_for(uid), slack)
        if cancel_at is not None and any(t >= cancel_at - EPS - slack for _, t in ok):
            if out.cancelled and abs(out.end - cancel_at) <= slack + EPS:
                return
            if out.cancelled:
                sim.fail(prefix + "late-cancel", out.describe())
                return
            if not any(t <= cancel_at + EPS + slack for _, t in ok) and out.exc is None:
                sim.fail(prefix + "not-cancelled", out.describe())
                return
        if out.exc is not None:
            sim.fail(prefix + "send-error", "%s; acceptable: %s" % (out.describe(), fmt(ok)))
            return
        for res, t in ok:
            if (out.value is True) == res and (out.value in (True, False)) and t - EPS <= out.end <= t + slack + EPS:
                return
        sim.fail(prefix + "wrong-outcome", "%s; transmitted at %.4f, acceptable: %s" % (out.describe(), t0 - START, fmt(ok)))


def fmt(ok):
    return ", ".join("%s at %.4f" % (r, t - START) for r, t in ok)


class Ends:
    """A set of connections (one ZIPConnection per peer) or a gateway with nodes, to send over."""

    def __init__(self, sim, mode, npeers):
        from .world import Gateway

        self.sim = sim
        self.mode = mode
        self.peers = []
        self.conns = []
        self.gw = None
        if mode == "conn":
            for i in range(npeers):
                self.peers.append(NodePeer(sim, NodeInfo(10 + i)))
        else:
            nodes = [NodeInfo(10 + i) for i in range(npeers)]
            self.gw = Gateway(sim, nodes)
            self.peers = [NodePeer(sim, n) for n in nodes]

    async def setup(self):
        from pyzwave.zipconnection import ZIPConnection
        from pyzwave.zipgateway import ZIPGateway

        if self.mode == "conn":
            for p in self.peers:
                c = ZIPConnection(p.ip, b"psk")
                await c.connect()
                self.conns.append(c)
        else:
            self.adapter = ZIPGateway(GW_IP, b"psk")
            await self.adapter.connect()
            from pyzwave.node import Node, NodeEndPoint

            self.nodes = []
            for p in self.peers:
                await self.adapter.connectToNode(p.info.id)
                root = Node(p.info.id, self.adapter, [0x25, 0x70, 0xE0])
                self.nodes.append([root, NodeEndPoint(root, 3, self.adapter, [0x70])])

    def send(self, i, msg, timeout, via=None):
        """A send through one of the layers that offer it; the default timeout is left out if via says so."""
        i %= len(self.peers)
        via, implicit = via or ("adapter", False)
        kw = {} if implicit and timeout == 3 else {"timeout": timeout}
        if self.mode == "conn":
            return self.conns[i].send(msg, **kw)
        if via == "adapter":
            return self.adapter.sendToNode(self.peers[i].info.id, msg, **kw)
        node = self.nodes[i][1 if via.endswith("ep") else 0]
        if via.startswith("cc"):
            return node.supported[0x70].send(msg, **kw)
        return node.send(msg, **kw)


def run_sends(sim, plan, settle):
    """Scenario shared by C01 and C02: sends with scripted answers over one or more connections."""
    cfg, ops = plan["cfg"], plan["ops"]
    sends = Sends(sim)
    ends = Ends(sim, cfg["mode"], cfg["peers"])
    scripts = {}
    last = [0.0]

    def script(frame, _src):
        if len(frame.payload) == 8 and frame.payload[:2] == b"\x70\x04":
            return scripts.get(int.from_bytes(frame.payload[4:], "big"), [[0, "ack", None]])
        return [[0, "ack", None]]

    for p in ends.peers:
        p.script = script

    tasks = []

    def op_send(op):
        uid = op["uid"]
        scripts[uid] = op["script"]
        msg = sends.message(uid)
        _, task = sends.begin(uid, lambda: ends.send(op["peer"], msg, op["timeout"], op.get("via")), op["timeout"], op.get("cancel"))
        tasks.append(task)

    def op_burst(op):
        async def burst():
            for k in range(op["n"]):
                uid = op["uid"] + k
                lost = k in op["lost"]
                scripts[uid] = [] if lost else [[0, "ack", None]]
                msg = sends.message(uid)
                _, t = sends.begin(uid, lambda: ends.send(op["peer"], msg, op["timeout"]), op["timeout"])
                tasks.append(t)
                if op["wait"]:
                    await t
                else:
                    await sim.sleep(op["gap"])

        tasks.append(sim.loop.create_task(burst()))

    def op_stall(op):
        sends.stalled += op["ticks"] * TICK
        sim.stall(op["ticks"])

    def op_rx(op):
        # a stray acknowledgement from a peer
        peer = ends.peers[op["peer"] % len(ends.peers)]
        for sock in list(sim.net.sockets):
            if sock.remote == peer.addr:
                peer.raw(sock.local, bytes.fromhex(op["data"]))

    def op_sockerr(op):
        peer = ends.peers[op["peer"] % len(ends.peers)]
        sim.fault_count["socket-error"] += 1
        for sock in list(sim.net.sockets):
            if sock.remote == peer.addr:
                sim.net.sock_error(sock)

    async def scenario(_sim):
        await ends.setup()
        sim.net.rates = cfg["rates"]
        base = sim.now
        for op in ops:
            h = {"send": op_send, "burst": op_burst, "stall": op_stall, "rx": op_rx, "sockerr": op_sockerr}[op["op"]]
            sim.at(base + op["t"] * TICK, (lambda h=h, op=op: h(op)))
        await sim.until(base + (max([op["t"] for op in ops] or [0]) + 1) * TICK)
        deadline = sim.now + settle
        n = -1
        while tasks and n != len(tasks) and sim.now < deadline:
            n = len(tasks)
            await asyncio.wait(tasks, timeout=deadline - sim.now)
        last[0] = sim.now
        for uid in sorted(sends.by_uid):
            sends.judge(uid)

    sim.run(scenario)
    overlapping = 0
    spans = sorted((o.start, o.end or 1e18) for o, _, _ in sends.by_uid.values())
    for a, b in zip(spans, spans[1:]):
        if b[0] < a[1]:
            overlapping += 1
    sim.probe["overlapping-sends"] += overlapping
    sim.probe["sends"] += len(spans)
    sim.probe["success"] += sum(1 for o, _, _ in sends.by_uid.values() if o.value is True)
    sim.probe["failed"] += sum(1 for o, _, _ in sends.by_uid.values() if o.value is False)
    sim.probe["waiting-notices"] += sum(1 for r in sends.rx if r[4] == "wait")
    sim.probe["exact-tie"] += sum(
        1 for uid, (o, tmo, _) in sends.by_uid.items() if uid in sends.tx
        and any(abs(t - (sends.tx[uid][0] + tmo)) < EPS for t, _, _ in sends.events_for(uid)))
    if sends.tx:
        sim.probe["seq-wrapped"] += 1 if len(sends.tx) > 256 else 0
    sim.nontrivial = overlapping > 0 or bool(sim.fault_count) or sim.probe["failed"] > 0
    return sends
