"""The simulated Z/IP gateway and Z-Wave nodes (stubs), and helpers to drive pyzwave against them."""
import asyncio

from . import zwire
from .sim import START, TICK, Net, norm_ip

GW_IP = "fd00:aaaa::1"
PORT = 4123


def node_ip(node, gen=0):
    """Address of a node (gen: a node whose address was assigned anew)."""
    return norm_ip("fd00:bbbb::%x:%x" % (gen, node))


class Peer:
    """A Z/IP endpoint: acknowledges frames and answers them, with faults decided by the chooser."""

    def __init__(self, sim, name, ip, faults=None):
        self.sim = sim
        self.name = name
        self.ip = norm_ip(ip)
        self.addr = (self.ip, PORT)
        self.faults = faults or {}
        self.seq = 0
        self.frames = []  # (time, Frame, src)
        self.other = []  # (time, bytes, src)
        self.keepalives = []
        self.responder = None  # fn(frame, src) -> list of reply payloads
        self.script = None  # fn(frame, src) -> list of [delay, what, arg] or None
        self.keepalive_ack = True
        sim.net.peer(self.addr, self.on_data, name)

    # --- sending ---
    def next_seq(self):
        self.seq = (self.seq + 1) & 0xFF
        return self.seq

    def raw(self, dst, data, ticks=0, link=None):
        def go():
            self.sim.net.to_client(self.name, self.addr, dst, data, link)

        if ticks:
            self.sim.after(ticks, go)
        else:
            go()

    def cmd(self, dst, payload, ticks=0, sep=0, dep=0, ack_request=False, seq=None, link=None, options=None):
        seq = self.next_seq() if seq is None else seq
        f1 = None
        if payload and self.sim.frame_flags:
            f1 = self.sim.frame_flags[seq % len(self.sim.frame_flags)]
        self.raw(dst, zwire.packet(seq, payload, zwire.ACK_REQ if ack_request else 0, f1, sep, dep, options), ticks, link)
        return seq

    def act(self, frame, src, steps):
        """Carry out a reply script for a frame."""
        for delay, what, arg in steps:
            self.sim.after(delay, self._action(frame, src, what, arg))

    def _action(self, frame, src, what, arg):
        seq, sep, dep = frame.seq, frame.dep, frame.sep

        def go():
            if what == "ack":
                self.raw(src, zwire.ack(seq, sep, dep))
            elif what == "ackf":  # other flags, and other endpoints than those of the frame
                self.raw(src, zwire.packet(seq, b"", zwire.ACK | (arg >> 16 & 3), arg & 0x3F, sep ^ (arg >> 8 & 1), dep ^ (arg >> 9 & 1)))
            elif what == "ackx":  # an ack with a maintenance report
                self.raw(src, zwire.ack(seq, sep, dep, options=[(3, b"\x00\x01\x01\x01\x02\x00\x1a")]))
            elif what == "nack":
                self.raw(src, zwire.nack(seq, sep, dep, arg or 0))
            elif what == "wait":
                self.raw(src, zwire.waiting(seq, arg, sep, dep))
            elif what == "badack":  # acknowledges some other frame
                self.raw(src, zwire.ack((seq + arg) & 0xFF, sep, dep))
            elif what == "badwait":
                self.raw(src, zwire.waiting((seq + arg) & 0xFF, 200, sep, dep))
            elif what == "reply":
                self.cmd(src, bytes.fromhex(arg), sep=sep, dep=dep)
            elif what == "raw":
                self.raw(src, bytes.fromhex(arg))
            else:
                raise ValueError(what)

        return go

    # --- receiving ---
    def on_data(self, data, src):
        sim = self.sim
        if zwire.is_keepalive(data):
            self.keepalives.append(sim.now)
            if self.keepalive_ack:
                self.raw(src, zwire.KEEPALIVE_ACK)
            return
        frame = zwire.parse(data)
        if frame is None:
            self.other.append((sim.now, data, src))
            self.on_other(data, src)
            return
        self.frames.append((sim.now, frame, src))
        if frame.ack or frame.nack:
            return
        self.on_frame(frame, src)

    def on_other(self, data, src):
        pass

    def kind(self, frame):
        return frame.payload[:2].hex()

    def on_frame(self, frame, src):
        if self.script:
            steps = self.script(frame, src)
            if steps is not None:
                self.act(frame, src, steps)
                return
        f = self.pick_fault(self.kind(frame)) or {}
        replies = self.responder(frame, src) if self.responder else []
        self.answer(frame, src, replies, f)

    def pick_fault(self, kind):
        r = self.faults
        if not r:
            return None

        def gen(rng):
            d = {}
            if rng.chance(r.get("noack", 0)):
                d["noack"] = 1
            if rng.chance(r.get("noreply", 0)):
                d["noreply"] = 1
            if rng.chance(r.get("slow", 0)):
                d["slow"] = rng.randint(1, r.get("slow_max", 64))
            if rng.chance(r.get("slowack", 0)):
                d["slowack"] = rng.randint(1, r.get("slowack_max", 64))
            if rng.chance(r.get("early", 0)):
                d["early"] = 1
            if rng.chance(r.get("dup", 0)):
                d["dup"] = rng.randint(1, r.get("dup_max", 64))
            return d or None

        d = self.sim.chooser.pick("peer:%s:%s" % (self.name, kind), gen)
        if d:
            for k in d:
                self.sim.fault_count["peer-" + k] += 1
        return d

    def answer(self, frame, src, replies, f):
        sep, dep = frame.dep, frame.sep
        ack_at = f.get("slowack", 0)
        if frame.ack_request and "noack" not in f:
            self.raw(src, zwire.ack(frame.seq, sep, dep), ack_at + (1 if f.get("early") else 0))
        if "noreply" in f:
            return
        base = 0 if f.get("early") else 1
        for i, p in enumerate(replies):
            at = base + i + f.get("slow", 0)
            self.cmd(src, p, at, sep, dep)
            if "dup" in f:
                self.cmd(src, p, at + f["dup"], sep, dep)


class NodeInfo:
    def __init__(self, nid, classes=(0x20, 0x25), generic=0x10, specific=1, basic=4, listening=True, endpoints=(), gen=0):
        self.id = nid
        self.classes = list(classes)
        self.generic, self.specific, self.basic = generic, specific, basic
        self.listening = listening
        self.endpoints = list(endpoints)  # (generic, specific, classes)
        self.ip = node_ip(nid, gen)


class Gateway(Peer):
    """Simulated gateway: network management, address lookups, its own settings."""

    def __init__(self, sim, nodes=(), faults=None, mode=1, controller=1, ip=GW_IP):
        super().__init__(sim, "gw", ip, faults)
        self.nodes = {n.id: n for n in nodes}
        self.controller = controller
        self.mode = mode
        self.failed = set()
        self.responder = self.respond
        self.solicited = []
        self.mutes = set()
        self.extra = None  # fn(frame, src) -> replies or None: answers of the scenario itself
        self.adv_fault = faults or {}
        self.nm_log = []  # (time, payload) of network management commands

    def ids(self):
        return sorted(set(self.nodes) | {self.controller})

    def on_other(self, data, src):
        node = zwire.solicitation(data)
        if node is None:
            return
        self.solicited.append((self.sim.now, node, src))
        r = self.adv_fault

        def gen(rng):
            d = {}
            if rng.chance(r.get("adv_drop", 0)):
                return {"drop": 1}
            if rng.chance(r.get("adv_slow", 0)):
                d["slow"] = rng.randint(1, r.get("adv_slow_max", 64))
            if rng.chance(r.get("adv_dup", 0)):
                d["dup"] = rng.randint(1, r.get("adv_slow_max", 64))
            return d or None

        f = self.sim.chooser.pick("adv:%d" % node, gen) or {}
        for k in f:
            self.sim.fault_count["adv-" + k] += 1
        info = self.nodes.get(node)
        ip = info.ip if info else (self.ip if node == self.controller else None)
        if ip is None or "drop" in f:
            return
        adv = zwire.advertisement(node, ip)
        self.raw(src, adv, f.get("slow", 0))
        if "dup" in f:
            self.raw(src, adv, f.get("slow", 0) + f["dup"])

    def respond(self, frame, src):
        p = frame.payload
        if self.extra:
            res = self.extra(frame, src)
            if res is not None:
                return res
        if len(p) < 2:
            return []
        cc, c = p[0], p[1]
        if cc in (0x52, 0x34):
            self.nm_log.append((self.sim.now, p))
        if cc == 0x5F and c == 0x02:
            return [bytes([0x5F, 0x03, self.mode])]
        if cc == 0x5F and c == 0x01:
            self.mode = p[2]
            return []
        if cc == 0x52 and len(p) >= 3:
            seq = p[2]
            if c == 0x01:
                return [zwire.node_list_report(seq, self.ids(), self.controller)]
            if c == 0x0B:
                return [zwire.failed_list_report(seq, self.failed)]
            if c == 0x03 and len(p) >= 5:
                n = self.nodes.get(p[4])
                if n:
                    return [zwire.node_info_report(seq, n.listening, n.basic, n.generic, n.specific, n.classes)]
            if c == 0x05 and len(p) >= 4:
                n = self.nodes.get(p[3])
                if n:
                    return [zwire.endpoint_report(seq, n.id, len(n.endpoints))]
            if c == 0x07 and len(p) >= 5:
                n = self.nodes.get(p[3])
                ep = p[4] & 0x7F
                if n and 1 <= ep <= len(n.endpoints):
                    g, s, cl = n.endpoints[ep - 1]
                    return [zwire.capability_report(seq, n.id, ep, g, s, cl)]
        return []

    def announce(self, dst=(Net.CLIENT_IP, PORT), seq=0, nodes=None, ticks=0):
        """Send an unsolicited node list report."""
        ids = self.ids() if nodes is None else nodes
        self.cmd(dst, zwire.node_list_report(seq, ids, self.controller), ticks, link="gw>u")

    def unsolicited(self, payload, dst=(Net.CLIENT_IP, PORT), **kw):
        return self.cmd(dst, payload, link="gw>u", **kw)


class NodePeer(Peer):
    """A simulated Z-Wave node behind its own address."""

    def __init__(self, sim, info, faults=None):
        super().__init__(sim, "n%d" % info.id, info.ip, faults)
        self.info = info

    def report(self, payload, **kw):
        """A report on its own initiative (to the unsolicited port)."""
        return self.cmd((Net.CLIENT_IP, PORT), payload, link=self.name + ">u", **kw)


class Outcome:
    """Result of one API call."""

    __slots__ = ("start", "end", "value", "exc", "name", "ev0", "ev1")

    def __init__(self, name, start, ev0):
        self.name, self.start, self.ev0 = name, start, ev0
        self.end = self.ev1 = None
        self.value = self.exc = None

    done = property(lambda s: s.end is not None)
    cancelled = property(lambda s: isinstance(s.exc, asyncio.CancelledError))
    timeout = property(lambda s: isinstance(s.exc, asyncio.TimeoutError))

    def describe(self):
        if not self.done:
            return "%s still pending" % self.name
        if self.exc is not None:
            return "%s raised %s(%s) at %.4f" % (self.name, type(self.exc).__name__, self.exc, self.end - START)
        return "%s returned %r at %.4f" % (self.name, self.value, self.end - START)


async def call(sim, name, coro):
    """Await an API call, recording what happened; never raises (except to cancellation: recorded)."""
    out = Outcome(name, sim.now, sim.events)
    await into(sim, out, coro)
    return out


async def into(sim, out, coro):
    try:
        out.value = await coro
    except asyncio.CancelledError as e:
        out.exc = e
    except Exception as e:  # pylint: disable=broad-except
        out.exc = e
    out.end = sim.now
    out.ev1 = sim.events
    sim.log("done", out.name, type(out.exc).__name__ if out.exc is not None else brief(out.value))
    return out


def brief(value):
    """repr of a value, without memory addresses"""
    text = repr(value)
    return type(value).__name__ if " at 0x" in text else text[:60]


def start(sim, name, coro_fn):
    """Start an API call as its own task; returns (outcome, task)."""
    out = Outcome(name, sim.now, sim.events)

    async def go():
        await into(sim, out, coro_fn())

    task = sim.loop.create_task(go())

    def never_ran(t):
        if out.end is None and t.cancelled():
            out.exc = asyncio.CancelledError()
            out.end = sim.now
            out.ev1 = sim.events

    task.add_done_callback(never_ran)
    return out, task


def schedule_ops(sim, ops, handlers):
    """Register every op of the plan; handlers[op['op']](op) runs at op['t'] ticks after START."""
    for op in ops:
        h = handlers[op["op"]]
        sim.at(START + op["t"] * TICK, (lambda h=h, op=op: h(op)))


def horizon(ops):
    return max([op["t"] for op in ops] or [0])


class Recorder:
    """Listener that records what it is told. kinds: event name -> True (plain) or 'async'."""

    def __init__(self, sim, name, **kinds):
        self.sim = sim
        self.name = name
        self.log = []  # (time, event no, event, args)
        for ev, kind in kinds.items():
            setattr(self, ev, self._make(ev, kind))

    def _make(self, ev, kind):
        ret = kind if not isinstance(kind, (str, bool)) else None

        def note(*args):
            self.sim.log("heard", self.name, ev)
            self.log.append((self.sim.now, self.sim.events, ev, args))

        if kind == "async":
            async def method(*args):
                note(*args)
                return ret
        else:
            def method(*args):
                note(*args)
                return ret
        return method

    def of(self, ev):
        return [e for e in self.log if e[2] == ev]


class System:
    """Gateway, nodes, ZIPGateway adapter and Application, up and running."""

    def __init__(self, sim, infos, faults=None, node_faults=None, storage=None):
        self.sim = sim
        self.gw = Gateway(sim, infos, faults)
        self.peers = {n.id: NodePeer(sim, n, node_faults) for n in infos}
        self.adapter = self.app = None
        self.storage = storage

    def make(self):
        from pyzwave.application import Application
        from pyzwave.persistantstorage import PersistantStorage
        from pyzwave.zipgateway import ZIPGateway

        self.adapter = ZIPGateway(GW_IP, b"psk")
        self.storage = self.storage or PersistantStorage()
        self.app = Application(self.adapter, self.storage)

    async def up(self, preconnect=True):
        self.make()
        await self.adapter.connect()
        await self.app.startup()
        if preconnect:
            for nid in sorted(self.gw.nodes):
                await self.adapter.connectToNode(nid)

    def socket_of(self, nid):
        """The socket pyzwave uses towards a node (None if there is none)."""
        addr = self.peers[nid].addr
        for s in self.sim.net.sockets:
            if s.remote == addr:
                return s
        return None


def kill_process(sim, keep):
    """The process running the code under test dies now: its tasks, timers and sockets are gone without
    running another instruction. To be called from a simulator event; keep: tasks of the harness."""
    loop = sim.loop
    for sock in list(sim.net.sockets):
        sock.closing = True
        sim.net.closed(sock)
    for task in loop.all_tasks_made:
        if task in keep or task.done():
            continue
        task._log_destroy_pending = False
        try:
            task.get_coro().close()
        except BaseException:  # pylint: disable=broad-except
            pass
    loop.all_tasks_made[:] = [t for t in loop.all_tasks_made if t in keep or t.done()]
    for handle in list(loop._scheduled) + list(loop._ready):
        handle.cancel()
    loop._ready.clear()
    del loop.callback_errors[:]
