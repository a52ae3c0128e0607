"""C23: the DTLS reader thread hands over every datagram in order."""
import asyncio
import ctypes
import ssl
import sys
import threading
import types

from ..sim import TICK
from ..threads import Threads
from ..world import start

ID = "C23"
RUNS = {"quick": 10000, "thorough": 500000}
RULE = ("One run = one to three encrypted connections (clients and servers) with their real reader threads, switched between any two lines by the scheduler, receiving bursts of datagrams while the loop is busy or stalled, callbacks are set, replaced or fail, handshakes are slow or fail, "
        "reads fail and stops are requested at every point. Non-trivial: a thread was preempted between two lines or a fault fired.")
REAL = ["pyzwave.dtlsconnection (all of it, with real threads)", "asyncio call_soon_threadsafe, Event, wait_for"]
STUB = ["dtls library and sockets (blocking reads, handshake)", "event loop clock and selector", "operating system thread scheduling"]
SHRINK = ("busy", "cut")
ASSUMPTIONS = ["thread switches happen between lines of pyzwave/dtlsconnection.py and at blocking calls, not inside a line"]

ERRORS = {"ssl": lambda: ssl.SSLError(1, "read failed"), "os": lambda: OSError(104, "reset"), "timeout": lambda: TimeoutError("read"), "value": lambda: ValueError("read"), "attr": lambda: AttributeError("_sslobj")}


def gen(rng, index, tier):
    conns = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        conns.append({"server": int(rng.chance(0.3)), "hs": rng.choice([-1, -1, 0, 1, 3, rng.randint(0, 600), rng.randint(600, 700)]), "fail": int(rng.chance(0.07)),
                      "cb": rng.choice([-1, -1, -1, 0, 1, rng.randint(0, 300), None]), "psk": rng.bytes(rng.choice([1, 16, 16, 32])).hex()})
    ops, t = [], 0
    for i in range(rng.randint(1, 16 if tier == "quick" else 60) if index % 100 != 53 else rng.randint(60, 300)):
        c = rng.randint(0, len(conns) - 1)
        k = rng.weighted([("data", 10), ("err", 0.7), ("attr", 0.5), ("stop", 0.9), ("cb", 0.6), ("bad", 0.6), ("stall", 0.7), ("send", 0.7)])
        op = {"t": t, "k": k, "c": c}
        if k == "data":
            op["data"] = (bytes([i & 255]) * rng.choice([1, 1, 3, 1400, 1500]) if rng.chance(0.9) else b"\x07").hex()
            op["port"] = rng.randint(1, 3)
        elif k == "err":
            op["err"] = rng.choice(["ssl", "ssl", "os", "timeout", "value"])
        elif k == "stall":
            op["ticks"] = rng.choice([1, 5, 60])
        ops.append(op)
        t += rng.choice([0, 0, 0, 0, 1, 1, 2, 5, rng.randint(0, 60), rng.randint(0, 300)])
    return {"cfg": {"conns": conns, "busy": rng.choice([0, 0, 1]), "cut": int(rng.chance(0.4))}, "ops": ops}


class FakeSock:
    """The encrypted socket: reads and the handshake block the calling thread."""

    def __init__(self, conn):
        self.conn = conn
        self._sslobj = types.SimpleNamespace(_ssl=types.SimpleNamespace(value=conn))
        self._connected = False

    def connect(self, addr):
        self.conn.address = addr

    def bind(self, addr):
        self.conn.address = addr

    def listen(self, _n):
        if self.conn.cfg["server"]:
            self.handshake()

    def do_handshake(self):
        self.handshake()

    def handshake(self):
        c = self.conn
        while not c.hs_over:
            c.world.threads.block(c)
        if c.cfg["fail"]:
            raise ssl.SSLError(1, "handshake failed")
        c.shaken = c.world.sim.now
        c.world.sim.log("handshake", c.name)

    def read(self, size):
        c, world = self.conn, self.conn.world
        if threading.get_ident() == world.main:
            world.sim.fail("loop-blocked", "the event loop's thread reads from the socket")
            return b"", ("", 0)
        if c.ready is None:
            c.ready = world.sim.now
        c.reads_begun += 1
        if c.stopped is not None:
            c.reads_after_stop += 1
        while not c.queue:
            world.threads.block(c)
        op = c.queue.pop(0)
        if op["k"] in ("err", "attr"):
            world.sim.fault_count["read-" + op.get("err", "attr")] += 1
            if op["k"] == "err":
                c.broken = world.sim.now
            raise ERRORS[op.get("err", "attr")]()
        data = bytes.fromhex(op["data"])
        addr = ("10.0.0.%d" % op["port"], 41230)
        c.read.append([data, addr, set(c.callbacks) | c.coming, bool(c.callbacks)])
        world.sim.log("read", c.name, len(c.read))
        return data[:size], addr

    def recv(self, size, *_a):
        return self.read(size)[0]

    def recvfrom(self, size, *_a):
        return self.read(size)

    def send(self, data):
        self.conn.sent.append(data)
        return len(data)


class Conn:
    """One connection and what is known about it."""

    def __init__(self, world, i, cfg):
        self.world, self.cfg, self.name = world, cfg, "c%d" % i
        self.queue, self.read, self.sent, self.got = [], [], [], []
        self.hs_over = cfg["hs"] < 0
        self.shaken = self.stopped = self.broken = self.ready = self.address = self.out = None
        self.reads_begun = self.reads_after_stop = 0
        self.psk_cb = None
        self.callbacks = []  # the one that is set
        self.coming = set()  # the one that is being set
        self.made = 0

    def set_callback(self, bad=False):
        world = self.world
        self.made += 1
        number = self.made

        def received(*args):
            if threading.get_ident() != world.main:
                world.sim.fail("wrong-thread", "%s: the message callback ran on the reader thread" % self.name)
                return
            world.sim.log("got", self.name, len(self.got))
            self.got.append((number, args))
            if bad:
                world.sim.fault_count["callback-raises"] += 1
                raise RuntimeError("a message callback fails")

        for r in self.read:  # may not be handed over yet
            r[2].add(number)
        self.coming = {number}
        self.real.onMessage(received)
        self.callbacks[:] = [number]
        self.coming = set()


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.main = threading.get_ident()
        self.threads = None
        self.conns = []
        self.creating = {}

    def load(self):
        """The module under test, on a stub of the dtls library."""
        world = self
        dtls = types.ModuleType("dtls")
        dtls.do_patch = lambda *a: None
        dtls.openssl = types.SimpleNamespace(libssl=None, SSL=None, _make_function=lambda *a: None,
                                             SSL_set_psk_client_callback=lambda value, cb: setattr(value, "psk_cb", cb), SSL_set_psk_server_callback=lambda value, cb: setattr(value, "psk_cb", cb),
                                             SSL_set_info_callback=lambda value, cb: None)
        dtls.wrap_server = lambda sock, **kw: world.wrap(sock)
        sys.modules["dtls"] = dtls
        ssl.wrap_socket = lambda sock, **kw: world.wrap(sock)
        import pyzwave.dtlsconnection as mod
        mod.dtls = dtls
        return mod

    def wrap(self, sock):
        if hasattr(sock, "close"):
            sock.close()
        rec = self.threads.current()
        return FakeSock(self.conns[self.threads.recs.index(rec)] if rec is not None else self.conns[0])

    async def scenario(self, sim):
        mod = self.load()
        loop = asyncio.get_running_loop()
        plain = loop.call_soon

        def call_soon(*a, **kw):
            if threading.get_ident() != self.main:
                sim.fail("not-woken", "the reader thread scheduled something without waking the event loop")
            return plain(*a, **kw)

        loop.call_soon = call_soon
        with Threads(sim, "pyzwave/dtlsconnection.py", bool(self.cfg["cut"])) as self.threads:
            try:
                await self.go(sim, mod)
            finally:
                del loop.call_soon

    async def go(self, sim, mod):
        for i, cfg in enumerate(self.cfg["conns"]):
            c = Conn(self, i, cfg)
            c.real = mod.DTLSConnection()
            self.conns.append(c)
            if cfg["cb"] == -1:
                c.set_callback()
        for c in self.conns:
            n = len(self.threads.recs)
            c.start = sim.now
            psk = bytes.fromhex(c.cfg["psk"])
            if c.cfg["server"]:
                c.real.listen(psk)
            else:
                c.out, _ = start(sim, "connect", lambda c=c, psk=psk: c.real.connect("fd00::1", psk))
                for _ in range(3):
                    if len(self.threads.recs) > n:
                        break
                    await asyncio.sleep(0)
            if len(self.threads.recs) != n + 1:
                sim.fail("no-reader", "%s: %d reader threads were started" % (c.name, len(self.threads.recs) - n))
                return
            c.rec = self.threads.recs[n]
            sim.after(max(0, c.cfg["hs"]), lambda c=c: self.shake(c))
            if c.cfg["cb"] is not None and c.cfg["cb"] >= 0:
                sim.after(c.cfg["cb"], c.set_callback)
        base = sim.now
        for op in self.ops:
            sim.at(base + op["t"] * TICK, lambda op=op: self.do(op))
        if self.cfg["busy"]:
            for i in range(60):
                sim.after(i * 7, lambda: [asyncio.get_event_loop().call_soon(lambda: None) for _ in range(3)])
        await sim.until(base + max(o["t"] for o in self.ops) * TICK if self.ops else base)
        await sim.sleep(64 * 14)
        for c in self.conns:  # readers that are to stop wait for something to read
            if c.stopped is not None and c.rec.state != "ended":
                self.deliver(c, {"k": "data", "data": "ee", "port": 9})
        await sim.sleep(64 * 4)
        for c in self.conns:
            self.judge(c)

    def shake(self, c):
        c.hs_over = True
        if c.cfg["fail"]:
            self.sim.fault_count["handshake-failed"] += 1
        self.threads.unblock(c)

    def deliver(self, c, op):
        c.queue.append(op)
        if c.hs_over:
            self.threads.unblock(c)

    def do(self, op):
        sim = self.sim
        c = self.conns[op["c"]] if op["c"] < len(self.conns) else self.conns[0]
        k = op["k"]
        if k in ("data", "err", "attr"):
            self.deliver(c, op)
        elif k == "stop":
            sim.fault_count["stop"] += 1
            c.real.stop()
            if c.stopped is None:
                c.stopped = sim.now
        elif k in ("cb", "bad"):
            c.set_callback(k == "bad")
        elif k == "stall":
            sim.stall(op["ticks"])
        elif k == "send":
            n, ready = len(c.sent), c.ready is not None
            c.real.send(b"out")
            if ready and c.sent[n:] != [b"out"]:
                sim.fail("send", "%s: what was sent was handed to the socket as %s" % (c.name, c.sent[n:]))

    def judge(self, c):
        sim, out = self.sim, c.out
        name = "%s (%s)" % (c.name, "server" if c.cfg["server"] else "client")
        if out is not None:
            if not out.done:
                sim.fail("connect", "%s: connecting did not end" % name)
            elif out.exc is None and (c.shaken is None or out.end < c.shaken):
                sim.fail("connect", "%s: %s, the handshake was done at %s" % (name, out.describe(), c.shaken))
            elif out.exc is not None and (not out.timeout or c.ready is not None and c.ready < c.start + 9.5):
                sim.fail("connect", "%s: %s, the reader was ready at %s" % (name, out.describe(), c.ready))
            if c.shaken is not None and c.psk_cb is not None:
                identity, psk = ctypes.create_string_buffer(64), ctypes.create_string_buffer(64)
                n = c.psk_cb(None, None, identity, 64, psk, 64)
                if psk.raw[:n] != bytes.fromhex(c.cfg["psk"]):
                    sim.fail("key", "%s: the handshake uses the key %s" % (name, psk.raw[:n].hex()))
        # what was handed over
        at = {0}  # numbers of calls that may have been accounted for
        for i, (data, addr, may, sure) in enumerate(c.read):
            args = (data, addr) if c.cfg["server"] else (data,)
            then = {j + 1 for j in at if j < len(c.got) and tuple(c.got[j][1]) == args and c.got[j][0] in may}
            if not sure:
                then |= at
            if not then:
                j = min(at)
                sim.fail("not-delivered", "%s: datagram %d of %d (%s from %s) was not delivered, next is %s" % (name, i + 1, len(c.read), data[:4].hex(), addr, repr(c.got[j:j + 1])[:60]))
                return
            at = then
        if len(c.got) not in at:
            j = max(at)
            sim.fail("extra", "%s: %d calls too many, the first with %s" % (name, len(c.got) - j, repr(c.got[j][1])[:60]))
        sim.probe["delivered"] += len(c.got)
        # the thread
        if c.reads_after_stop > 1:
            sim.fail("not-stopped", "%s: %d reads were begun after the stop" % (name, c.reads_after_stop))
        if c.rec.state != "ended":
            if c.broken is not None:
                sim.fail("not-ended", "%s: the reader goes on after a read error" % name)
            elif c.stopped is not None:
                sim.fail("not-ended", "%s: the reader goes on after it was stopped" % name)
        elif c.stopped is None and c.broken is None and not c.cfg["fail"]:
            sim.fail("ended", "%s: the reader ended by itself: %r" % (name, c.rec.error))
        if c.rec.state != "ended" and c.queue and c.shaken is not None:
            sim.fail("not-read", "%s: %d datagrams were not read" % (name, len(c.queue)))


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = bool(sim.fault_count)
