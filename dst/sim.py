"""Deterministic simulator: virtual time asyncio loop, datagram network, fault choices.

Everything nondeterministic that pyzwave can observe is decided here:
  * time            - virtual; jumps from event to event (loop.time, time.time, time.monotonic, time.sleep)
  * scheduling      - one single threaded asyncio loop; the order in which the sockets that became
                      readable together are served is a recorded choice, as are all delays
  * the network     - every datagram passes Net.send, which decides drop / duplicate / delay / reorder
  * randomness      - `random` and os.urandom are reseeded per run
One run is a pure function of its plan (JSON): plan["seed"] feeds the keyed chooser, or
plan["choices"] lists the non default choices explicitly (replay and minimisation).
"""
import asyncio
import collections
import hashlib
import heapq
import ipaddress
import os
import random
import time

TICK = 1.0 / 64  # all simulated delays are multiples of it, so sums are exact in floating point
START = 1024.0

_real_monotonic = time.monotonic


class HarnessError(Exception):
    """The simulator itself (not the code under test) is at fault."""


class StepLimit(BaseException):
    """The run needed more scheduler steps than allowed."""


class Rng:
    """Small keyed PRNG (splitmix64)."""

    __slots__ = ("s",)

    def __init__(self, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.s = int.from_bytes(h, "big")

    def u64(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & 0xFFFFFFFFFFFFFFFF
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        return z ^ (z >> 31)

    def random(self):
        return (self.u64() >> 11) / float(1 << 53)

    def chance(self, p):
        return self.random() < p

    def randint(self, a, b):
        return a + self.u64() % (b - a + 1)

    def choice(self, seq):
        return seq[self.u64() % len(seq)]

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.random() * total
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def shuffle(self, seq):
        for i in range(len(seq) - 1, 0, -1):
            j = self.u64() % (i + 1)
            seq[i], seq[j] = seq[j], seq[i]

    def sample(self, seq, k):
        seq = list(seq)
        self.shuffle(seq)
        return seq[:k]

    def bytes(self, n):
        return bytes(self.randint(0, 255) for _ in range(n))


class Chooser:
    """Every run time choice, keyed by place and occurrence, recorded when not the default."""

    def __init__(self, seed, explicit=None):
        self.seed = seed
        self.explicit = explicit
        self.count = collections.Counter()
        self.made = {}

    def pick(self, key, gen, default=None):
        n = self.count[key]
        self.count[key] = n + 1
        k = "%s#%d" % (key, n)
        if self.explicit is not None:
            v = self.explicit.get(k, default)
        else:
            v = gen(Rng(self.seed, k))
        if v != default:
            self.made[k] = v
        return v


def norm_ip(host):
    return ipaddress.ip_address(host).compressed


class SimTransport(asyncio.DatagramTransport):
    """A simulated UDP socket of the code under test."""

    def __init__(self, loop, sim, sid, protocol, local, remote):
        super().__init__()
        self.loop = loop
        self.sim = sim
        self.sid = sid
        self.protocol = protocol
        self.local = local
        self.remote = remote
        self.rx = collections.deque()
        self.closing = False
        self.connected = False

    def get_extra_info(self, name, default=None):
        if name == "peername":
            return self.remote or default
        if name == "sockname":
            return self.local
        return default

    def is_closing(self):
        return self.closing

    def sendto(self, data, addr=None):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be a bytes-like object, not %r" % type(data).__name__)
        if not data:
            return
        if self.remote is not None:
            if addr is not None and (norm_ip(str(addr[0])), addr[1]) != self.remote:
                raise ValueError("Invalid address: must be None or %s" % (self.remote,))
            dst = self.remote
        else:
            if addr is None:
                raise TypeError("no destination address")
            dst = (norm_ip(str(addr[0])), addr[1])
        if self.closing:
            self.sim.log("send-closed", self.sid)
            return
        self.sim.net.from_client(self, bytes(data), dst)

    def _read_ready(self):
        if not self.rx or self.closing:
            return
        kind, data, addr = self.rx.popleft()
        if kind == "err":
            self.sim.log("sockerr", self.sid)
            self.protocol.error_received(OSError(111, "Connection refused"))
            return
        self.sim.log("rx", self.sid, data.hex())
        self.sim.note_rx(self, data, addr)
        self.protocol.datagram_received(data, (addr[0], addr[1], 0, 0))

    def close(self):
        if self.closing:
            return
        self.closing = True
        self.sim.net.closed(self)
        self.loop.call_soon(self._lost, None)

    def abort(self):
        self.close()

    def _lost(self, exc):
        self.protocol.connection_lost(exc)


class SimLoop(asyncio.BaseEventLoop):
    """asyncio's own scheduling code on virtual time."""

    def __init__(self, sim):
        super().__init__()
        self.sim = sim
        self._selector = self
        self._clock_resolution = 1e-9
        self.all_tasks_made = []
        self.callback_errors = []
        self.set_exception_handler(self._on_exc)
        self.set_task_factory(self._make_task)

    def _make_task(self, loop, coro, **kw):
        task = asyncio.Task(coro, loop=loop, **kw)
        self.all_tasks_made.append(task)
        return task

    def _on_exc(self, _loop, context):
        exc = context.get("exception")
        if "handle" in context or "protocol" in context:
            self.callback_errors.append(exc)
            self.sim.log("callback-error", type(exc).__name__)

    def time(self):
        return self.sim.now

    def _write_to_self(self):
        pass

    def close(self):
        if not self.is_closed():
            super().close()

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def work():
            if fut.cancelled():
                return
            try:
                res = func(*args)
            except Exception as e:  # pylint: disable=broad-except
                fut.set_exception(e)
            else:
                fut.set_result(res)

        self.call_soon(work)
        return fut

    # --- selector interface used by BaseEventLoop._run_once ---
    def select(self, timeout):
        sim = self.sim
        sim.steps += 1
        if sim.steps > sim.max_steps:
            raise StepLimit("more than %d scheduler steps" % sim.max_steps)
        sim.fire_due()
        ready = sim.readable()
        if ready or self._ready or timeout == 0 or self._stopping:
            return ready
        nxt_timer = None
        while self._scheduled and self._scheduled[0]._cancelled:
            break  # cancelled heads are removed by _run_once itself before calling select
        if self._scheduled:
            nxt_timer = self._scheduled[0]._when
        nxt_ev = sim.heap[0][0] if sim.heap else None
        if nxt_ev is None and nxt_timer is None:
            sim.idle = True
            self._stopping = True
            return []
        if nxt_ev is not None and (nxt_timer is None or nxt_ev <= nxt_timer):
            sim.now = max(sim.now, nxt_ev)
            sim.fire_due()
            return sim.readable()
        sim.now = max(sim.now, nxt_timer)
        return []

    def _process_events(self, event_list):
        for sock in event_list:
            self._ready.append(asyncio.Handle(sock._read_ready, (), self))

    async def create_datagram_endpoint(self, protocol_factory, local_addr=None, remote_addr=None, **kw):
        sim = self.sim
        sim.last_endpoint_kw = kw
        fail = sim.endpoint_fault(remote_addr)
        if fail:
            await asyncio.sleep(0)
            raise OSError(101, "Network is unreachable")
        protocol = protocol_factory()
        transport = sim.net.open(self, protocol, local_addr, remote_addr)
        waiter = self.create_future()
        self.call_soon(protocol.connection_made, transport)

        def up():
            transport.connected = True
            if not waiter.cancelled():
                waiter.set_result(None)

        self.call_soon(up)
        try:
            await waiter
        except BaseException:
            transport.close()
            raise
        return transport, protocol

    async def shutdown_default_executor(self, *a, **k):
        return


class Net:
    """The simulated network between the code under test and the peers."""

    CLIENT_IP = "fd00:aaaa::3"

    def __init__(self, sim):
        self.sim = sim
        self.sockets = []
        self.by_local = {}
        self.peers = {}
        self.next_port = 40000
        self.sid = 0
        self.sent = []  # (time, sid, dst, data) everything the code under test transmitted
        self.opened = []
        self.rates = {}
        self.exempt = ()  # links that stay free of faults
        self.blocked = {}
        self.on_send = []

    def open(self, loop, protocol, local_addr, remote_addr):
        self.sid += 1
        if local_addr is not None:
            local = (self.CLIENT_IP, local_addr[1])
            if local in self.by_local:
                raise OSError(98, "Address already in use")
        else:
            local = (self.CLIENT_IP, self.next_port)
            self.next_port += 1
        remote = None
        if remote_addr is not None:
            remote = (norm_ip(str(remote_addr[0])), remote_addr[1])
        t = SimTransport(loop, self.sim, self.sid, protocol, local, remote)
        self.sockets.append(t)
        self.by_local[local] = t
        self.opened.append((self.sim.now, t))
        self.sim.log("open", self.sid, remote)
        return t

    def closed(self, t):
        self.sim.log("close", t.sid)
        if t in self.sockets:
            self.sockets.remove(t)
        if self.by_local.get(t.local) is t:
            del self.by_local[t.local]

    def peer(self, addr, handler, name):
        self.peers[(norm_ip(addr[0]), addr[1])] = (handler, name)

    def fault(self, link):
        """Decide what happens to the next datagram on a link."""
        sim = self.sim
        r = self.rates
        if not r or link in self.exempt:
            return None

        def gen(rng):
            d = {}
            if rng.chance(r.get("drop", 0)):
                return {"drop": 1}
            if rng.chance(r.get("dup", 0)):
                d["dup"] = rng.randint(0, r.get("dup_max", 40))
            if rng.chance(r.get("delay", 0)):
                d["delay"] = rng.randint(1, r.get("delay_max", 20))
            return d or None

        d = sim.chooser.pick("net:" + link, gen)
        if d:
            for k in d:
                sim.fault_count["net-" + k] += 1
        return d

    def deliver(self, link, fn):
        """Run fn after the latency and faults of the link. Returns False if dropped."""
        sim = self.sim
        if self.blocked.get(link) or self.blocked.get("*"):
            sim.fault_count["net-partition"] += 1
            sim.log("cut", link)
            return False
        d = self.fault(link) or {}
        if "drop" in d:
            sim.log("drop", link)
            return False
        delay = 1 + d.get("delay", 0)
        sim.after(delay, fn)
        if "dup" in d:
            sim.after(delay + d["dup"], fn)
        return True

    def from_client(self, sock, data, dst):
        sim = self.sim
        sim.log("tx", sock.sid, dst[0], data.hex())
        rec = (sim.now, sock, dst, data)
        self.sent.append(rec)
        for fn in self.on_send:
            fn(*rec)
        peer = self.peers.get(dst)
        if not peer:
            sim.log("noroute", dst)
            return
        handler, name = peer
        self.deliver("c>" + name, lambda: handler(data, sock.local))

    def to_client(self, name, src, dst, data, link=None):
        """A peer sends a datagram to a socket of the code under test."""
        sim = self.sim

        def arrive():
            sock = self.by_local.get(dst)
            if sock is None or sock.closing:
                sim.log("closedport", dst[1])
                return
            if sock.remote is not None and sock.remote != src:
                sim.log("filtered", dst[1])
                return  # connected UDP sockets only see their peer
            sock.rx.append(("data", data, src))

        return self.deliver(link or (name + ">c"), arrive)

    def sock_error(self, sock):
        sock.rx.append(("err", None, None))


class Sim:
    """One simulated run."""

    def __init__(self, plan, max_steps=200000):
        self.plan = plan
        self.frame_flags = (plan.get("cfg") or {}).get("f1") or None
        self.now = START
        self.heap = []
        self.seq = 0
        self.steps = 0
        self.max_steps = max_steps
        self.idle = False
        self.chooser = Chooser(plan.get("seed", 0), plan.get("choices"))
        self.fault_count = collections.Counter()
        self.probe = collections.Counter()
        self.violations = []
        self.net = Net(self)
        self.digest = hashlib.blake2b(digest_size=16)
        self.shape = hashlib.blake2b(digest_size=8)
        self.events = 0
        self.trace = [] if plan.get("trace") else None
        self.endpoint_faults = False
        self.last_endpoint_kw = None
        self.rx_watch = []
        self.order_sockets = True
        self.loop = SimLoop(self)
        self.deferred = []

    # --- bookkeeping ---
    def log(self, what, *info):
        self.events += 1
        line = "%.6f %s %s" % (self.now, what, info)
        self.digest.update(line.encode())
        self.shape.update(what.encode())
        if info:
            self.shape.update(repr(info[0]).encode())
        if self.trace is not None:
            self.trace.append(line)

    def fail(self, kind, detail):
        self.log("VIOLATION", kind)
        if len(self.violations) < 50:
            self.violations.append({"kind": kind, "detail": detail, "t": self.now - START})

    def check(self, cond, kind, detail):
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail)
        return cond

    def note_rx(self, sock, data, addr):
        for fn in self.rx_watch:
            fn(sock, data, addr)

    # --- time ---
    def rel(self):
        return self.now - START

    def at(self, t, fn):
        """Run fn at absolute virtual time t."""
        self.seq += 1
        heapq.heappush(self.heap, (max(t, self.now), self.seq, fn))

    def after(self, ticks, fn):
        self.at(self.now + ticks * TICK, fn)

    def fire_due(self):
        while self.heap and self.heap[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.heap)
            fn()

    def readable(self):
        ready = [s for s in self.net.sockets if s.rx and s.connected]
        if len(ready) > 1 and self.order_sockets:
            n = len(ready)
            rot = self.chooser.pick("sockorder", lambda r: r.randint(0, 5), 0)
            if rot:
                ready = ready[rot % n:] + ready[:rot % n]
                if rot % 2:
                    ready.reverse()
        return ready

    def stall(self, ticks):
        """The process does not get the CPU for a while (slow callback, GC, suspended host)."""
        self.fault_count["stall"] += 1
        self.log("stall", ticks)
        self.now += ticks * TICK

    def endpoint_fault(self, remote):
        if not self.endpoint_faults or remote is None:
            return False
        v = self.chooser.pick("endpoint", lambda r: 1 if r.chance(self.endpoint_faults) else None)
        if v:
            self.fault_count["socket-open-failed"] += 1
        return bool(v)

    def until(self, t):
        """Awaitable: resumes when virtual time reached t (absolute)."""
        fut = self.loop.create_future()
        self.at(t, lambda: fut.done() or fut.set_result(None))
        return fut

    def sleep(self, ticks):
        return self.until(self.now + ticks * TICK)

    # --- running ---
    def run(self, coro_fn):
        """Run the scenario coroutine to its end."""
        loop = self.loop
        state = random.getstate()
        saved = (time.time, time.monotonic, time.sleep, os.urandom)
        random.seed(12345)
        urandom_rng = Rng("urandom")
        time.time = lambda: 1.6e9 + self.now
        time.monotonic = lambda: self.now
        time.sleep = lambda s: setattr(self, "now", self.now + s)
        os.urandom = urandom_rng.bytes
        asyncio.set_event_loop(loop)
        try:
            task = loop.create_task(coro_fn(self))
            task.add_done_callback(lambda _t: loop.stop())
            loop.run_forever()
            if not task.done():
                self.fail("deadlock", "nothing left to happen but the scenario has not finished")
                return
            if task.cancelled():
                raise HarnessError("scenario cancelled")
            exc = task.exception()
            if exc is not None:
                raise exc
        finally:
            time.time, time.monotonic, time.sleep, os.urandom = saved
            random.setstate(state)
            asyncio.set_event_loop(None)
            self._teardown()

    def _teardown(self):
        loop = self.loop
        loop.set_exception_handler(lambda *_: None)
        for t in loop.all_tasks_made:
            if not t.done():
                t._log_destroy_pending = False
                try:
                    t.get_coro().close()
                except BaseException:  # pylint: disable=broad-except
                    pass
            elif not t.cancelled():
                t.exception()  # mark retrieved
        loop._ready.clear()
        loop._scheduled.clear()
        loop.close()


def spawn(sim, coro):
    return sim.loop.create_task(coro)
