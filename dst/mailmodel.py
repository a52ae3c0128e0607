"""Workload and reference model for the mailbox service: C10, C11.

Two environments: "full" - the real gateway adapter and connections against the simulated gateway;
"stub" - an adapter whose sendToNode has simulated durations, results and errors. Both produce the
same kind of history: frames given to the mailbox proxy, how each ended, and what arrived.
"""
import asyncio

from . import zwire
from .sim import START, TICK
from .world import GW_IP, Gateway, NodeInfo, NodePeer, start

PUSH, POP, WAITING, PING, ACK = 0, 1, 2, 3, 4
EPS = 1e-6
WINDOW = 3.0


def crc16(data):
    """CRC-16/AUG-CCITT, to keep the workload free of accidental checksum collisions."""
    crc = 0x1D0F
    for b in data:
        crc ^= b << 8
        for _ in range(8):
            crc = ((crc << 1) ^ 0x1021) & 0xFFFF if crc & 0x8000 else (crc << 1) & 0xFFFF
    return crc


def gen_mail(rng, tier, pid, big=False):
    mode = "full" if rng.chance(0.7) else "stub"
    nq = rng.randint(1, 3)
    queues = []
    for i in range(nq):
        node = 1 if mode == "full" and rng.chance(0.7) else rng.choice([1, 7, 8])
        queues.append([rng.randint(1, 250), node])
    queues = [q for i, q in enumerate(queues) if q[0] not in [p[0] for p in queues[:i]]]
    seen, pool = set(), []
    for i in range(rng.randint(2, 6) if not big else rng.randint(3, 60)):
        d = bytes([0x20, 0x01, i]) + rng.bytes(rng.randint(0, 4))
        if rng.chance(0.15):  # long entries that differ only somewhere
            d = bytearray(range(rng.choice([48, 90, 200])))
            d[rng.randint(2, len(d) - 1)] ^= 0x80
            d = bytes(d)
        if crc16(d) not in seen:
            seen.add(crc16(d))
            pool.append(d.hex())
    ops = []
    t = 64
    n = rng.randint(4, 24 if tier == "quick" else 40) if not big else rng.randint(60, 200)
    pushes = rng.choice([0.45, 0.7, 0.9]) if big else 0.45
    long = pid == "C11"
    for i in range(n):
        q = rng.randint(0, len(queues) - 1)
        r = rng.random()
        if r < pushes:
            d = rng.choice(pool)
            ops.append({"t": t, "op": "push", "q": q, "data": d})
            while rng.chance(0.25):
                ops.append({"t": t + rng.choice([0, 0, 1, 3, 20, 200]), "op": "push", "q": q, "data": d if rng.chance(0.7) else rng.choice(pool)})
        elif r < pushes + 0.25:
            ops.append({"t": t, "op": "wake", "q": q})
            while rng.chance(0.2):
                ops.append({"t": t + rng.choice([0, 1, 5, 40, 150]), "op": rng.choice(["wake", "ack"]), "q": q})
        else:
            ops.append({"t": t, "op": "ack", "q": q, "nohandle": 0})
        r = rng.random()
        if r < 0.25:
            step = rng.randint(0, 4)
        elif r < 0.6:
            step = rng.randint(1, 400)
        elif r < 0.85:
            step = rng.randint(200, 6000)
        else:
            step = rng.choice([3840, 3840 + 64, 3839, 38400, rng.randint(3000, 60000 if long else 20000)])
        t += step if not big else step // 20
    # a node that goes through its queue: wake up, then acknowledge each delivery
    if rng.chance(0.5):
        q = rng.randint(0, len(queues) - 1)
        ops.append({"t": t, "op": "wake", "q": q})
        for i in range(rng.randint(1, 5) if not big else rng.randint(5, 120)):
            t += rng.choice([1, 10, 64, 250])
            ops.append({"t": t, "op": "ack", "q": q, "nohandle": 1})
    faults = {}
    if rng.chance(0.75):
        faults = {"noack": rng.choice([0, 0.1, 0.3]), "slowack": rng.choice([0, 0.2, 0.6]), "slowack_max": rng.choice([4, 100])}
        if mode == "stub":
            faults["raise"] = rng.choice([0, 0.1, 0.3])
            faults["verylong"] = rng.choice([0, 0.1])
    rates = {}
    if mode == "full" and rng.chance(0.5):
        rates = {"drop": rng.choice([0, 0.05, 0.2]), "dup": rng.choice([0, 0.1]), "dup_max": 60, "delay": rng.choice([0, 0.3]), "delay_max": rng.choice([3, 30])}
    tail = rng.choice([0, 0, 700, 4000]) if long else rng.choice([0, 100])
    if big:
        tail = rng.choice([0, 300])
    elif long and rng.chance(0.03):
        # what is pushed last waits for days
        tail = rng.choice([90000, 180000]) if mode == "full" else rng.choice([90000, 180000, 700000])
        ops.append({"t": t, "op": "push", "q": q, "data": rng.choice(pool)})
    return {"cfg": {"mode": mode, "queues": queues, "faults": faults, "rates": rates, "tail": tail}, "ops": sorted(ops, key=lambda o: o["t"])}


def gen_huge(rng):
    """Queues with very many entries, some of them given a second time."""
    mode = rng.choice(["full", "stub"])
    queues = [[h, 1] for h in rng.sample(range(1, 250), rng.randint(1, 2))]
    seen, pool = set(), []
    for i in range(rng.randint(101, 270)):
        d = bytes([0x20, 0x01, i & 0xFF, i >> 8]) + rng.bytes(rng.randint(0, 4))
        if crc16(d) not in seen:
            seen.add(crc16(d))
            pool.append(d.hex())
    ops, t = [], 64
    for q in range(len(queues)):
        for d in pool if q == 0 else rng.sample(pool, 20):
            ops.append({"t": t, "op": "push", "q": q, "data": d})
            t += rng.randint(0, 6)
    t += 200
    for d in rng.sample(pool, 12) + pool[:2] + pool[-2:]:
        ops.append({"t": t, "op": "push", "q": 0, "data": d})
        t += rng.randint(0, 6)
    ops.append({"t": t, "op": "wake", "q": 0})
    for i in range(rng.choice([0, 10, 150])):
        t += rng.randint(4, 20)
        ops.append({"t": t, "op": "ack", "q": 0, "nohandle": 1})
    faults = rng.choice([{}, {"noack": 0.02, "slowack": 0.2, "slowack_max": 10}])
    return {"cfg": {"mode": mode, "queues": queues, "faults": faults, "rates": {}, "tail": 0}, "ops": ops}


class MailWorld:
    def __init__(self, sim, plan):
        self.sim = sim
        self.cfg = plan["cfg"]
        self.ops = plan["ops"]
        self.queues = self.cfg["queues"]
        self.hist = []  # ("tx", t, id, node, op, handle, data, last) / ("end", t, id, ok) / ("push"/"wake"/"ack", t, q, data)
        self.open = {}  # (sid, seq) -> id
        self.n = 0
        self.service = None
        self.faults_on = True
        self.other = []  # frames of the mailbox command class that are none of those

    # --- history ---
    def note(self, *item):
        self.hist.append(item)

    def tx(self, node, payload, key):
        if len(payload) < 4:
            self.sim.fail("malformed-frame", payload.hex())
            return None
        self.n += 1
        op, last = payload[2] & 7, bool(payload[2] & 8)
        if payload[2] & 0xF0:
            self.sim.fail("malformed-frame", payload.hex())
        self.note("tx", self.sim.now, self.n, node, op, payload[3], bytes(payload[4:]), last)
        if key is not None:
            self.open[key] = self.n
            n = self.n

            def close():
                if self.open.get(key) == n:
                    del self.open[key]
                    self.note("end", self.sim.now, n, False)

            self.sim.at(self.sim.now + WINDOW, close)
        return self.n

    # --- full environment ---
    def on_tx(self, _now, sock, dst, data):
        f = zwire.parse(data)
        if f is None or f.payload[:2] != b"\x69\x04":
            return
        node = next((n for n, p in self.addr.items() if p == dst), None)
        self.tx(node, f.payload, (sock.sid, f.seq))

    def on_rx(self, sock, data, addr):
        f = zwire.parse(data)
        if f is None:
            return
        if f.ack:
            n = self.open.pop((sock.sid, f.seq), None)
            if n is not None:
                self.note("end", self.sim.now, n, True)
            return
        if sock.remote is None:
            self.arrived(f.payload)

    def arrived(self, p):
        if p[:2] == b"\x69\x05":
            self.note("wake", self.sim.now, p[2], b"")
        elif p[:2] == b"\x69\x04" and p[2] & 7 == PUSH:
            self.note("push", self.sim.now, p[3], bytes(p[4:]))
        elif p[:2] == b"\x69\x04" and p[2] & 7 == ACK:
            self.note("ack", self.sim.now, p[3], b"")

    async def setup_full(self):
        from pyzwave.mailbox import MailboxService
        from pyzwave.zipgateway import ZIPGateway

        sim = self.sim
        infos = [NodeInfo(7), NodeInfo(8)]
        self.gw = Gateway(sim, infos)
        self.peers = {1: self.gw, 7: NodePeer(sim, infos[0]), 8: NodePeer(sim, infos[1])}
        self.addr = {n: p.addr for n, p in self.peers.items()}
        sim.net.on_send.append(self.on_tx)
        sim.rx_watch.append(self.on_rx)
        self.adapter = ZIPGateway(GW_IP, b"psk")
        await self.adapter.connect()
        self.service = MailboxService(self.adapter)
        for n in self.peers:
            await self.adapter.connectToNode(n)
        for p in self.peers.values():
            p.pick_fault = self.pick_fault
        sim.net.rates = self.cfg["rates"]

    def pick_fault(self, kind):
        if kind != "6904" or not self.faults_on:
            return None
        r = self.cfg["faults"]
        if not r:
            return None

        def gen(rng):
            if rng.chance(r.get("noack", 0)):
                return {"noack": 1}
            if rng.chance(r.get("slowack", 0)):
                # never close to the end of the window, so that the outcome is unambiguous
                return {"slowack": rng.randint(1, r["slowack_max"]) if rng.chance(0.85) else rng.randint(300, 500)}
            return None

        d = self.sim.chooser.pick("mailack", gen)
        for k in d or ():
            self.sim.fault_count["mail-" + k] += 1
        return d

    # --- stub environment ---
    async def setup_stub(self):
        from pyzwave.adapter import Adapter
        from pyzwave.mailbox import MailboxService

        world = self

        async def send_to_node(_self, nodeId, cmd, **_kw):
            return await world.stub_send(nodeId, cmd)

        names = {n: (lambda *a, **k: None) for n in Adapter.__abstractmethods__}
        names["sendToNode"] = send_to_node
        cls = type("StubAdapter", (Adapter,), names)
        self.adapter = cls()
        self.service = MailboxService(self.adapter)

    async def stub_send(self, node, cmd):
        sim = self.sim
        data = cmd.compose()
        r = self.cfg["faults"] if self.faults_on else {}

        def gen(rng):
            d = {}
            if rng.chance(r.get("raise", 0)):
                d["raise"] = rng.choice(["timeout", "oserror"])
            elif rng.chance(r.get("noack", 0)):
                return {"fail": 1}
            if rng.chance(r.get("verylong", 0)):
                d["wait"] = rng.randint(1000, 20000)
            elif rng.chance(r.get("slowack", 0)):
                d["wait"] = rng.randint(1, r["slowack_max"])
            return d or None

        d = sim.chooser.pick("stubsend", gen) or {}
        for k in d:
            sim.fault_count["stub-" + k] += 1
        sim.log("stub-tx", node, data.hex())
        n = self.tx(node, data, None)
        ok = False
        try:
            await sim.sleep(192 if "fail" in d else d.get("wait", 2))
            if d.get("raise") == "timeout":
                raise asyncio.TimeoutError()
            if d.get("raise") == "oserror":
                raise OSError(101, "Network is unreachable")
            ok = "fail" not in d
            return ok
        finally:
            self.note("end", sim.now, n, ok)

    def inject(self, node, payload):
        if self.cfg["mode"] == "full":
            p = self.peers[node]
            p.cmd(("fd00:aaaa::3", 4123), payload, link=p.name + ">u")
            return
        from pyzwave.message import Message

        self.sim.log("inject", node, payload.hex())
        self.arrived(payload)
        self.adapter.speak("messageReceived", node, 0, Message.decode(payload), 0)

    def op(self, op):
        handle, node = self.queues[op["q"] % len(self.queues)]
        if op["op"] == "push":
            self.inject(node, bytes([0x69, 0x04, PUSH, handle]) + bytes.fromhex(op["data"]))
        elif op["op"] == "wake":
            self.inject(node, bytes([0x69, 0x05, handle]))
        elif op["op"] == "ack":
            # the gateway leaves the handle out (zero) when acknowledging the delivery just made
            h = handle
            # (only where it cannot matter which of several nodes it comes from when datagrams overtake)
            if op.get("nohandle") and self.last_wake() == handle and len({n for _, n in self.queues}) == 1:
                h = 0
            self.inject(node, bytes([0x69, 0x04, ACK, h]))

    def last_wake(self):
        for h in reversed(self.hist):
            if h[0] == "wake":
                return h[2]
        return None

    async def scenario(self, _sim):
        sim = self.sim
        await (self.setup_full() if self.cfg["mode"] == "full" else self.setup_stub())
        base = sim.now
        for op in self.ops:
            sim.at(base + op["t"] * TICK, (lambda op=op: self.op(op)))
        end = base + (max([o["t"] for o in self.ops] or [0]) + 1) * TICK
        await sim.until(end)
        await sim.sleep(self.cfg["tail"] * 64 + 64 * 400)
        # faults stop; every queue is emptied by a well behaved node
        self.faults_on = False
        sim.net.rates = {}
        await sim.sleep(64 * 200)
        self.drain_from = sim.now
        for handle, node in self.queues:
            for i in range(40 + len(self.ops)):
                before = len(self.hist)
                self.inject(node, bytes([0x69, 0x05, handle]) if i == 0 else bytes([0x69, 0x04, ACK, handle]))
                await sim.sleep(64 * 4)
                pops = [h for h in self.hist[before:] if h[0] == "tx" and h[4] == POP and h[5] == handle]
                if not pops or not pops[-1][6]:
                    break
        await sim.sleep(64 * 700)
        self.end = sim.now

    # --- reference model ---
    def judge(self, what):
        """what: "queue" (C10) or "heartbeat" (C11)."""
        sim = self.sim
        owner = {h: n for h, n in self.queues}
        queue = {h: [] for h, _ in self.queues}  # accepted entries, oldest first
        snaps = {h: [] for h, _ in self.queues}  # states of this instant
        instant = None
        pushes = {}  # (handle, data) -> pushes received
        first = {}  # (handle, data) -> initial announcements sent
        beats = {}  # (handle, data) -> list of heartbeats of the entry now queued
        accepted = {}
        frames = {}
        triggers = {h: 0 for h, _ in self.queues}
        pops = {h: 0 for h, _ in self.queues}
        lastwake = None
        entries = []
        seen, done, initial = set(), set(), set()

        def fail(kind, detail):
            sim.fail(kind, detail)

        for i, ev in enumerate(self.hist):
            t = ev[1]
            if t != instant:
                instant = t
                snaps = {h: [list(q)] for h, q in queue.items()}
            if ev[0] == "push":
                key = (ev[2], ev[3])
                sim.probe["push"] += 1
                seen.add(key)
                if ev[3] in queue.get(ev[2], []):
                    sim.probe["push-duplicate"] += 1
                    busy = any(f[4] == WAITING and f[5] == ev[2] and n not in done and n in initial for n, f in frames.items())
                    same = any(e[0] == "push" and e[2] == ev[2] and e[1] == t and e is not ev for e in self.hist[max(0, i - 30):i + 30])
                    if not busy and not same:
                        continue  # is not queued again
                pushes[key] = pushes.get(key, 0) + 1
            elif ev[0] == "wake":
                lastwake = ev[2]
                triggers[ev[2]] += 1
            elif ev[0] == "ack":
                h = ev[2] or lastwake
                if h in triggers:
                    triggers[h] += 1
            elif ev[0] == "tx":
                _, _, n, node, op, handle, data, last = ev
                frames[n] = ev
                if handle not in owner or node != owner[handle]:
                    fail("wrong-destination", "frame %s for queue %d sent to node %s at %.4f" % (data.hex(), handle, node, t - START))
                    return
                if op == POP:
                    pops[handle] += 1
                    states = snaps[handle] + [list(queue[handle])]
                    ok = any((not q and not data and last) or (q and data == q[0] and last == (len(q) == 1)) for q in states)
                    if what == "queue" and not ok:
                        fail("wrong-delivery", "queue %d holds %s (oldest first), but %s%s was delivered at %.4f" % (
                            handle, [d.hex() for d in queue[handle]], data.hex() or "nothing", " (last)" if last else "", t - START))
                        return
                    if what == "queue" and pops[handle] > triggers[handle]:
                        fail("unrequested-delivery", "delivery number %d on queue %d after %d triggers" % (pops[handle], handle, triggers[handle]))
                        return
                    sim.probe["pop" if data else "pop-empty"] += 1
                elif op in (WAITING, PING):
                    key = (handle, data)
                    if last and what == "heartbeat":
                        fail("wrong-heartbeat", "notice flagged as last")
                    if data in queue[handle]:
                        beats[key].append(ev)
                    elif pushes.get(key, 0) > first.get(key, 0) and op == WAITING:
                        first[key] = first.get(key, 0) + 1
                        initial.add(n)
                        sim.probe["announce"] += 1
                    elif any(data in q for q in snaps[handle]):
                        pass  # delivered in this very instant
                    else:
                        fail("unknown-announced", "%s for queue %d announced at %.4f, which is not queued" % (data.hex(), handle, t - START))
                        return
                else:
                    fail("unexpected-operation", "operation %d sent" % op)
                    return
            elif ev[0] == "end":
                _, _, n, ok = ev
                done.add(n)
                fr = frames[n]
                _, _, _, _, op, handle, data, _ = fr
                if op == POP and ok and data and data in queue[handle]:
                    queue[handle].remove(data)
                    key = (handle, data)
                    entries.append((key, accepted.pop(key), t, beats.pop(key)))
                    sim.probe["delivered"] += 1
                elif op == POP and data and not ok:
                    sim.probe["delivery-failed"] += 1
                elif op == WAITING and ok and data not in queue[handle]:
                    # could be a notice sent before the entry was delivered
                    key = (handle, data)
                    if fr in [b for e in entries if e[0] == key for b in e[3]]:
                        continue
                    queue[handle].append(data)
                    accepted[key] = t
                    beats[key] = []
                elif op == WAITING and not ok:
                    sim.probe["announce-failed"] += 1
                snaps[handle].append(list(queue[handle]))
        ends = {e[2]: e for e in self.hist if e[0] == "end"}
        if what == "queue":
            for h, q in queue.items():
                if q:
                    fail("undelivered", "queue %d still holds %s after being emptied" % (h, [d.hex() for d in q]))
            for h in pops:
                if pops[h] != triggers[h]:
                    fail("missing-delivery", "%d triggers on queue %d, but %d deliveries" % (triggers[h], h, pops[h]))
            for key in sorted(seen):
                if not first.get(key):
                    fail("push-ignored", "%s for queue %d was never announced" % (key[1].hex(), key[0]))
            self.judge_ignored(fail)
            return
        for key in accepted:
            entries.append((key, accepted[key], None, beats[key]))
        for key, ta, td, got in entries:
            self.judge_beats(key, ta, td, got, ends, fail)

    def judge_ignored(self, fail):
        """A push of something not queued, with nothing else going on, is announced."""
        for i, ev in enumerate(self.hist):
            if ev[0] != "push":
                continue
            near = [e for e in self.hist if abs(e[1] - ev[1]) <= 40.0 and e is not ev]
            if self.cfg["mode"] == "full" and any(e[0] == "push" and e[2] == ev[2] for e in near):
                continue
            if self.cfg["mode"] == "stub" and (self.cfg["faults"].get("verylong") or any(e[0] == "push" and e[2] == ev[2] for e in near)):
                continue
            # queued?
            queued = False
            for e in self.hist[:i]:
                if e[0] == "end" and e[3]:
                    fr = next(x for x in self.hist if x[0] == "tx" and x[2] == e[2])
                    if fr[5] == ev[2] and fr[6] == ev[3]:
                        queued = fr[4] != POP
            if queued:
                continue
            if not any(e[0] == "tx" and e[4] == WAITING and e[5] == ev[2] and e[6] == ev[3] and e[1] >= ev[1] for e in near):
                fail("push-ignored", "%s for queue %d pushed at %.4f was not announced" % (ev[3].hex(), ev[2], ev[1] - START))
                return

    def judge_beats(self, key, ta, td, got, ends, fail):
        sim = self.sim
        nxt = ta + 60
        k = 0
        stop = td if td is not None else self.end
        got = list(got)
        name = "entry %s of queue %d (accepted at %.4f%s)" % (key[1].hex(), key[0], ta - START, "" if td is None else ", delivered at %.4f" % (td - START))
        while nxt < stop - EPS:
            k += 1
            if not got:
                fail("heartbeat-missing", "%s: heartbeat %d due at %.4f was not sent" % (name, k, nxt - START))
                return
            b = got.pop(0)
            if abs(b[1] - nxt) > EPS:
                fail("heartbeat-time", "%s: heartbeat %d due at %.4f, next one sent at %.4f" % (name, k, nxt - START, b[1] - START))
                return
            if (b[4] == PING) != (k % 10 == 0):
                fail("heartbeat-kind", "%s: heartbeat %d is a %s" % (name, k, "ping" if b[4] == PING else "waiting notice"))
                return
            sim.probe["heartbeat"] += 1
            if k % 10 == 0:
                sim.probe["ping"] += 1
            e = ends.get(b[2])
            if e is None:
                return  # still waiting for the acknowledgement
            if td is not None and e[1] > td:
                return
            nxt = e[1] + 60
        got = [b for b in got if abs(b[1] - stop) > EPS]
        if got:
            fail("heartbeat-extra", "%s: unexpected notice at %.4f" % (name, got[0][1] - START))
