"""C19: inclusion and exclusion commands and their progress reports get through."""
import asyncio
import collections

from .. import zwire
from ..nmmodel import frame, invoke, matches, params, show
from ..sim import START, TICK
from ..world import NodeInfo, System, start

ID = "C19"
RUNS = {"quick": 3000, "thorough": 200000}
RULE = ("One run = one seeded history of inclusion, exclusion and failed node removal commands with every kind of acknowledgement (none, late, at the edge, of another frame, refused), interleaved with status, key and DSK reports on the "
        "gateway connection, duplicated, delayed and reordered, in front of plain, coroutine, slow and failing listeners. Non-trivial: at least two commands and two reports, or a fault fired.")
REAL = ["pyzwave.zipgateway", "pyzwave.zipconnection", "pyzwave.adapter", "pyzwave.application", "pyzwave.commandclass.NetworkManagementInclusion", "pyzwave.util", "codec", "asyncio tasks, timeouts"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway", "storage (base class, does nothing)"]
SHRINK = ("rates", "lst")

OPS = ("add", "addstop", "dsk", "keys", "remove", "removestop", "removefailed")
EPS = 1e-9


def report(rng):
    k = rng.choice(["add", "add", "remove", "remove", "keys", "dsk", "other"])
    seq = rng.randint(0, 255)
    if k == "add":
        status = rng.choice([6, 6, 7, 9, 5, 3, 0xFE])
        if status in (7, 9) and rng.chance(0.5):
            return bytes([0x34, 0x02, seq, status, 0, 0, 1])
        classes = bytes(rng.choice([0x20, 0x25, 0x31, 0x70, 0x86, 0xF1, 0x00]) for _ in range(rng.randint(0, 6)))
        return bytes([0x34, 0x02, seq, status, 0, rng.randint(1, 232), 7 + len(classes), rng.choice([0, 0x80]), rng.choice([0, 0x80]), rng.randint(1, 4), rng.randint(0, 255), rng.randint(0, 255)]) + classes
    if k == "remove":
        return bytes([0x34, 0x04, seq, rng.choice([6, 6, 6, 7, 5]), rng.choice([0, 0, 3, rng.randint(1, 232)])])
    if k == "keys":
        return bytes([0x34, 0x11, seq, rng.randint(0, 1), rng.choice([0, 1, 2, 4, 7, 0x80, 0x87])])
    if k == "dsk":
        return bytes([0x34, 0x13, seq, rng.choice([0, 2, 15])]) + (b"".join(rng.choice([b"\x00\x00", b"\x00\x01", b"\xff\xff", rng.bytes(2)]) for _ in range(8)) if rng.chance(0.3) else rng.bytes(16))
    return bytes([0x34, rng.choice([0x0C, 0x16]), seq, rng.randint(0, 255)]) if rng.chance(0.5) else bytes([0x20, 0x03, seq])


def gen(rng, index, tier):
    nodes = [3, 4, 200]
    ops = []
    t = 0
    sessions = rng.chance(0.3)
    for i in range(rng.randint(2, 20 if tier == "quick" else 60) if index % 100 != 53 else rng.randint(60, 150)):
        if rng.chance(0.45):
            op = params(rng, rng.choice(OPS), nodes)
            op.update(kind="cmd", ack=rng.choice(["ok", "ok", "ok", "no", "slow", "edge", "bad", "nack", "wait"]), d=rng.choice([1, 5, 100, 180, 191, 193, 250]), adv=rng.choice([0, 1, 5, 300, 620, 640, 700]),
                      st=rng.choice([0, 1, 2, 1, None]))
            if rng.chance(0.1):
                op["cancel"] = rng.choice([0, 1, 2, 64, 191])
        elif rng.chance(0.06):
            op = {"kind": "stall", "ticks": rng.choice([2, 64, 200])}
        else:
            op = {"kind": "rep", "data": report(rng).hex()}
            while rng.chance(0.15):
                ops.append(dict(op, t=t + rng.choice([0, 0, 1, 40])))
        op["t"] = t
        ops.append(op)
        t += rng.choice([0, 0, 1, 1, 2, rng.randint(0, 40), rng.randint(0, 700)]) if not sessions else rng.choice([0, 1, 2])
    rates = {}
    if rng.chance(0.4):
        rates = {"drop": rng.choice([0, 0.15]), "dup": rng.choice([0, 0.2]), "dup_max": 60, "delay": rng.choice([0, 0.4]), "delay_max": rng.choice([3, 40, 200])}
    lst = [rng.choice(["raise", "araise", "slow", "cancel", "acancel", "true"]) for _ in range(rng.randint(0, 3))] if rng.chance(0.6) else []
    return {"cfg": {"nodes": nodes, "rates": rates, "lst": lst, "first": rng.randint(0, 1)}, "ops": ops}


EVENTS = ("addNodeStatus", "removeNodeStatus", "messageReceived", "nodeRemoved", "nodesRemoved")


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.rx = []  # (t, Frame) on the gateway connection
        self.tx = []  # (t, Frame)
        self.heard = {"plain": [], "coro": []}
        self.calls = []  # (op, outcome)
        self.waiting = []
        self.stalls = []

    def on_rx(self, sock, data, addr):
        f = zwire.parse(data)
        if f is not None and sock is self.sock:
            self.rx.append((self.sim.now, f))

    def on_tx(self, now, sock, dst, data):
        f = zwire.parse(data)
        if f is not None and sock is self.sock:
            self.tx.append((now, f))

    @staticmethod
    def content(ev, arg):
        """Comparable form of what a listener was told."""
        if ev in ("nodeRemoved", "nodesRemoved"):
            return arg
        n = arg.NAME
        g = lambda a: None if getattr(arg, a) is None else int(getattr(arg, a))
        if n == "NODE_ADD_STATUS":
            return ("add", g("seqNo"), g("status"), g("newNodeID"), None if g("nodeInfoLength") == 1 else (bool(arg.listening), g("basicDeviceClass"), g("genericDeviceClass"), g("specificDeviceClass"), list(arg.commandClass or ())))
        if n == "NODE_REMOVE_STATUS":
            return ("remove", g("seqNo"), g("status"), g("nodeID"))
        if n == "NODE_ADD_KEYS_REPORT":
            return ("keys", g("seqNo"), bool(arg.requestCSA), g("requestedKeys"))
        if n == "NODE_ADD_DSK_REPORT":
            return ("dsk", g("seqNo"), g("inputDSKLength"), str(arg.dsk))
        return ("other", n)

    @staticmethod
    def expected(p):
        """(event, content) for a received report; None if it is none of those in question."""
        c = p[1]
        unknown = lambda v, known: v
        if p[0] != 0x34:
            return None
        if c == 0x02:
            body = None
            if p[6] >= 7:
                body = (bool(p[7] & 0x80), p[9], p[10], p[11], list(p[12:12 + p[6] - 7]))
            return "addNodeStatus", ("add", p[2], p[3], p[5], body)
        if c == 0x04:
            return "removeNodeStatus", ("remove", p[2], p[3], p[4])
        if c == 0x11:
            return "messageReceived", ("keys", p[2], bool(p[3] & 1), p[4])
        if c == 0x13:
            dsk = p[4:20]
            return "messageReceived", ("dsk", p[2], p[3] & 15, "-".join("%05d" % int.from_bytes(dsk[i:i + 2], "big") for i in range(0, 16, 2)))
        return None

    def listeners(self, app):
        world, sim = self, self.sim

        class Plain:
            pass

        class Coro:
            pass

        def note(kind, ev):
            def fn(_app, arg):
                world.heard[kind].append((sim.now, ev, world.content(ev, arg)))
                sim.log("heard", kind, ev)
            return fn

        def anote(ev):
            fn = note("coro", ev)

            async def method(_app, arg):
                fn(_app, arg)
            return method

        good = [Plain(), Coro()]
        for ev in EVENTS:
            setattr(good[0], ev, note("plain", ev))
            setattr(good[1], ev, anote(ev))

        def faulty(how):
            class Bad:
                pass

            b = Bad()

            def plain(*_a):
                sim.fault_count["listener-" + how] += 1
                if how == "raise":
                    raise ValueError("listener failed")
                if how == "cancel":
                    raise asyncio.CancelledError()
                return True

            async def coro(*_a):
                sim.fault_count["listener-" + how] += 1
                if how == "araise":
                    raise ValueError("listener failed")
                if how == "acancel":
                    raise asyncio.CancelledError()
                await sim.sleep(64 * 5)

            for ev in EVENTS:
                setattr(b, ev, plain if how in ("raise", "cancel", "true") else coro)
            return b

        bad = [faulty(h) for h in self.cfg["lst"] or ()]
        for x in (bad + good if self.cfg["first"] else good + bad):
            app.addListener(x)

    async def scenario(self, sim):
        self.sock = None
        infos = [NodeInfo(n) for n in self.cfg["nodes"]]
        self.system = s = System(sim, infos)
        await s.up(preconnect=False)
        self.sock = next(x for x in sim.net.sockets if x.remote == s.gw.addr)
        self.listeners(s.app)
        s.gw.on_frame = self.on_frame
        await sim.sleep(64)
        sim.rx_watch.append(self.on_rx)
        sim.net.on_send.append(self.on_tx)
        sim.net.rates = self.cfg["rates"]
        base = sim.now
        for op in self.ops:
            sim.at(base + op["t"] * TICK, (lambda op=op: self.do(op)))
        await sim.until(base + (max([o["t"] for o in self.ops] or [0]) + 64 * 25) * TICK)
        sim.net.rates = {}
        await sim.sleep(64 * 90)
        self.judge()

    def do(self, op):
        sim, s = self.sim, self.system
        if op["kind"] == "rep":
            s.gw.cmd(self.sock.local, bytes.fromhex(op["data"]))
        elif op["kind"] == "stall":
            a = sim.now
            sim.stall(op["ticks"])
            self.stalls.append((a, sim.now))
        else:
            rec = dict(op)
            self.waiting.append(rec)
            out, task = start(sim, show(op), lambda: (rec.update(entered=1), invoke(s.adapter, op))[1])
            self.calls.append((rec, out))
            if "cancel" in op:
                sim.after(op["cancel"], lambda: None if out.done else (sim.fault_count.update(["cancelled"]), task.cancel()))

    def on_frame(self, f, src):
        """The gateway receives a command (possibly a copy, possibly never)."""
        gw = self.system.gw
        op = next((r for r, _ in self.calls if matches(r, f.payload) and r.get("frame") in (None, f.raw)), None)
        if op is None:
            return
        op["frame"] = f.raw
        how, d = op["ack"], op["d"]
        if how != "ok":
            self.sim.fault_count["ack-" + how] += 1
        steps = {"ok": [[0, "ack", 0]], "no": [], "slow": [[d, "ack", 0]], "edge": [[190 + d % 3, "ack", 0]], "bad": [[0, "badack", d]], "nack": [[0, "nack", 4 * (d % 3)]], "wait": [[0, "wait", 5], [d, "ack", 0]]}[how]
        gw.act(f, src, steps)
        if op["op"] == "removefailed" and op["st"] is not None:
            gw.cmd(src, bytes([0x34, 0x08, f.payload[2], op["st"], op["n"]]), op["adv"])

    def judge(self):
        sim = self.sim
        # every call transmits exactly its own command
        free = [(t, f) for t, f in self.tx if not f.ack and f.has_cmd]
        for op, out in self.calls:
            if "entered" not in op and out.cancelled:
                continue
            sim.probe["cmd-" + op["op"]] += 1
            hit = next(((t, f) for t, f in free if matches(op, f.payload) and t >= out.start), None)
            if hit is None:
                sim.fail("not-sent", "%s, but no such command was transmitted; transmitted: %s" % (out.describe(), [f.payload.hex() for _, f in free]))
                return
            free.remove(hit)
            if not out.done:
                sim.fail("never-ended", out.describe())
                return
            if out.cancelled and "cancel" in op:
                continue
            if out.exc is not None:
                sim.fail("exception", out.describe())
                return
            self.result(op, out, hit)
            if sim.violations:
                return
        if free:
            sim.fail("extra-command", "transmitted %s without being asked to" % free[0][1].payload.hex())
            return
        self.reports()
        if sim.loop.callback_errors and not sim.violations:
            sim.fail("exception", repr(sim.loop.callback_errors[0]))

    def late(self, t):
        """Latest instant at which something due at t is noticed."""
        for a, b in self.stalls:
            if a - EPS <= t <= b + EPS:
                t = max(t, b)
        return t

    def result(self, op, out, hit):
        sim = self.sim
        t0, f = hit
        # the waiting window, extended by 'waiting' notices
        must = may = False
        limit = t0 + 3
        last = t0
        for t, r in self.rx:
            if r.seq != f.seq or t < t0 or not (r.ack or (r.nack and r.f0 & zwire.WAITING)):
                continue
            if t > self.late(limit) + EPS:
                break
            if r.ack:
                may = True
                if t < limit - EPS:
                    must = True
                last = t
                break
            if t >= limit - EPS:
                may = None
                break
            limit = t + 60 + 5
        if op["op"] != "removefailed":
            want = (True,) if must else (True, False) if may or may is None else (False,)
            if out.value is not must and out.value not in want or not isinstance(out.value, bool):
                sim.fail("wrong-result", "%s, but the acknowledgement %s" % (out.describe(), "arrived in time" if must else "did not arrive in time"))
            return
        seq = f.payload[2]
        answers = [(t, r.payload[3]) for t, r in self.rx if r.payload[:2] == b"\x34\x08" and r.payload[2] == seq and r.payload[4:] == bytes([op["n"]]) and t >= t0]
        got = int(out.value)
        sure = [a for a in answers if must and a[0] < last + 10 - EPS]
        if sure:
            if got != sure[0][1]:
                sim.fail("wrong-status", "%s, but the gateway reported %d at %.4f" % (out.describe(), sure[0][1], sure[0][0] - START))
            return
        if got != 2 and got not in [s for _, s in answers]:
            sim.fail("wrong-status", "%s, but the gateway reported %s" % (out.describe(), answers))

    def reports(self):
        sim = self.sim
        want = []
        zero = 0
        for t, f in self.rx:
            e = self.expected(f.payload) if f.payload else None
            if e is None:
                continue
            want.append((t,) + e)
            sim.probe["report"] += 1
            if e[0] == "removeNodeStatus" and e[1][2:] == (6, 0):
                zero += 1
        for kind, log in self.heard.items():
            got = [(t, ev, c) for t, ev, c in log if ev in ("addNodeStatus", "removeNodeStatus") or (ev == "messageReceived" and c[0] in ("keys", "dsk"))]
            if [g[1:] for g in got] != [w[1:] for w in want]:
                sim.fail("wrong-reports", "the %s listener heard %s, received was %s" % (kind, [g[1:] for g in got], [w[1:] for w in want]))
                return
            for g, w in zip(got, want):
                if g[0] > self.late(w[0]) + 1:
                    sim.fail("late", "the report %s received at %.4f was heard at %.4f" % (w[1:], w[0] - START, g[0] - START))
                    return
            for ev, arg in (("nodeRemoved", 0), ("nodesRemoved", [0])):
                items = [c for _, e, c in log if e == ev]
                if items != [arg] * zero:
                    sim.fail("wrong-removal", "the %s listener heard %s %s, %d completed exclusions of node 0 were received" % (kind, ev, items, zero))
                    return
            done = [t for t, e, c in log if e == "removeNodeStatus" and c[2:] == (6, 0)]
            for a, b in zip(done, sorted(t for t, e, c in log if e == "nodeRemoved")):
                if b < a:
                    sim.fail("wrong-removal", "removal of node 0 announced at %.4f, before the status at %.4f" % (b - START, a - START))
                    return


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = bool(sim.fault_count) or (len(world.calls) >= 2 and sim.probe["report"] >= 2)
