"""Workload and reference model for requests (send a command, wait for a kind of message): C03, C04."""
import asyncio

from . import zwire
from .sendmodel import EPS, Sends, acceptable
from .sim import START, TICK
from .world import NodeInfo, NodePeer, Recorder, System, start

# kind -> (command class, command) of the reply; the value byte identifies the message
KINDS = {"bin": (0x25, 0x03), "basic": (0x20, 0x03), "batt": (0x80, 0x03), "ind": (0x87, 0x03)}
CLASSES = [0x20, 0x25, 0x70, 0x80, 0x87]


def reply_class(kind):
    from pyzwave.commandclass import Basic, Battery, Indicator, SwitchBinary

    return {"bin": SwitchBinary.Report, "basic": Basic.Report, "batt": Battery.Report, "ind": Indicator.Report}[kind]


def payload(kind, mid):
    cc, c = KINDS[kind]
    return bytes([cc, c, mid])


def kind_of(data):
    """(kind, mid, source endpoint) of a report datagram, else None."""
    f = zwire.parse(data)
    if f is None or len(f.payload) != 3 or f.ack or f.nack:
        return None
    for k, v in KINDS.items():
        if tuple(f.payload[:2]) == v:
            return k, f.payload[2], f.sep
    return None


class Req:
    def __init__(self, uid, target, kind, timeout, how, parity=None):
        self.uid, self.target, self.kind, self.timeout, self.how, self.parity = uid, target, kind, timeout, how, parity
        self.out = None
        self.cancel_at = None

    def fits(self, arrival):
        """Is this a message the request waits for?"""
        return arrival[2] == self.target and arrival[3] == self.kind and self.parity in (None, arrival[4] & 1)

    def match(self):
        """Arguments for a request that is particular about the content."""
        if self.parity is None:
            return {}
        return {"match": lambda msg: msg.compose()[2] & 1 == self.parity}


class ReqWorld:
    def __init__(self, sim, plan):
        self.sim = sim
        self.cfg = plan["cfg"]
        self.ops = plan["ops"]
        self.mode = self.cfg["mode"]
        self.sends = Sends(sim)
        self.reqs = []
        self.tasks = []
        self.scripts = {}
        self.arrivals = []  # (time, ev, target, kind, mid)
        self.heard = {}  # mid -> number of times a listener was offered it
        self.heard_target = {}
        self.targets = []
        sim.rx_watch.append(self.on_rx)

    # --- what arrives ---
    def on_rx(self, sock, data, addr):
        k = kind_of(data)
        if not k:
            return
        kind, mid, sep = k
        if self.mode == "conn":
            for i, p in enumerate(self.peers):
                if sock.remote == p.addr:
                    self.arrivals.append((self.sim.now, self.sim.events, i, kind, mid))
        else:
            f = zwire.parse(data)
            for i, (nid, ep) in enumerate(self.targets):
                peer = self.system.peers[nid]
                # unsolicited frames and frames on the node's own socket both count; frames asking
                # for an ack are not handled on outgoing connections
                if addr == peer.addr and ep == sep and not (sock.remote and f.ack_request):
                    self.arrivals.append((self.sim.now, self.sim.events, i, kind, mid))

    def script(self, frame, _src):
        if len(frame.payload) == 8 and frame.payload[:2] == b"\x70\x04":
            return self.scripts.get(int.from_bytes(frame.payload[4:], "big"), [[0, "ack", None]])
        return [[0, "ack", None]]

    async def setup(self):
        sim = self.sim
        from pyzwave.zipconnection import ZIPConnection

        if self.mode == "conn":
            self.peers = [NodePeer(sim, NodeInfo(10 + i)) for i in range(self.cfg["peers"])]
            self.conns = []
            for i, p in enumerate(self.peers):
                p.script = self.script
                c = ZIPConnection(p.ip, b"psk")
                await c.connect()
                self.conns.append(c)
                self.listen(c, "onMessageReceived", i)
                self.targets.append(i)
        else:
            infos = [NodeInfo(10 + i, CLASSES + [0x60], endpoints=[(0x10, 1, CLASSES)]) for i in range(self.cfg["peers"])]
            self.system = System(sim, infos)
            self.peers = []
            for n in infos:
                self.peers.append(self.system.peers[n.id])
                self.system.peers[n.id].script = self.script
            await self.system.up(preconnect=self.cfg.get("preconnect", True))
            for n in infos:
                for ep in (0, 1):
                    self.targets.append((n.id, ep))
                    self.listen(self.node(len(self.targets) - 1), "onMessage", len(self.targets) - 1)

    def node(self, i):
        return self.system.app.nodes["%d:%d" % self.targets[i]]

    def listen(self, obj, event, i):
        world = self

        def heard(_speaker, msg):
            cmd = getattr(msg, "command", None) or msg
            try:
                data = cmd.compose()
            except Exception:  # pylint: disable=broad-except
                return None
            for k, v in KINDS.items():
                if tuple(data[:2]) == v:
                    world.heard[data[2]] = world.heard.get(data[2], 0) + 1
                    world.heard_target[data[2]] = i
                    world.sim.log("heard", i, data[2])
            return None

        class Lst:
            pass

        lst = Lst()
        setattr(lst, event, heard)
        obj.addListener(lst)

    # --- operations ---
    def begin(self, req, coro_fn, cancel):
        self.sim.log("call", req.uid)
        out, task = start(self.sim, "req%d" % req.uid, coro_fn)
        req.out = out
        req.ev0 = self.sim.events
        self.sends.by_uid[req.uid] = (out, 3, None)
        task.add_done_callback(lambda _t: self.sends.active.pop(req.uid, None))
        self.reqs.append(req)
        self.tasks.append(task)
        if cancel is not None:
            req.cancel_at = self.sim.now + cancel * TICK

            def go():
                if not task.done():
                    self.sim.fault_count["cancel"] += 1
                    self.sim.log("cancel", req.uid)
                    task.cancel()

            self.sim.at(req.cancel_at, go)

    def op_req(self, op):
        i = op["target"] % len(self.targets)
        self.scripts[op["uid"]] = op["script"]
        msg = Sends.message(op["uid"])
        req = Req(op["uid"], i, op["kind"], op["timeout"], "req", op.get("parity"))
        obj = self.conns[i] if self.mode == "conn" else self.node(i)
        cls = reply_class(op["kind"])
        if self.mode != "conn" and op["uid"] % 3 == 0 and 0x70 in obj.supported:
            obj = obj.supported[0x70]  # the same request made by a command class
        kw = {} if op["timeout"] == 3 and op["uid"] % 2 else {"timeout": op["timeout"]}
        kw.update(req.match())
        self.begin(req, lambda: obj.sendAndReceive(msg, cls, **kw), op.get("cancel"))

    def op_wait(self, op):
        i = op["target"] % len(self.targets)
        req = Req(op["uid"], i, op["kind"], op["timeout"], "wait", op.get("parity"))
        obj = self.conns[i] if self.mode == "conn" else self.node(i)
        cls = reply_class(op["kind"])
        self.begin(req, lambda: obj.waitForMessage(cls, timeout=op["timeout"], **req.match()), op.get("cancel"))

    def op_badreq(self, op):
        """A request whose command cannot be composed."""
        from pyzwave.commandclass import Configuration

        i = op["target"] % len(self.targets)
        req = Req(op["uid"], i, op["kind"], op["timeout"], "bad")
        obj = self.conns[i] if self.mode == "conn" else self.node(i)
        cls = reply_class(op["kind"])
        self.sim.fault_count["bad-command"] += 1
        self.begin(req, lambda: obj.sendAndReceive(Configuration.Set(parameterNumber=1), cls, timeout=op["timeout"]), None)

    def op_msg(self, op):
        i = op["target"] % len(self.targets)
        data = payload(op["kind"], op["mid"])
        if self.mode == "conn":
            p = self.peers[i]
            for s in list(self.sim.net.sockets):
                if s.remote == p.addr:
                    p.cmd(s.local, data)
            return
        nid, ep = self.targets[i]
        p = self.system.peers[nid]
        s = self.system.socket_of(nid)
        if op.get("via") == "u" or s is None:
            p.report(data, sep=ep, ack_request=bool(op.get("ackreq")))
        else:
            p.cmd(s.local, data, sep=ep)

    def op_stall(self, op):
        self.sends.stalled += op["ticks"] * TICK
        self.sim.stall(op["ticks"])

    async def scenario(self, _sim):
        sim = self.sim
        await self.setup()
        sim.net.rates = self.cfg["rates"]
        if self.mode == "node" and self.cfg.get("adv_drop"):
            self.system.gw.adv_fault = {"adv_drop": self.cfg["adv_drop"]}
        base = sim.now
        for op in self.ops:
            h = getattr(self, "op_" + op["op"])
            sim.at(base + op["t"] * TICK, (lambda h=h, op=op: h(op)))
        await sim.until(base + (max([op["t"] for op in self.ops] or [0]) + 1) * TICK)
        deadline = sim.now + 1000.0
        n = -1
        while self.tasks and n != len(self.tasks) and sim.now < deadline:
            n = len(self.tasks)
            await asyncio.wait(self.tasks, timeout=deadline - sim.now)
        # messages nobody waits for, after everything ended
        for i in range(len(self.targets)):
            for j, k in enumerate(sorted(KINDS)):
                self.op_msg({"target": i, "kind": k, "mid": 200 + (i * 4 + j) % 55})
        sim.net.rates = {}
        await sim.sleep(2000)

    # --- the model ---
    def window(self, r):
        """(start of the wait, acceptable results) of a request."""
        slack = self.sends.stalled
        if r.how == "wait":
            return r.out.start, r.ev0, [("wait", r.out.start + r.timeout)]
        if r.uid not in self.sends.tx:
            return None
        t0, ev0, _, _ = self.sends.tx[r.uid]
        return t0, ev0, acceptable(t0, 3, self.sends.events_for(r.uid), slack)

    def judge_outcomes(self):
        sim = self.sim
        slack = self.sends.stalled
        for r in self.reqs:
            out = r.out
            if not out.done:
                sim.fail("request-never-ends", out.describe())
                continue
            if r.how == "bad":
                if out.exc is None:
                    sim.fail("bad-command-accepted", out.describe())
                continue
            w = self.window(r)
            if w is None:  # never transmitted: the lookup of the address failed, or cancelled before
                if out.cancelled and r.cancel_at is not None:
                    continue
                if not out.timeout:
                    sim.fail("wrong-outcome", "command never transmitted, but " + out.describe())
                continue
            t0, ev0, acks = w
            matching = [a for a in self.arrivals if r.fits(a)]
            after = [a for a in matching if a[1] > ev0]
            # messages that came while the address was still being looked up, or that were being
            # passed on to the node when the request was made
            before = [a for a in matching if a[1] <= ev0 and (a[1] > r.ev0 or self.passing(r, a))]
            ok = []  # (mid or None for timeout, earliest, latest time)
            first = after[0] if after else None
            for res, tack in acks:
                if r.how == "wait":
                    end = tack
                    if first and first[0] <= end + EPS + slack:
                        ok.append((first[4], first[0]))
                        if first[0] < end - EPS:
                            continue
                    ok.append((None, end))
                    continue
                end = tack + r.timeout
                reached = first and first[0] <= end + EPS + slack
                if reached:
                    ok.append((first[4], max(tack, first[0])))
                if not res:
                    # not acknowledged: both giving up and going on to wait are fine
                    ok.append((None, tack))
                    ok.append((None, end))
                elif not reached or first[0] > end - EPS:
                    ok.append((None, end))
            for a in before:  # may be taken or not
                for res, tack in acks:
                    ok.append((a[4], a[0] if r.how == "wait" else tack))
            if r.cancel_at is not None and any(t >= r.cancel_at - EPS - slack for _, t in ok):
                if out.cancelled:
                    if abs(out.end - r.cancel_at) > slack + EPS:
                        sim.fail("late-cancel", out.describe())
                    continue
            mid = None
            if out.exc is None:
                data = out.value.compose() if hasattr(out.value, "compose") else b""
                mid = data[2] if len(data) == 3 and tuple(data[:2]) == KINDS[r.kind] else "garbage %r" % (out.value,)
            elif not out.timeout:
                sim.fail("request-error", "%s; acceptable: %s" % (out.describe(), self.fmt(ok)))
                continue
            if not any(m == mid and t - EPS <= out.end <= t + slack + EPS for m, t in ok):
                sim.fail("wrong-outcome", "%s (message %s); transmitted at %.4f; acceptable: %s" % (out.describe(), mid, t0 - START, self.fmt(ok)))

    def passing(self, r, a):
        return self.mode == "node" and a[1] <= r.ev0 and a[0] == r.out.start

    @staticmethod
    def fmt(ok):
        return ", ".join("%s at %.4f" % ("timeout" if m is None else "message %d" % m, t - START) for m, t in ok)

    def judge_swallowing(self):
        """Every message that nobody can have been waiting for reached the listeners, exactly once each."""
        sim = self.sim
        slack = self.sends.stalled
        count = {}
        maybe = set()
        for a in self.arrivals:
            count[a[4]] = count.get(a[4], 0) + 1
        for r in self.reqs:
            lo = r.ev0
            hi = r.out.end if r.out.done else 1e18
            for a in self.arrivals:
                if r.fits(a) and (a[1] > lo or self.passing(r, a)) and a[0] <= hi + slack + EPS:
                    maybe.add((a[0], a[1]))
                    if r.uid in self.sends.tx or r.how != "req":
                        lo_tx = self.sends.tx[r.uid][1] if r.how == "req" else r.ev0
                        if a[1] > lo_tx:
                            break  # only the first one satisfies the request
        free = {}
        for a in self.arrivals:
            if (a[0], a[1]) not in maybe:
                free[a[4]] = free.get(a[4], 0) + 1
        for mid, n in sorted(count.items()):
            got = self.heard.get(mid, 0)
            need = free.get(mid, 0)
            sim.probe["free-messages"] += need
            if got < need:
                a = [x for x in self.arrivals if x[4] == mid and (x[0], x[1]) not in maybe][0]
                sim.fail("swallowed", "message %d (%s) for target %d arrived at %.4f with nobody waiting, offered %d of %d times" % (mid, a[3], a[2], a[0] - START, got, need))
            if got > n:
                sim.fail("duplicated", "message %d arrived %d times but was offered %d times" % (mid, n, got))
        # a request is never given a message from before it was made
        for r in self.reqs:
            if r.out.done and r.out.exc is None and hasattr(r.out.value, "compose"):
                data = r.out.value.compose()
                if len(data) == 3 and tuple(data[:2]) == KINDS[r.kind]:
                    if r.parity not in (None, data[2] & 1):
                        sim.fail("wrong-message", "request made at %.4f was given message %d, which it did not ask for" % (r.out.start - START, data[2]))
                    if not any(a[2] == r.target and a[4] == data[2] and (a[1] > r.ev0 or self.passing(r, a)) for a in self.arrivals):
                        sim.fail("stale-message", "request made at %.4f was given message %d, which did not arrive after that" % (r.out.start - START, data[2]))

    def finish(self):
        sim = self.sim
        over = 0
        for i, r in enumerate(self.reqs):
            for q in self.reqs[:i]:
                if q.target == r.target and q.kind == r.kind and q.out.start <= r.out.start < (q.out.end or 1e18):
                    over += 1
        sim.probe["requests"] += len(self.reqs)
        sim.probe["concurrent-same-kind"] += over
        sim.probe["answered"] += sum(1 for r in self.reqs if r.out.done and r.out.exc is None)
        sim.probe["timed-out"] += sum(1 for r in self.reqs if r.out.timeout)
        sim.probe["reply-before-ack"] += sum(
            1 for r in self.reqs if r.uid in self.sends.tx and any(a[2] == r.target and a[3] == r.kind and a[1] > self.sends.tx[r.uid][1]
            and all(e[0] > a[0] for e in self.sends.events_for(r.uid)) for a in self.arrivals))
        sim.nontrivial = over > 0 or bool(sim.fault_count) or sim.probe["timed-out"] > 0 or sim.probe["reply-before-ack"] > 0


def gen_reqs(rng, focus, big=False):
    """Operations: requests with scripted acknowledgements and replies, bare waits, stray messages."""
    ops = []
    uid, mid = [1], [1]

    def new_mid():
        mid[0] += 1
        return mid[0] % 199

    kinds = rng.sample(sorted(KINDS), rng.choice([1, 1, 2, 4]))
    span = rng.choice([4, 64, 300, 900]) * (rng.choice([1, 5]) if big else 1)
    mode = rng.choice(["conn", "node"])
    for _ in range(rng.randint(2, 10) if not big else rng.randint(30, 80)):
        kind = rng.choice(kinds)
        timeout = rng.weighted([(3, 60), (1, 20), (5, 10), (0.5, 10), (100, 2), (400, 1)])
        op = {"op": rng.weighted([("req", 85), ("wait", 10), ("badreq", 5)]), "t": rng.randint(0, span), "uid": uid[0], "target": rng.choice([0, 0, 0, 1, 2]), "kind": kind, "timeout": timeout}
        uid[0] += 1
        if op["op"] == "req":
            steps = []
            ack_at = rng.weighted([(0, 40), (rng.randint(0, 150), 25), (190 + rng.randint(-2, 2), 10), (None, 15), (-1, 10)])
            if ack_at == -1:  # sleeping node
                w = rng.randint(0, 100)
                steps.append([w, "wait", rng.choice([0, 1, 3, -1, None])])
                ack_at = w + rng.randint(1, 3000)
            if ack_at is not None:
                steps.append([ack_at, "ack", None])
            base = ack_at if ack_at is not None else rng.randint(0, 250)
            edge = int(timeout * 64)
            for _ in range(rng.weighted([(0, 20), (1, 60), (2, 15), (3, 5)])):
                at = rng.weighted([(base + rng.randint(0, 3), 25), (max(0, base - rng.randint(0, 60)), 20), (base + rng.randint(0, edge), 20), (base + edge + rng.randint(-2, 2), 20), (base + edge + rng.randint(1, 200), 15)])
                steps.append([at, "reply", payload(kind if rng.chance(0.85) else rng.choice(sorted(KINDS)), new_mid()).hex()])
            op["script"] = sorted(steps, key=lambda s: s[0])
        if op["op"] != "badreq" and rng.chance(0.2):
            op["parity"] = rng.randint(0, 1)  # waits for some of the messages of this kind only
        if op["op"] != "badreq" and rng.chance(0.25):
            near = [s[0] + 2 for s in op.get("script", [])] or [20]
            op["cancel"] = rng.choice([rng.randint(0, 400), rng.choice(near), rng.choice(near), rng.randint(0, 3)])
        ops.append(op)
    for _ in range(rng.choice([0, 1, 3, 8])):
        ops.append({"op": "msg", "t": rng.randint(0, span + 300), "target": rng.choice([0, 0, 1, 2]), "kind": rng.choice(kinds), "mid": new_mid(), "via": rng.choice(["c", "u"]), "ackreq": rng.chance(0.3)})
    if rng.chance(0.15):
        ops.append({"op": "stall", "t": rng.randint(0, span + 200), "ticks": rng.choice([1, 10, 64, 192, 400])})
    ops.sort(key=lambda o: o["t"])
    rates = {}
    if rng.chance(0.35):
        rates = {"drop": rng.choice([0, 0.05, 0.2]), "dup": rng.choice([0, 0.1, 0.3]), "delay": rng.choice([0, 0.2, 0.5]), "delay_max": rng.choice([3, 40, 200])}
    cfg = {"mode": mode, "peers": rng.randint(1, 2), "rates": rates}
    if mode == "node":
        cfg["preconnect"] = rng.chance(0.75)
        cfg["adv_drop"] = 0 if cfg["preconnect"] else rng.choice([0, 0.3, 1])
    return {"cfg": cfg, "ops": ops}
