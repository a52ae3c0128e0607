"""C06: commands go to the addressed node and its replies are attributed to it."""
import collections

from .. import zwire
from ..sim import START, TICK
from ..world import NodeInfo, System, node_ip, start

ID = "C06"
RUNS = {"quick": 3000, "thorough": 200000}
RULE = ("One run = one seeded workload of overlapping first and later sends, lookups and connects to several nodes and endpoints, through the adapter and through application nodes, with lost, late, "
        "duplicated and unrelated address advertisements, sockets that cannot be opened, cancelled callers, lost, duplicated and reordered frames, and replies and strays from the nodes; "
        "then a quiet phase in which every node must be reachable. Non-trivial: operations overlapped, or a fault fired.")
REAL = ["pyzwave.zipgateway", "pyzwave.zipconnection", "pyzwave.adapter", "pyzwave.connection", "pyzwave.util", "pyzwave.application and node (start-up and Node.send)", "codec", "asyncio tasks, locks, timeouts"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
SHRINK = ("rates", "adv", "endpoint")


def gen(rng, index, tier):
    nodes = [2 + i for i in range(rng.randint(1, 4))]
    large = rng.chance(0.012)  # a large network, every node used
    if large:
        nodes = rng.sample([n for n in range(2, 233) if n not in (200, 201)], rng.choice([18, 40, 70, 140]))
    benign = rng.chance(0.35)
    many = rng.choice([17, 33, 127]) if rng.chance(0.05) and not large else 0 if large else 2  # end points of the first node
    ops = []
    t = 0
    uid = 0
    for i in range(rng.randint(2, 16 if tier == "quick" else 40) + (2 * len(nodes) if large else 0)):
        n = rng.choice(nodes) if not large or rng.chance(0.3) else nodes[i % len(nodes)]
        uid += 1
        r = rng.random()
        op = {"t": t, "u": uid, "n": n}
        if r < 0.62:
            op.update(op="send", ep=rng.choice([0, 0, 1, 2, rng.randint(0, 127)]), via=rng.choice(["adapter", "adapter", "node"]))
            if op["via"] == "node":
                op["ep"] = rng.randint(0, many if n == nodes[0] or large else 2)
            if rng.chance(0.3):
                op["nrep"] = rng.randint(1, 3)
        elif r < 0.74:
            op.update(op="lookup", n=rng.choice(nodes + [200]))
        elif r < 0.8:
            op.update(op="connect")
        elif r < 0.92:
            # a late copy of an advertisement, or one nobody asked for, or one without an address
            op.update(op="advert", how=rng.choice(["known", "other", "short", "none"]))
        else:
            op.update(op="stray", sep=rng.randint(0, 2))
        if op["op"] in ("send", "lookup", "connect") and rng.chance(0.15):
            op["cancel"] = rng.choice([0, 1, 2, 3, rng.randint(0, 200)])
        ops.append(op)
        t += rng.choice([0, 0, 0, 0, 1, 1, 2, rng.randint(0, 20), rng.randint(0, 200), rng.randint(0, 700)])
    if benign:
        adv = {"adv_slow": rng.choice([0, 0.8]), "adv_slow_max": 100, "adv_dup": rng.choice([0, 0.5])}
        rates, endpoint = {}, 0
    else:
        adv = {"adv_drop": rng.choice([0, 0.2, 0.5]), "adv_slow": rng.choice([0, 0.5, 0.8]), "adv_slow_max": rng.choice([30, 190, 500]), "adv_dup": rng.choice([0, 0.4])}
        rates = {"drop": rng.choice([0, 0.1]), "dup": rng.choice([0, 0.1]), "dup_max": 60, "delay": rng.choice([0, 0.3]), "delay_max": rng.choice([3, 40])} if rng.chance(0.5) else {}
        endpoint = rng.choice([0, 0, 0.2])
    return {"cfg": {"nodes": nodes, "many": many, "benign": benign, "adv": adv, "rates": rates, "endpoint": endpoint}, "ops": ops}


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.tx = collections.defaultdict(list)  # uid -> [(t, dst, dep)]
        self.rx = collections.defaultdict(list)  # node -> [(sep, payload)]
        self.got = collections.defaultdict(list)
        self.used = collections.defaultdict(set)
        self.calls = []
        self.conns = {}
        self.serial = 0

    def eps(self, n):
        return self.cfg["many"] if n == self.cfg["nodes"][0] or not self.cfg["many"] else 2

    def on_tx(self, now, sock, dst, data):
        if sock.remote is not None and dst[0] != self.system.gw.ip:
            self.used[dst].add(sock.sid)
        f = zwire.parse(data)
        if f is not None and f.payload[:2] == b"\x70\x04" and len(f.payload) == 8:
            self.tx[int.from_bytes(f.payload[4:], "big")].append((now, dst, f.dep))

    def on_rx(self, sock, data, addr):
        f = zwire.parse(data)
        if f is None or f.ack or f.nack or sock.remote is None or not f.payload:
            return
        node = next((n for n in self.cfg["nodes"] if node_ip(n) == addr[0]), None)
        if node is not None and not f.ack_request:
            self.rx[node].append((f.sep, f.payload))

    def messageReceived(self, _adapter, node, ep, msg, _flags):
        self.got[node].append((ep, msg.compose()))

    def reply(self, frame, _src):
        if len(frame.payload) == 8 and frame.payload[:2] == b"\x70\x04":
            n = self.nrep.get(int.from_bytes(frame.payload[4:], "big"), 0)
            out = []
            for _ in range(n):
                self.serial += 1
                out.append(bytes([0x25, 0x03, self.serial & 0xFF]))
            return out
        return []

    async def scenario(self, sim):
        infos = [NodeInfo(n, [0x20, 0x25, 0x60], endpoints=[(0x10, 1, [0x25])] * self.eps(n)) for n in self.cfg["nodes"]]
        self.nrep = {o["u"]: o.get("nrep", 0) for o in self.ops}
        self.system = s = System(sim, infos)
        await s.up(preconnect=False)
        s.adapter.addListener(self)
        for n in self.cfg["nodes"]:
            for ep in range(self.eps(n) + 1):
                if "%d:%d" % (n, ep) not in s.app.nodes:
                    sim.fail("setup-failed", "node %d:%d was not loaded" % (n, ep))
                    return
        sim.net.on_send.append(self.on_tx)
        sim.rx_watch.append(self.on_rx)
        for p in s.peers.values():
            p.responder = self.reply
            p.faults = {"dup": 0.2, "slow": 0.3}
        s.gw.adv_fault = self.cfg["adv"]
        sim.net.rates = self.cfg["rates"]
        sim.endpoint_faults = self.cfg["endpoint"]
        base = sim.now
        for op in self.ops:
            sim.at(base + op["t"] * TICK, (lambda op=op: self.do(op)))
        await sim.until(base + (max([o["t"] for o in self.ops] or [0]) + 1) * TICK)
        # every operation ends: lookups take at most three seconds each, one after the other
        await sim.sleep(64 * (20 + 4 * len(self.ops)))
        for op, out in self.calls:
            if not out.done:
                sim.fail("never-ended", "%s %s" % (op, out.describe()))
                return
        s.gw.adv_fault = {}
        sim.net.rates = {}
        sim.endpoint_faults = 0
        await sim.sleep(64 * 10)
        final = []
        for n in self.cfg["nodes"]:
            for k in range(2):
                uid = 100000 + 10 * n + k
                op = {"op": "send", "n": n, "u": uid, "ep": k, "via": "adapter"}
                self.do(op)
                final.append((op, self.calls[-1][1]))
        await sim.sleep(64 * 10)
        for op, out in final:
            if not out.done or out.value is not True:
                sim.fail("unreachable", "after all faults stopped the command to node %d failed: %s" % (op["n"], out.describe()))
                return
        self.judge()

    def do(self, op):
        from pyzwave.commandclass import Configuration

        sim, s = self.sim, self.system
        what = op["op"]
        if what == "advert":
            n = op["n"]
            data = {"known": zwire.advertisement(n, node_ip(n)), "other": zwire.advertisement(201, node_ip(201)),
                    "short": bytes([0x58, 0x01, 0x00, n]), "none": bytes([0x58, 0x01])}[op["how"]]
            sock = next((x for x in sim.net.sockets if x.remote == s.gw.addr), None)
            if sock:
                s.gw.raw(sock.local, data)
            return
        if what == "stray":
            sock = s.socket_of(op["n"])
            if sock:
                self.serial += 1
                s.peers[op["n"]].cmd(sock.local, bytes([0x25, 0x03, self.serial & 0xFF]), sep=op["sep"])
            return
        if what == "send":
            cmd = Configuration.Set(parameterNumber=op["n"], default=False, size=4, value=op["u"])
            if op["via"] == "node":
                node = s.app.nodes["%d:%d" % (op["n"], op["ep"])]
                fn = lambda: node.send(cmd)
            else:
                fn = lambda: s.adapter.sendToNode(op["n"], cmd, destEP=op["ep"])
        elif what == "lookup":
            fn = lambda: s.adapter.ipOfNode(op["n"])
        else:
            fn = lambda: s.adapter.connectToNode(op["n"])
        out, task = start(sim, "%s%d" % (what, op["u"]), fn)
        self.calls.append((op, out))
        if "cancel" in op:
            def cancel():
                if not out.done:
                    sim.fault_count["cancelled-call"] += 1
                    task.cancel()

            sim.after(op["cancel"], cancel)

    def judge(self):
        sim = self.sim
        for uid, sent in self.tx.items():
            op = next((o for o, _ in self.calls if o["op"] == "send" and o["u"] == uid), None)
            if op is None:
                sim.fail("unknown-command", "a command nobody sent was transmitted: %r" % (sent,))
                return
            for t, dst, dep in sent:
                if dst != (node_ip(op["n"]), 4123):
                    sim.fail("wrong-node", "command for node %d transmitted to %s" % (op["n"], dst))
                    return
                if dep != op["ep"]:
                    sim.fail("wrong-endpoint", "command for endpoint %d of node %d transmitted to endpoint %d" % (op["ep"], op["n"], dep))
                    return
            if len(sent) > 1:
                sim.fail("sent-twice", "command %d was transmitted %d times" % (uid, len(sent)))
                return
        for dst, sids in self.used.items():
            if len(sids) > 1:
                sim.fail("several-connections", "%s was reached over %d connections" % (dst[0], len(sids)))
                return
        left = collections.Counter(x.remote for x in sim.net.sockets if x.remote and x.remote[0] != self.system.gw.ip)
        for dst, n in left.items():
            if n > 1:
                sim.fail("several-connections", "%d sockets to %s are open" % (n, dst[0]))
                return
        conns = {}
        for op, out in self.calls:
            if out.cancelled:
                if "cancel" not in op:
                    sim.fail("cancelled", "%s was cancelled by somebody else" % out.name)
                    return
                continue
            ok = out.exc is None
            if out.exc is not None and not isinstance(out.exc, (TimeoutError, OSError)):
                sim.fail("wrong-error", out.describe())
                return
            if self.cfg["benign"] and op["n"] != 200 and (not ok or out.value is False):
                sim.fail("failed", "%s, though nothing went wrong" % out.describe())
                return
            if not ok:
                sim.probe["failed-call"] += 1
                continue
            sim.probe["ok-" + op["op"]] += 1
            if op["op"] == "send" and out.value and len(self.tx[op["u"]]) != 1:
                sim.fail("not-sent", "%s without a transmission" % out.describe())
                return
            if op["op"] == "lookup" and (op["n"] == 200 or out.value.compressed != node_ip(op["n"])):
                sim.fail("wrong-address", "node %d: %s" % (op["n"], out.describe()))
                return
            if op["op"] == "connect":
                first = conns.setdefault(op["n"], out.value)
                if first is not out.value:
                    sim.fail("several-connections", "two different connections to node %d were handed out" % op["n"])
                    return
        for n in set(self.rx) | set(self.got):
            want = self.rx.get(n, [])
            if self.got.get(n, []) != want:
                sim.fail("wrong-attribution", "node %s sent %s, but the listeners were told %s" % (
                    n, [(e, p.hex()) for e, p in want], [(e, p.hex()) for e, p in self.got.get(n, [])]))
                return
        if sim.loop.callback_errors:
            sim.fail("exception", repr(sim.loop.callback_errors[0]))


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = bool(sim.fault_count) or len(world.calls) > 4
