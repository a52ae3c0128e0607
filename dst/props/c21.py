"""C21: an answer about one item is never taken for an answer about another."""
import collections

from .. import zwire
from ..sim import START, TICK, Net
from ..world import NodeInfo, System, start

ID = "C21"
RUNS = {"quick": 3000, "thorough": 200000}
RULE = ("One run = overlapping queries about different items (node information, endpoints, capabilities, failed node removal, configuration parameters, class versions, sensor scales, association groups) whose answers are lost, late, duplicated, swapped "
        "or sent again unasked; every answer carries content that tells which item and query it is from. Non-trivial: queries overlapped or an answer was late, lost, repeated or unasked.")
REAL = ["pyzwave.zipgateway", "pyzwave.adapter", "pyzwave.util (MessageWaiter)", "pyzwave.node", "pyzwave.commandclass (Configuration, Version, SensorMultilevel, Association)", "pyzwave.zipconnection", "codec", "asyncio tasks, timeouts, cancellation"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
SHRINK = ("rates",)

CLASSES = [0x20, 0x25, 0x31, 0x70, 0x72, 0x80, 0x85, 0x86, 0x87]
VERSIONED = [0x20, 0x25, 0x70, 0x72, 0x80, 0x87]
TYPES = {1: 1, 3: 2, 5: 4, 9: 8, 17: 3}  # sensor type: scales
STATUS = {0: 1, 1: 2, 2: 0}
LATEST = 2.9  # an answer that arrived so much after the start of a query counts


def related(rng, top):
    """Three numbers up to top which something careless could mix up."""
    while True:
        a = rng.randint(1, top)
        three = [a, rng.choice([a ^ 128, a ^ 64, a ^ 32, a ^ 16, a + 1, a * 2, a // 2]), rng.randint(1, top)]
        if len(set(three)) == 3 and all(1 <= x <= top for x in three):
            return three


def gen_wrap(rng):
    """So many queries of network management that the sequence numbers start again, though none while an answer with the same number can still come."""
    ids = rng.sample([2, 3, 4, 5, 18, 30, 66, 130, 131, 200], rng.randint(2, 4))
    ops, t = [], 0
    for i in range(rng.randint(262, 330)):
        k = rng.weighted([("info", 6), ("ends", 1), ("cap", 1)]) if rng.chance(0.3) or i < 20 or i > 245 else "ends"
        ops.append({"t": t, "k": k, "n": rng.choice(ids), "ep": 0, "item": rng.randint(0, 5)})
        t += rng.choice([1, 2, 3, 7])
    rates = rng.choice([{"late": 0.5, "late_max": 170}, {"drop": 0.3, "late": 0.2}, {"dup": 0.2, "late": 0.5, "late_max": 180}])
    return {"cfg": {"ids": ids, "params": [1, 2, 3], "ends": [1, 2, 3], "ngroups": 3, "groups": [1, 2, 3], "mc": [], "rates": rates}, "ops": ops}


def gen(rng, index, tier):
    if index % 60 == 31:
        return gen_wrap(rng)
    ids = rng.sample([2, 3, 4, 5, 18, 30, 66, 130, 131, 200], rng.randint(2, 4))
    plain = rng.chance(0.5)
    params = [1, 2, 3] if plain else related(rng, 255)
    ends = [1, 2, 3] if plain else related(rng, 127)
    ngroups = 3 if plain else rng.weighted([(5, 60), (20, 37), (130, 3)])
    groups = [1, 2, 3] if plain else related(rng, ngroups)
    ops = []
    t = 0
    focus = rng.choice([None, None, "info", "ends", "cap", "conf", "vers", "scales", "group", "fail"])
    for _ in range(rng.randint(2, 16 if tier == "quick" else 50) if index % 100 != 53 else rng.randint(50, 150)):
        k = focus if focus and rng.chance(0.7) else rng.weighted([("info", 3), ("ends", 2), ("cap", 2), ("conf", 4), ("vers", 3), ("scales", 1.5), ("group", 3), ("fail", 1), ("stray", 3), ("noise", 1)])
        n = rng.choice(ids)
        op = {"t": t, "k": k, "n": n, "ep": rng.choice([0, 0, 1]), "item": rng.randint(0, 5)}
        if k in ("stray", "noise"):
            op["what"] = focus or rng.choice(["info", "ends", "cap", "conf", "vers", "scales", "group", "fail"])
            op["foreign"] = rng.choice([0, 1])
        elif rng.chance(0.12):
            op["cancel"] = rng.choice([1, 1, 2, rng.randint(1, 300)])
        elif k == "conf":
            op["cached"] = rng.choice([0, 0, 1])
        ops.append(op)
        t += rng.choice([0, 0, 0, 1, 1, 2, 5, rng.randint(0, 100), rng.randint(0, 500)])
    rates = rng.choice([{}, {"drop": 0.2, "late": 0.3}, {"late": 0.7, "late_max": rng.choice([6, 60, 180, 700])}, {"dup": 0.6, "late": 0.3}, {"drop": 0.2, "dup": 0.3, "late": 0.5, "noack": 0.1}])
    return {"cfg": {"ids": ids, "params": params, "ends": ends, "ngroups": ngroups, "groups": groups, "mc": [n for n in ids if rng.chance(0.5)], "rates": dict(rates)}, "ops": ops}


class Call:
    __slots__ = ("kind", "item", "out", "seq", "cancelled", "node")

    def __init__(self, kind, item, node):
        self.kind, self.item, self.node = kind, item, node
        self.out = self.seq = None
        self.cancelled = False


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.calls = []
        self.answers = collections.defaultdict(list)  # (kind, item) -> [(time, seq or None, content)]
        self.acks = []  # (time, peer address)
        self.serial = 0
        self.past = collections.defaultdict(list)  # (kind, item) -> payloads sent in answer to a query

    # --- the simulated gateway and nodes ---
    def tag(self):
        self.serial += 1
        return self.serial

    def answer(self, n, ep, p):
        """(kind, item, payload) for a query, None if it is none."""
        k = p[:2]
        if k == b"\x52\x03" and len(p) > 4:
            x = self.tag()
            return "info", p[4], zwire.node_info_report(p[2], True, p[4], x & 0xFF, x >> 8, [0x20, 0x25])
        if k == b"\x52\x05":
            return "ends", p[3], zwire.endpoint_report(p[2], p[3], 1 + self.cfg["ids"].index(p[3]) if p[3] in self.cfg["ids"] else 9)
        if k == b"\x52\x07":
            x = self.tag()
            return "cap", (p[3], p[4] & 127), zwire.capability_report(p[2], p[3], p[4] & 127, x & 0xFF, x >> 8, [0x25])
        if k == b"\x34\x07":
            node = p[3] if len(p) == 4 else p[4]
            return "fail", node, bytes([0x34, 0x08, p[2], STATUS[node % 3], node])
        if k == b"\x70\x05":
            return "conf", (n, ep, p[2]), bytes([0x70, 0x06, p[2], 4]) + self.tag().to_bytes(4, "big")
        if k == b"\x86\x13":
            return "vers", (n, ep, p[2]), bytes([0x86, 0x14, p[2], 1 + VERSIONED.index(p[2]) if p[2] in VERSIONED else 7])
        if k == b"\x31\x03":
            return "scales", (n, ep, p[2]), bytes([0x31, 0x06, p[2], TYPES.get(p[2], 0)])
        if k in (b"\x85\x02", b"\x8e\x02"):
            return "group", (n, ep, p[2]), bytes([p[0], 0x03, p[2], 1 + self.tag() % 255, 0, p[2] + 50])
        return None

    def script(self, n):
        sim = self.sim

        def respond(frame, _src):
            p, ep = frame.payload, frame.dep
            a = self.answer(n, ep, p)
            if a is None:
                extra = {b"\x31\x01": mask(TYPES), b"\x85\x05": bytes([0x85, 0x06, self.cfg["ngroups"]])}.get(p[:2])
                if extra:
                    return [[0, "ack", None], [1, "reply", extra.hex()]]
                return None
            kind, item, payload = a
            self.past[(kind, item)].append(payload)
            r = self.cfg["rates"] if self.faulty else {}

            def gen_fault(rng):
                d = {}
                if rng.chance(r.get("noack", 0)):
                    d["noack"] = 1
                if rng.chance(r.get("drop", 0)):
                    d["drop"] = 1
                if rng.chance(r.get("late", 0)):
                    d["late"] = rng.choice([rng.randint(1, 8), rng.randint(1, r.get("late_max", 250)), 190, 191, 192])
                if rng.chance(r.get("dup", 0)):
                    d["dup"] = rng.choice([1, 2, 3, rng.randint(1, 30), rng.randint(1, 500)])
                return d or None

            f = sim.chooser.pick("answer:%s:%s" % (kind, item), gen_fault) or {}
            for x in f:
                sim.fault_count["answer-" + x] += 1
            steps = [] if "noack" in f else [[0, "ack", None]]
            if "drop" not in f:
                steps.append([1 + f.get("late", 0), "reply", payload.hex()])
            if "dup" in f:
                steps.append([1 + f.get("late", 0) + f["dup"], "reply", payload.hex()])
            return steps

        return respond

    def on_rx(self, sock, data, addr):
        f = zwire.parse(data)
        if f is None:
            return
        if f.ack:
            self.acks.append((self.sim.now, addr, f.seq))
        p = f.payload
        n = next((i for i, x in self.sys.peers.items() if x.addr == addr), None)
        k, t = p[:2], self.sim.now
        if k == b"\x52\x04":
            self.answers[("info", p[7])].append((t, p[2], (p[8], p[9])))
        elif k == b"\x52\x06":
            self.answers[("ends", p[3])].append((t, p[2], p[5] + p[6]))
        elif k == b"\x52\x08":
            self.answers[("cap", (p[3], p[5]))].append((t, p[2], (p[6], p[7])))
        elif k == b"\x34\x08":
            self.answers[("fail", p[4])].append((t, p[2], p[3]))
        elif n is None:
            return
        elif k == b"\x70\x06":
            self.answers[("conf", (n, f.sep, p[2]))].append((t, None, int.from_bytes(p[4:8], "big")))
        elif k == b"\x86\x14":
            self.answers[("vers", (n, f.sep, p[2]))].append((t, None, p[3]))
        elif k == b"\x31\x06":
            self.answers[("scales", (n, f.sep, p[2]))].append((t, None, p[3] & 15))
        elif k in (b"\x85\x03", b"\x8e\x03"):
            self.answers[("group", (n, f.sep, p[2]))].append((t, p[0], (p[3], tuple(p[5:]))))

    def on_tx(self, _now, _sock, dst, data):
        f = zwire.parse(data)
        if f is None or dst != self.sys.gw.addr or len(f.payload) < 4:
            return
        p = f.payload
        what = {b"\x52\x03": ("info", p[4] if len(p) > 4 else None), b"\x52\x05": ("ends", p[3]), b"\x52\x07": ("cap", (p[3], p[4] & 127) if len(p) > 4 else None),
                b"\x34\x07": ("fail", p[3] if len(p) == 4 else p[-1])}.get(p[:2])
        for c in self.calls:
            if c.seq is None and (c.kind, c.item) == what and not c.out.done:
                c.seq = p[2]
                return

    # --- the scenario ---
    async def scenario(self, sim):
        self.faulty = False
        infos = [NodeInfo(n, CLASSES + [0x60] + ([0x8E] if n in self.cfg["mc"] else []), endpoints=[(0x10, 1, CLASSES)]) for n in self.cfg["ids"]]
        self.sys = s = System(sim, infos)
        await s.up()
        for n, p in s.peers.items():
            p.script = self.script(n)
        s.gw.script = self.script(None)
        for key in sorted(s.app.nodes):
            node = s.app.nodes[key]
            if 0x85 not in node.supported or 0x31 not in node.supported:
                sim.fail("setup-failed", "node %s was not loaded completely" % key)
                return
            node.supported[0x31].__setstate__({"version": 5})
            await node.supported[0x85].interview()
            if len(node.supported[0x85].groupings) != self.cfg["ngroups"]:
                sim.fail("setup-failed", "the groups of node %s are %s" % (key, sorted(node.supported[0x85].groupings)))
                return
        if len(s.app.nodes) != 2 * len(self.cfg["ids"]):
            sim.fail("setup-failed", "nodes are %s" % sorted(s.app.nodes))
            return
        self.faulty = True
        sim.rx_watch.append(self.on_rx)
        sim.net.on_send.append(self.on_tx)
        await sim.sleep(64)
        base = sim.now
        for op in self.ops:
            sim.at(base + op["t"] * TICK, lambda op=op: self.do(op))
        await sim.until(base + max(o["t"] for o in self.ops) * TICK)
        for _ in range(60):
            if all(c.out.done for c in self.calls):
                break
            await sim.sleep(64 * 5)
        for c in self.calls:
            if not c.out.done:
                sim.fail("never-ends", c.out.describe())

    def item(self, op):
        k = op.get("what", op["k"])
        n, ep, i, c = op["n"], op["ep"], op["item"], self.cfg
        return {"info": n, "ends": n, "fail": n, "cap": (n, c["ends"][i % 3]), "conf": (n, ep, c["params"][i % 3]), "vers": (n, ep, VERSIONED[i]), "scales": (n, ep, sorted(TYPES)[i % len(TYPES)]), "group": (n, ep, c["groups"][i % 3])}[k]

    def do(self, op):
        sim, s, k = self.sim, self.sys, op["k"]
        if k in ("stray", "noise"):
            self.stray(op, self.item(op))
            return
        n = op["n"]
        node = s.app.nodes["%d:%d" % (n, op["ep"])]
        item = self.item(op)
        if k == "scales":  # asked for by the interview, one after the other
            item = (n, op["ep"], None)
        fn = {"info": lambda: s.adapter.getNodeInfo(n), "ends": lambda: s.adapter.getMultiChannelEndPoints(n), "cap": lambda: s.adapter.getMultiChannelCapability(*item), "fail": lambda: s.adapter.removeFailedNode(n),
              "conf": lambda: node.supported[0x70].get(item[2], cached=bool(op.get("cached"))), "vers": lambda: node.supported[item[2]].requestVersion(),
              "scales": node.supported[0x31].interview, "group": lambda: node.supported[0x85].interviewGrouping(item[2])}[k]
        c = Call(k, item, node)
        if any(not x.out.done for x in self.calls):
            sim.fault_count["overlap"] += 1
        c.out, task = start(sim, "%s of %s" % (k, item), fn)
        self.calls.append(c)
        known = node.supported[0x70].parameters.get(item[2]) if k == "conf" and op.get("cached") else None
        task.add_done_callback(lambda _t: self.ended(c, known))
        if op.get("cancel"):
            def cancel():
                if not c.out.done:
                    sim.fault_count["cancelled"] += 1
                    c.cancelled = True
                    task.cancel()

            sim.after(op["cancel"], cancel)

    def stray(self, op, item):
        """An answer to an earlier query is sent again, or a report comes unasked."""
        sim, s, k = self.sim, self.sys, op["what"]
        old = self.past.get((k, item))
        peer = s.gw if k in ("info", "ends", "cap", "fail") else s.peers[op["n"]]
        sock = next((x for x in sim.net.sockets if x.remote == peer.addr), None)
        if sock is None:
            return
        if op.get("foreign") and peer is s.gw and k != "info":
            # The answer to a query of another client of the gateway (one with node information does not tell which node it is about)
            n, seq = op["n"], 250 - self.tag() % 50
            q = {"ends": [0x52, 5, seq, n], "cap": [0x52, 7, seq, n, item[1] if k == "cap" else 0], "fail": [0x34, 7, seq, n]}[k]
            payload = self.answer(None, 0, bytes(q))[2]
        elif op["k"] == "stray" and old:
            payload = old[op["item"] % len(old)]
        elif k in ("conf", "vers", "scales", "group"):
            q = {"conf": b"\x70\x05", "vers": b"\x86\x13", "scales": b"\x31\x03", "group": b"\x85\x02"}[k]
            payload = self.answer(op["n"], op["ep"], q + bytes([item[2]]))[2]
        else:
            return
        sim.fault_count["answer-unasked"] += 1
        peer.cmd(sock.local if k not in ("conf", "vers") or op["item"] % 2 else (Net.CLIENT_IP, 4123), payload, sep=op["ep"] if peer is not s.gw else 0, link="stray")

    # --- the judgement ---
    def ended(self, c, known):
        sim, out = self.sim, c.out
        if out.cancelled and c.cancelled:
            return
        sim.probe["answered" if out.exc is None else "unanswered"] += 1
        k, item = c.kind, c.item
        if k == "scales":
            self.judge_scales(c)
            return
        got = [(t, s, x) for t, s, x in self.answers[(k, item)] if out.start <= t <= out.end]
        mine = [t for t, s, x in got if (c.seq is None or s == c.seq) and t <= out.start + LATEST]
        if k == "group":
            want = 0x8E if 0x8E in c.node.supported else 0x85
            got = [(t, s, x) for t, s, x in got if s == want]
            mine = [t for t, _, _ in got if t <= out.start + LATEST]
        if k in ("conf", "vers", "group"):
            n = item[0]
            addr = self.sys.peers[n].addr
            if not any(out.start < t <= out.start + LATEST and a == addr for t, a, _ in self.acks) or self.cfg["rates"].get("noack"):
                mine = []
        contents = [x for _, _, x in got]
        value, answered = None, out.exc is None
        if out.exc is not None and not out.timeout:
            sim.fail("error", out.describe())
            return
        if answered:
            v = out.value
            if k in ("info", "cap"):
                answered = v is not None and v.genericDeviceClass is not None
                value = (int(v.genericDeviceClass), int(v.specificDeviceClass)) if answered else None
            elif k == "ends":
                value, answered = int(v), int(v) != 0
            elif k == "fail":
                value = int(v)
                answered = value != 2 or 2 in contents
            elif k == "group":
                g = c.node.supported[0x85].groupings[item[2]]
                value = (int(g.maxNodes), tuple(x for x, _ in g.nodes))
                if value not in contents and value in [x for _, _, x in self.answers[(k, item)]] and any(x is not c and x.kind == k and x.item == item for x in self.calls):
                    return
            else:
                value = int(v) if v is not None else None
                answered = bool(value) or k == "conf"
        if k == "conf" and known is not None:
            if answered and value not in [x for _, _, x in self.answers[(k, item)]]:
                sim.fail("wrong-item", "%s, the answers about it were %s" % (out.describe(), self.answers[(k, item)]))
            return
        if answered and value not in contents:
            sim.fail("wrong-item", "%s: the value is %s, while it ran the answers about it were %s" % (out.describe(), value, contents))
        elif not answered and mine:
            sim.fail("not-answered", "%s started at %.4f, although its answer arrived at %.4f" % (out.describe(), out.start - START, mine[0] - START))

    def judge_scales(self, c):
        cc = c.node.supported[0x31]
        n, ep, _ = c.item
        for t, m in cc.supportedTypes.items():
            if int(m) not in [x for _, _, x in self.answers[("scales", (n, ep, int(t)))]]:
                self.sim.fail("wrong-item", "%s: the scales of type %d are %d, reported were %s" % (c.out.describe(), t, m, self.answers[("scales", (n, ep, int(t)))]))
                return


def mask(types):
    m = sum(1 << (t - 1) for t in types)
    return b"\x31\x02" + m.to_bytes((m.bit_length() + 7) // 8, "little")


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = bool(sim.fault_count)
