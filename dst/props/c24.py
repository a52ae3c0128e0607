"""C24: configuration values, group descriptions and readings are recorded and passed on as reported."""
import collections

from .. import zwire
from ..sim import START, TICK, Net
from ..world import NodeInfo, System, start

ID = "C24"
RUNS = {"quick": 4000, "thorough": 150000}
RULE = ("One run = one seeded history of configuration reports, descriptions of association groups and sensor readings from several nodes and endpoints, in answer to queries and unasked, on the unsolicited and the node's own socket, plain and supervised, "
        "whole and cut short, while parameters are read, set and cancelled, groups and sensors interviewed, what the node supports changes, and answers and acknowledges are lost, late, reordered and repeated. Non-trivial: at least four reports arrived, or a fault fired.")
REAL = ["pyzwave.commandclass (Configuration, AssociationGrpInfo, SensorMultilevel, dispatch)", "pyzwave.node", "pyzwave.application", "pyzwave.zipgateway", "pyzwave.zipconnection", "pyzwave.util", "codec", "asyncio tasks, timeouts, cancellation"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
SHRINK = ("rates", "faults")

CLASSES = [0x31, 0x59, 0x6C, 0x70, 0x86]
TYPES = [1, 2, 3, 4, 5, 7, 9, 17, 40, 64, 80]  # some without a name
NAMES = ["Lifeline", "On/Off", "", "Grüppe", "組1", "x" * 60, "None", "name"]
QUIET = 8  # ticks after which reports have taken effect


def numbers(rng, top, count):
    a = rng.randint(1, top)
    out = [a]
    while len(out) < count:
        x = rng.choice([a ^ 128, a ^ 64, a ^ 1, a + 1, a * 2, rng.randint(0, top), 1, top])
        if 0 <= x <= top and x not in out:
            out.append(x)
    return out


def gen(rng, index, tier):
    big = index % 100 == 53
    nodes = [[n, rng.choice([0, 0, 1, 2])] for n in rng.sample([2, 3, 4, 5, 18, 66, 130, 200], rng.randint(1, 3) if not big else rng.choice([1, 6]))]
    params = numbers(rng, 255, rng.randint(1, 4) if not big else 200)
    many = rng.chance(0.04)
    groups = numbers(rng, rng.choice([6, 255]), rng.randint(1, 5)) if not many else numbers(rng, 255, rng.randint(20, 80))
    focus = rng.choice([None, None, "conf", "agi", "sens"])
    weights = {"conf": {"crep": 5, "cget": 4, "cset": 2}, "agi": {"ginfo": 3, "gname": 2, "gcmds": 2, "gint": 1.5, "gnew": 2}, "sens": {"read": 6, "supp": 1, "sint": 1.5}}
    table = [(k, w * (3 if f == focus else 1)) for f, ws in sorted(weights.items()) for k, w in sorted(ws.items()) if not focus or f == focus or rng.chance(0.4)]
    table += [("stall", 0.4)]
    ops, t = [], 0
    for _ in range(rng.randint(3, 25 if tier == "quick" else 60) if not big else rng.randint(100, 600)):
        n, eps = rng.choice(nodes)
        k = rng.weighted(table)
        op = {"t": t, "k": k, "n": n, "ep": rng.choice([0, eps, rng.randint(0, eps)])}
        if k in ("crep", "ginfo", "gname", "gcmds", "read"):
            op["via"] = rng.choice(["u", "u", "c"])
            op["sup"] = int(rng.chance(0.2))
            op["ack"] = int(op["via"] == "u" and rng.chance(0.4))
            if rng.chance(0.12):
                op["cut"] = rng.randint(0, 12)
        if k in ("crep", "cget", "cset"):
            op["num"] = rng.choice(params)
        if k in ("crep", "cset"):
            op["size"] = rng.choice([1, 2, 4, 4])
            op["value"] = rng.choice([0, 1, 127, 128, 255]) if rng.chance(0.2) else rng.randint(0, 256 ** op["size"] - 1)
        if k == "cget":
            op["cached"] = rng.choice([0, 1, 1])
        if k == "cset":
            op["tell"] = rng.choice([0, 0, 1])
        if k in ("cget", "cset", "gint", "sint") and rng.chance(0.1):
            op["cancel"] = rng.choice([1, 2, rng.randint(1, 250)])
        if k == "ginfo":
            # (cut short, a report about one group: a reader may drop the whole report or keep the groups before)
            op["groups"] = [[rng.choice(groups), rng.choice([0, 0x7101, 0x0001, rng.randint(0, 65535)])] for _ in range(rng.choice([1, 1, 2, 3] if not many else [1, 20, 63]) if "cut" not in op else 1)]
        if k in ("gname", "gcmds", "gnew"):
            op["g"] = rng.choice(groups)
        if k in ("gname", "gnew"):
            op["name"] = rng.choice(NAMES)
        if k in ("gcmds", "gnew"):
            op["cmds"] = [[rng.randint(0x20, 0x98), rng.randint(1, 30)] for _ in range(rng.choice([0, 1, 1, 2, 5]))]
        if k == "gnew":
            op["profile"] = rng.randint(0, 65535)
        if k == "read":
            op["type"] = rng.choice(TYPES)
            op["prec"], op["scale"], op["size"] = rng.randint(0, 7), rng.randint(0, 3), rng.choice([1, 2, 4])
        if k == "supp":
            op["types"] = [[x, rng.randint(0, 15)] for x in rng.sample(TYPES, rng.randint(0, 5))]
        if k == "stall":
            op["ticks"] = rng.choice([3, 30, 150])
        ops.append(op)
        t += rng.choice([0, 0, 1, 2, 5, rng.randint(0, 60), rng.randint(0, 400)])
    start_groups = {"%d:%d" % (n, e): [[g, rng.randint(0, 65535), rng.choice(NAMES), [[0x20, 1 + i] for i in range(rng.randint(0, 3))]] for g in groups if rng.chance(0.6)] for n, eps in nodes for e in range(eps + 1)}
    types = {"%d:%d" % (n, e): [[x, rng.randint(0, 15)] for x in rng.sample(TYPES, rng.randint(1, 5))] for n, eps in nodes for e in range(eps + 1)}
    rates = {"drop": rng.choice([0, 0.1]), "delay": rng.choice([0, 0.4]), "delay_max": rng.choice([3, 40, 200])} if rng.chance(0.5) else {}
    faults = rng.choice([{}, {"noack": 0.15, "noreply": 0.15}, {"slow": 0.6, "slow_max": rng.choice([6, 60, 300]), "dup": 0.2}, {"noack": 0.1, "noreply": 0.1, "slow": 0.4, "slow_max": 100, "slowack": 0.3, "slowack_max": 200, "early": 0.3, "dup": 0.3, "dup_max": 300}])
    return {"cfg": {"nodes": nodes, "vers": rng.choice([5, 5, 5, 6, 11, 4, 1]), "known": int(rng.chance(0.7)), "groups": start_groups, "types": types, "each": rng.choice([1, 2, 9, 63]), "rates": rates, "faults": dict(faults)}, "ops": ops}


class Call:
    def __init__(self, op, key):
        self.op, self.key = op, key
        self.out = self.known = None
        self.cancelled = self.overlap = False
        self.before = {}


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.conf = collections.defaultdict(dict)  # (n, ep) -> number -> (value, size)
        self.told = collections.defaultdict(list)  # (n, ep, number) -> [(time, value, size)]
        self.groups = collections.defaultdict(dict)  # (n, ep) -> group -> [profile, name, commands]
        self.asked_about = []  # (time, n, ep, group)
        self.asks = collections.defaultdict(list)  # (n, ep, payload) -> [(time, seq)]
        self.masks = collections.defaultdict(list)  # (n, ep) -> [(time, types)]
        self.scales = collections.defaultdict(list)  # (n, ep, type) -> [(time, scales)]
        self.passed = collections.defaultdict(list)  # (n, ep) -> readings heard
        self.read_order = collections.defaultdict(list)
        self.last = {}  # (n, ep) -> time of the last report
        self.calls = []
        self.serial = self.session = 0
        self.reports = 0
        self.on = False

    # --- the nodes ---
    def responder(self, n):
        def respond(frame, _src):
            p, key = frame.payload, (n, frame.dep)
            k = p[:2]
            if k == b"\x70\x05":
                v, size = self.values.setdefault((key, p[2]), (p[2] ^ 0x5A, 1))
                return [conf_report(p[2], v, size)]
            if k == b"\x70\x04" and len(p) > 3:
                self.values[(key, p[2])] = (int.from_bytes(p[4:], "big"), p[3] & 7)
                return []
            mine = self.truth[key]
            if k == b"\x59\x03":
                each = self.cfg["each"]
                ids = sorted(mine)
                return [info_report([(g, mine[g][0]) for g in ids[i:i + each]]) for i in range(0, len(ids), each)]
            if k == b"\x59\x01" and p[2] in mine:
                return [name_report(p[2], mine[p[2]][1])]
            if k == b"\x59\x05" and p[3] in mine:
                return [list_report(p[3], mine[p[3]][2])]
            if k == b"\x31\x01":
                m = sum(1 << (t - 1) for t in self.support[key])
                return [b"\x31\x02" + m.to_bytes(max(1, (m.bit_length() + 7) // 8), "little")]
            if k == b"\x31\x03":
                return [bytes([0x31, 0x06, p[2], self.support[key].get(p[2], 0)])]
            return []

        return respond

    # --- what arrives ---
    def on_rx(self, sock, data, addr):
        f = zwire.parse(data)
        if f is None:
            return
        n = next((i for i, x in self.sys.peers.items() if x.ip == addr[0]), None)
        key = (n, f.sep)
        if n is None or key not in self.truth:
            return
        p = f.payload
        if p[:2] == b"\x6c\x01" and len(p) >= 4:
            p = p[4:4 + p[3]]
        k, now = p[:2], self.sim.now
        if k in (b"\x70\x06", b"\x59\x02", b"\x59\x04", b"\x59\x06", b"\x31\x05", b"\x31\x02", b"\x31\x06"):
            self.last[key] = now
            self.reports += 1
        if k == b"\x70\x06":
            if len(p) < 4 or len(p) <= 4 or len(p) < 4 + (p[3] & 7):
                return
            size = p[3] & 7
            v = int.from_bytes(p[4:4 + size], "big")
            self.conf[key][p[2]] = (v, size)
            self.told[key + (p[2],)].append((now, v, size))
        elif k == b"\x59\x04":
            if len(p) < 3:
                return
            for i in range(p[2] & 63):
                g = p[3 + 7 * i:10 + 7 * i]
                if len(g) < 7:
                    return
                self.groups[key][g[0]] = [g[2] << 8 | g[3], "", []]
                self.asked_about.append((now, key, g[0]))
        elif k == b"\x59\x02":
            if len(p) < 4 or len(p) < 4 + p[3]:
                return
            if p[2] in self.groups[key]:
                self.groups[key][p[2]][1] = p[4:4 + p[3]].decode()
        elif k == b"\x59\x06":
            if len(p) < 4 or len(p) < 4 + p[3]:
                return
            if p[2] in self.groups[key]:
                self.groups[key][p[2]][2] = [[p[4 + i], p[5 + i]] for i in range(0, p[3], 2)]
        elif k == b"\x31\x02":
            m = int.from_bytes(p[2:], "little")
            self.masks[key].append((now, sorted(i + 1 for i in range(m.bit_length()) if m >> i & 1)))
        elif k == b"\x31\x06":
            self.scales[key + (p[2],)].append((now, p[3] & 15))
        elif k == b"\x31\x05":
            self.reading(key, p)

    def reading(self, key, p):
        if len(p) < 4 or len(p) < 4 + (p[3] & 7) or not p[3] & 7:
            return
        size = p[3] & 7
        value = int.from_bytes(p[4:4 + size], "big", signed=True) / 10 ** (p[3] >> 5)
        what = (p[2], value)
        before = self.allowed(key, p)
        busy = any(c.key == key and c.op["k"] == "sint" and not c.out.done for c in self.calls)
        self.read_order[key].append(what)

        def check():
            after = self.allowed(key, p)
            heard = self.passed[key].count(what)
            sent = self.read_order[key].count(what)
            if heard > sent:
                self.sim.fail("passed-on-twice", "%s of %s was passed on %d times, received %d times" % (what, key, heard, sent))
            if busy or before != after or sent > 1 or any(c.key == key and c.op["k"] == "sint" and not c.out.done for c in self.calls):
                return
            self.sim.probe["reading-%s" % before] += 1
            if before and not heard:
                self.sim.fail("reading-lost", "%s of %s was not passed on, known scales are %s" % (p.hex(), key, self.known_scales(key)))
            if not before and heard:
                self.sim.fail("reading-not-supported", "%s of %s was passed on, known scales are %s" % (p.hex(), key, self.known_scales(key)))

        self.sim.after(QUIET, check)

    def node(self, key):
        return self.sys.app.nodes["%d:%d" % key]

    def known_scales(self, key):
        return {int(t): int(m) for t, m in self.node(key).supported[0x31].supportedTypes.items()}

    def allowed(self, key, p):
        if self.node(key).supported[0x31].version < 5:
            return True
        return bool(self.known_scales(key).get(p[2], 0) >> (p[3] >> 3 & 3) & 1)

    def on_tx(self, now, _sock, dst, data):
        f = zwire.parse(data)
        n = next((i for i, x in self.sys.peers.items() if x.addr == dst), None)
        if f is None or n is None or not f.payload or not self.on:
            return
        k = f.payload[:2]
        if k in (b"\x70\x04", b"\x70\x05", b"\x59\x01", b"\x59\x05"):
            self.asks[(n, f.dep, f.payload)].append((now, f.seq))

    # --- the scenario ---
    async def scenario(self, sim):
        infos = [NodeInfo(n, CLASSES + ([0x60] if e else []), endpoints=[(0x10, 1, CLASSES)] * e) for n, e in self.cfg["nodes"]]
        self.sys = s = System(sim, infos)
        await s.up()
        keys = [(n, ep) for n, e in self.cfg["nodes"] for ep in range(e + 1)]
        self.values = {}
        self.truth = {k: {g: [pr, name, cmds] for g, pr, name, cmds in self.cfg["groups"]["%d:%d" % k]} for k in keys}
        self.support = {k: dict(self.cfg["types"]["%d:%d" % k]) for k in keys}
        for k in keys:
            node = s.app.nodes.get("%d:%d" % k)
            if node is None or any(c not in node.supported for c in (0x31, 0x59, 0x70)):
                sim.fail("setup-failed", "node %s was not loaded completely" % (k,))
                return
        sim.rx_watch.append(self.on_rx)
        sim.net.on_send.append(self.on_tx)
        for n, p in s.peers.items():
            p.responder = self.responder(n)
        for k in keys:
            node = self.node(k)
            node.supported[0x31].__setstate__({"version": self.cfg["vers"]})
            node.supported[0x59].__setstate__({"version": 1})
            node.supported[0x31].addListener(Hearer(self, k))
            if self.cfg["known"]:
                await node.supported[0x31].interview()
        await sim.sleep(64)
        self.on = True
        for p in s.peers.values():
            p.faults = self.cfg["faults"]
        sim.net.rates = self.cfg["rates"]
        base = sim.now
        for op in self.ops:
            sim.at(base + op["t"] * TICK, lambda op=op: self.do(op))
        end = base + (max(o["t"] for o in self.ops) + 64) * TICK
        while sim.now < end:
            await sim.sleep(16)
            self.compare(keys)
        for _ in range(80):
            if all(c.out.done for c in self.calls):
                break
            await sim.sleep(64)
            self.compare(keys)
        for c in self.calls:
            if not c.out.done:
                sim.fail("never-ends", c.out.describe())
        sim.net.rates = {}
        for p in s.peers.values():
            p.faults = {}
        await sim.sleep(64 * 60)
        self.compare(keys, True)
        self.judge_asks()
        # With no more faults an interview tells about all groups
        for k in keys:
            out, task = start(sim, "interview of %s" % (k,), self.node(k).supported[0x59].interview)
            await task
            await sim.sleep(64 * 10)
            if out.exc is not None:
                sim.fail("error", out.describe())
                return
        self.compare(keys, True)
        for k in keys:
            got = self.recorded_groups(k)
            for g, want in self.truth[k].items():
                if got.get(g) != want:
                    sim.fail("group-not-learned", "group %d of %s is recorded as %s, it is %s" % (g, k, got.get(g), want))

    def recorded_groups(self, key):
        return {int(g): [int(x.profile), str(x.name), [[int(a), int(b)] for a, b in x.commands]] for g, x in self.node(key).supported[0x59].groupings.items()}

    def compare(self, keys, final=False):
        """Everything recorded is what was reported last."""
        for k in keys:
            if not final and self.sim.now - self.last.get(k, 0) < QUIET * TICK:
                continue
            self.sim.probe["compared"] += 1
            conf = self.node(k).supported[0x70].parameters
            got = {int(n): (int(x.value), int(x.size)) for n, x in conf.items()}
            if got != self.conf[k]:
                self.sim.fail("configuration-differs", "parameters of %s are recorded as %s, reported were %s" % (k, show(got), show(self.conf[k])))
                return
            got = self.recorded_groups(k)
            if got != self.groups[k]:
                self.sim.fail("groups-differ", "groups of %s are recorded as %s, reported were %s" % (k, show(got), show(self.groups[k])))
                return

    def do(self, op):
        sim, s, k = self.sim, self.sys, op["k"]
        if k == "stall":
            sim.stall(op["ticks"])
            return
        key = (op["n"], op["ep"])
        node = self.node(key)
        if k == "supp":
            self.support[key] = dict(op["types"])
            return
        if k == "gnew":
            self.truth[key][op["g"]] = [op["profile"], op["name"], op["cmds"]]
            return
        payload = None
        if k == "crep":
            self.values[(key, op["num"])] = (op["value"], op["size"])
            payload = conf_report(op["num"], op["value"], op["size"])
        elif k == "ginfo":
            payload = info_report(op["groups"])
        elif k == "gname":
            payload = name_report(op["g"], op["name"])
        elif k == "gcmds":
            payload = list_report(op["g"], op["cmds"])
        elif k == "read":
            self.serial += 1
            raw = self.serial % 256 ** op["size"]
            payload = bytes([0x31, 0x05, op["type"], op["prec"] << 5 | op["scale"] << 3 | op["size"]]) + raw.to_bytes(op["size"], "big")
        if payload is not None:
            if "cut" in op and 2 + op["cut"] < len(payload):
                payload = payload[:2 + op["cut"]]
                sim.fault_count["cut-short"] += 1
            if op["sup"] and len(payload) < 256:
                self.session = (self.session + 1) % 64
                payload = bytes([0x6C, 0x01, self.session, len(payload)]) + payload
            sock = s.socket_of(op["n"]) if op["via"] == "c" else None
            s.peers[op["n"]].cmd(sock.local if sock else (Net.CLIENT_IP, 4123), payload, sep=op["ep"], ack_request=bool(op["ack"] and not sock), link="n%d>%s" % (op["n"], op["via"]))
            return
        c = Call(op, key)
        cc = node.supported[{"c": 0x70, "g": 0x59, "s": 0x31}[k[0]]]
        if k == "cget":
            c.known = op["num"] in cc.parameters
            fn = lambda: cc.get(op["num"], bool(op["cached"]))
        elif k == "cset":
            fn = lambda: cc.set(op["num"], op["size"], op["value"])
            if op["tell"]:
                sim.after(40, lambda: s.peers[op["n"]].report(conf_report(op["num"], *self.values.get((key, op["num"]), (op["value"], op["size"]))), sep=op["ep"]))
        else:
            fn = cc.interview
        if k == "sint":
            c.before = self.known_scales(key)
            for x in self.calls:
                if x.op["k"] == "sint" and x.key == key and not x.out.done:
                    x.overlap = c.overlap = True
        c.out, task = start(sim, "%s of %s" % (k, key), fn)
        self.calls.append(c)
        task.add_done_callback(lambda _t: self.ended(c))
        if op.get("cancel"):
            def cancel():
                if not c.out.done:
                    sim.fault_count["cancelled"] += 1
                    c.cancelled = True
                    task.cancel()

            sim.after(op["cancel"], cancel)

    # --- the judgement ---
    def ended(self, c):
        sim, out, op = self.sim, c.out, c.op
        sim.probe["%s-%s" % (op["k"], "ok" if out.exc is None else "failed")] += 1
        if op["k"] == "sint" and not c.overlap:
            lost = set(c.before) - set(self.known_scales(c.key))
            masks = [x for t, x in self.masks[c.key] if t >= out.start]
            if any(all(t in x for x in masks) for t in lost):
                sim.fail("types-lost", "%s: types %s of %s are not recorded any more, reported since %.4f were %s" % (out.describe(), sorted(lost), c.key, out.start - START, masks))
                return
        if out.exc is not None:
            if not out.timeout and not (c.cancelled and out.cancelled):
                sim.fail("error", out.describe())
            return
        if op["k"] == "cget":
            told = self.told[c.key + (op["num"],)]
            if op["cached"] and c.known:
                if out.value not in [v for _, v, _ in told]:
                    sim.fail("wrong-value", "%s, reported were %s" % (out.describe(), told))
                elif out.end != out.start and not any(o["k"] == "stall" for o in self.ops):
                    sim.fail("not-from-cache", "%s, although parameter %d was known at %.4f" % (out.describe(), op["num"], out.start - START))
            elif not any(v == out.value and (t >= out.start or op["cached"]) for t, v, _ in told):
                sim.fail("wrong-value", "%s, reported were %s, it started at %.4f" % (out.describe(), [(round(t - START, 4), v) for t, v, _ in told], out.start - START))
        elif op["k"] == "sint" and self.cfg["vers"] >= 5:
            got = self.known_scales(c.key)
            for t, m in got.items():
                if m not in [x for _, x in self.scales[c.key + (t,)]]:
                    sim.fail("wrong-scales", "the scales of type %d of %s are recorded as %d, reported were %s" % (t, c.key, m, self.scales[c.key + (t,)]))
                    return
            masks = [x for t, x in self.masks[c.key] if t >= out.start]
            if out.value is not False and not c.overlap and sorted(got) not in masks:
                sim.fail("wrong-types", "%s: types recorded of %s are %s, reported since %.4f were %s" % (out.describe(), c.key, sorted(got), out.start - START, masks))

    def judge_asks(self):
        sim = self.sim
        for t, key, g in self.asked_about:
            for what, ps in (("name", [bytes([0x59, 0x01, g])]), ("commands", [bytes([0x59, 0x05, 0x80, g]), bytes([0x59, 0x05, 0, g])])):
                if not any(x >= t for p in ps for x, _ in self.asks.get(key + (p,), ())):
                    sim.fail("not-asked", "%s was not asked for the %s of group %d after it was reported at %.4f" % (key, what, g, t - START))
                    return
        # Reading and setting sends one command each
        want, may = collections.Counter(), collections.Counter()
        for c in self.calls:
            op = c.op
            if op["k"] == "cget":
                p = bytes([0x70, 0x05, op["num"]])
                if op["cached"] and c.known:
                    continue
            elif op["k"] == "cset":
                p = bytes([0x70, 0x04, op["num"], op["size"]]) + op["value"].to_bytes(op["size"], "big")
            else:
                continue
            may[c.key + (p,)] += 1
            if not c.cancelled and (op["k"] == "cset" or not op["cached"]):
                want[c.key + (p,)] += 1
        for k in sorted(set(may) | {k for k in self.asks if k[2][0] == 0x70}):
            sent = len(self.asks.get(k, ()))
            if not want[k] <= sent <= may[k]:
                sim.fail("sent-wrong", "%s was sent %d times to node %d:%d, expected were %d to %d" % (k[2].hex(), sent, k[0], k[1], want[k], may[k]))
                return


class Hearer:
    """Listener of the sensor class."""

    def __init__(self, world, key):
        self.world, self.key = world, key

    def onReport(self, _speaker, msg, _flags):
        v = msg.sensorValue
        self.world.sim.log("heard", "%d:%d" % self.key)
        if v is not None:
            self.world.passed[self.key].append((int(msg.sensorType), float(v)))


def show(d):
    return {k: d[k] for k in sorted(d)}


def conf_report(number, value, size):
    return bytes([0x70, 0x06, number, size]) + value.to_bytes(size, "big")


def info_report(groups):
    return bytes([0x59, 0x04, 0x80 | len(groups)]) + b"".join(bytes([g, 0, p >> 8, p & 255, 0, 0, 0]) for g, p in groups)


def name_report(group, name):
    raw = name.encode()
    return bytes([0x59, 0x02, group, len(raw)]) + raw


def list_report(group, cmds):
    return bytes([0x59, 0x06, group, 2 * len(cmds)]) + b"".join(bytes(c) for c in cmds)


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = bool(sim.fault_count) or world.reports >= 4
