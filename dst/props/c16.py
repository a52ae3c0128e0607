"""C16: interviews end, and record only what the node actually said."""
import asyncio
import collections

from .. import zwire
from ..nodemodel import IMPLEMENTED, OTHERS, Script, peek
from ..sim import START, TICK, Net
from ..world import NodeInfo, System, start

ID = "C16"
RUNS = {"quick": 3000, "thorough": 150000}
RULE = ("One run = interviews of nodes, endpoints and single command classes, repeated and overlapping, against nodes that lose, delay, duplicate, refuse or damage answers to chosen requests, change their data and send unrelated reports; "
        "every recorded value is compared with the reports received. Non-trivial: an interview with lost, late or stray answers.")
REAL = ["pyzwave.node", "pyzwave.commandclass", "pyzwave.util", "pyzwave.application", "pyzwave.zipgateway", "pyzwave.zipconnection", "pyzwave.connection", "codec", "asyncio tasks, timeouts, cancellation"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
SHRINK = ("faults", "mute")

STRICT = (0x86, 0x72, 0x5E, 0x31)
FIELDS = {
    0x86: (b"\x86\x12", ("zwaveLibraryType", "zwaveProtocolVersion", "zwaveProtocolSubVersion", "applicationVersion", "applicationSubVersion"), (1, 1, 1, 1, 1)),
    0x72: (b"\x72\x05", ("manufacturerID", "productTypeID", "productID"), (2, 2, 2)),
    0x5E: (b"\x5e\x02", ("zwavePlusVersion", "roleType", "nodeType", "installerIconType", "userIconType"), (1, 1, 1, 2, 2)),
}
KEYS = ["8611", "7204", "5e01", "3101", "8505", "8502:1", "8502:2", "8e02:1", "8e02:2", "8502:1", "8e02:1", "5903"]
OWN = 0xB7  # a command class added by the application
RESULTS = {"true": True, "none": None, "false": False, "error": ValueError("interview"), "timeout": asyncio.TimeoutError()}


def own_class(world):
    """A command class whose interview ends the way the plan says."""
    from pyzwave.commandclass import ZWaveCommandClass
    from pyzwave.commandclass.CommandClass import CommandClass

    @ZWaveCommandClass(OWN)
    class Own(CommandClass):
        NAME = "OWN"

        async def interview(self):
            own = world.cfg.get("own") or ["true"]
            what = own[len(world.own) % len(own)]
            world.own.append((self.node.nodeId, what))
            world.sim.fault_count["interview-" + what] += what in ("error", "timeout", "false")
            if isinstance(RESULTS[what], BaseException):
                raise RESULTS[what]
            return RESULTS[what]


def key_of(p):
    """Which question a request asks."""
    k = p[:2].hex()
    if k in ("8613", "3103", "8502", "8e02") and len(p) > 2:
        return "%s:%d" % (k, p[2])
    return k


def gen_overlap(rng):
    """Interviews of one class that overlap, while the node changes what it supports."""
    classes = rng.sample([0x31, 0x85, 0x59], rng.randint(1, 3)) + rng.sample(STRICT[:3], 1)
    ops, t = [], 0
    for _ in range(rng.randint(3, 8)):
        ops.append({"t": t, "n": 5, "ep": 0, "k": rng.weighted([("one", 5), ("interview", 1), ("salt", 4)])})
        if ops[-1]["k"] != "salt":
            ops[-1].update(cc=rng.randint(0, 30), cancel=rng.choice([None, None, None, None, rng.randint(0, 60)]))
        t += rng.choice([0, 1, 3, rng.randint(1, 20), rng.randint(1, 60), rng.randint(1, 300)])
    faults = rng.choice([{}, {"slow": 0.3, "slow_max": rng.choice([10, 150])}, {"slow": 0.2, "slow_max": 150, "noreply": 0.1}])
    return {"cfg": {"nodes": [{"id": 5, "classes": classes + [0x8E] * rng.choice([0, 1]), "eps": []}], "faults": faults, "mute": []}, "ops": ops}


def gen(rng, index, tier):
    if index % 12 == 7:
        return gen_overlap(rng)
    ids = rng.sample([2, 3, 5, 30, 200, 232], rng.randint(1, 2))
    nodes = []
    for n in ids:
        def pick():
            c = rng.sample(IMPLEMENTED, rng.randint(2, len(IMPLEMENTED))) + rng.sample(OTHERS, rng.randint(0, 3))
            for cc in STRICT:
                if cc not in c and rng.chance(0.6):
                    c.append(cc)
            if 0x85 in c and 0x8E not in c and rng.chance(0.4):
                c.append(0x8E)
            if rng.chance(0.25):
                c.append(OWN)
            rng.shuffle(c)
            return c

        nodes.append({"id": n, "classes": pick(), "eps": [pick() for _ in range(rng.choice([0, 0, 1, 2]))]})
    mode = rng.choice(["clean", "mute", "mute", "faults", "faults"])
    faults = {}
    if mode == "faults":
        faults = {"noack": rng.choice([0, 0.05, 0.2]), "noreply": rng.choice([0, 0.1, 0.4]), "slow": rng.choice([0, 0.3]), "slow_max": rng.choice([10, 150, 400, 900]),
                  "slowack": rng.choice([0, 0.2]), "slowack_max": 250, "early": rng.choice([0, 0.3]), "dup": rng.choice([0, 0.2]), "dup_max": 900}
    mute = []
    if mode == "mute":
        for _ in range(rng.randint(1, 4)):
            node = rng.choice(nodes)
            ep = rng.randint(0, len(node["eps"]))
            cl = node["eps"][ep - 1] if ep else node["classes"]
            what = rng.choice(KEYS + ["8613:%d" % rng.choice(cl)] * 4 + ["3103:%d" % rng.randint(1, 6)] * 2)
            mute.append([node["id"], ep, what, rng.choice(["none", "noack", "nack", "junk", "short", "other", "late", "late:%d" % rng.choice([193, 194, 195, 196, 197, 198, 200, 388, 392])])])
    ops = []
    t = 0
    for _ in range(rng.randint(1, 6 if tier == "quick" else 20) if index % 100 != 53 else rng.randint(20, 40)):
        node = rng.choice(nodes)
        ep = rng.randint(0, len(node["eps"]))
        op = {"t": t, "n": node["id"], "ep": ep}
        k = rng.weighted([("interview", 6), ("one", 2), ("stray", 2), ("salt", 1.6), ("stall", 0.4), ("heal", 0.7)])
        op["k"] = k
        if k in ("interview", "one"):
            op["cc"] = rng.randint(0, 30)
            op["cancel"] = rng.choice([None, None, None, None, rng.randint(0, 60), rng.randint(0, 900)])
        elif k == "stray":
            f = rng.choice([0x86, 0x72, 0x5E])
            op["data"] = rng.choice([FIELDS[f][0] + rng.bytes(sum(FIELDS[f][2])), bytes([0x86, 0x14, rng.choice(IMPLEMENTED), rng.randint(0, 9)]), bytes([0x31, 0x06, rng.randint(1, 6), rng.randint(0, 15)]),
                                     bytes([0x31, 0x02, rng.randint(0, 255)]), bytes([0x85, 0x03, rng.randint(1, 3), 5, 0, 9]), bytes([0x85, 0x06, 2])]).hex()
        elif k == "stall":
            op["ticks"] = rng.randint(1, 40)
        ops.append(op)
        t += rng.choice([0, 0, 1, 20, 64, 300, 2000, 6000])
    own = [rng.choice(sorted(RESULTS)) for _ in range(rng.randint(1, 4))]
    return {"cfg": {"nodes": nodes, "faults": faults, "mute": mute, "own": own}, "ops": ops}


class World:
    def __init__(self, sim, plan):
        self.sim, self.cfg, self.ops = sim, plan["cfg"], plan["ops"]
        self.rx = collections.defaultdict(list)  # node key -> [(time, payload)]
        self.tx = collections.defaultdict(list)
        self.outs = []  # (outcome, node key, class or None, cancelled)
        self.mutes = {(n, ep, what): how for n, ep, what, how in self.cfg["mute"]}
        self.stalls = 0.0
        self.busy = None
        self.since = collections.defaultdict(lambda: START)  # (node, class) -> start of the period of its last complete interview
        self.exact = not self.cfg["faults"]
        self.strays = False
        self.salts = set()
        self.own = []

    # --- the nodes ---
    def script(self, n):
        sim, answers = self.sim, Script(n)
        self.scripts[n] = answers

        def respond(frame, src):
            p, ep = frame.payload, frame.dep
            how = self.mutes.get((n, ep, key_of(p)))
            replies = answers(frame, src)
            peer = self.sys.peers[n]
            if how is None:
                if not self.exact:
                    return None
                return [[0, "ack", None]] * frame.ack_request + [[1 + i, "reply", r.hex()] for i, r in enumerate(replies)]
            sim.fault_count["answer-" + how.split(":")[0]] += 1
            first = replies[0] if replies else p[:2]
            if how == "none":
                return [[0, "ack", None]]
            if how == "noack":
                return []
            if how == "nack":
                return [[0, "nack", 4 * (len(frame.payload) % 3)]]
            if how == "junk":  # does not decode
                return [[0, "ack", None], [1, "reply", first[:1].hex()]]
            if how == "short":
                cut = first[:2] + first[2:3] if p[:2] in (b"\x31\x03", b"\x86\x13") else first[:2]
                self.damaged.add((peer.name, ep, cut))
                return [[0, "ack", None], [1, "reply", cut.hex()]]
            if how == "other":
                if p[:2] in (b"\x86\x13", b"\x31\x03", b"\x85\x02", b"\x8e\x02"):
                    return [[0, "ack", None], [1, "reply", (first[:2] + bytes([first[2] ^ 1]) + first[3:]).hex() if len(first) > 3 else "2003aa"]]
                return [[0, "ack", None], [1, "reply", "2003aa"]]
            delay = int(how[5:]) if ":" in how else 64 * 7
            return [[0, "ack", None], [delay, "reply", first.hex()]]  # late

        return respond, answers

    def on_rx(self, _sock, data, addr):
        f = zwire.parse(data)
        if f is None or len(f.payload) < 2:
            return
        for n, peer in self.sys.peers.items():
            if peer.addr == addr:
                self.rx["%d:%d" % (n, f.sep)].append((self.sim.now, f.payload))

    def on_tx(self, now, _sock, dst, data):
        f = zwire.parse(data)
        if f is None or f.ack or f.nack:
            return
        for n, peer in self.sys.peers.items():
            if peer.addr == dst:
                self.tx["%d:%d" % (n, f.dep)].append((now, f.payload))

    # --- scenario ---
    async def scenario(self, sim):
        infos = [NodeInfo(n["id"], ([0x60] if n["eps"] else []) + n["classes"], endpoints=[(0x10, 1, c) for c in n["eps"]]) for n in self.cfg["nodes"]]
        own_class(self)
        self.sys = s = System(sim, infos)
        self.scripts = {}
        self.damaged = set()
        await s.up()
        for n, peer in s.peers.items():
            peer.script, peer.responder = self.script(n)
            peer.faults = self.cfg["faults"]
        sim.rx_watch.append(self.on_rx)
        sim.net.on_send.append(self.on_tx)
        self.base = sim.now
        for op in self.ops:
            sim.at(self.base + op["t"] * TICK, (lambda op=op: self.do(op)))
        await sim.until(self.base + max([o["t"] for o in self.ops] or [0]) * TICK)
        for _ in range(400):
            if all(o.done for o, *_ in self.outs):
                break
            await sim.sleep(64 * 10)
        for out, key, cc, _t in self.outs:
            if not out.done:
                sim.fail("never-ends", "the interview of %s %s started at %.4f did not end within %d s" % (key, hexcc(cc), out.start - START, sim.now - out.start))
                return
        await sim.sleep(64 * 20)
        self.judge()

    def do(self, op):
        sim, s, k = self.sim, self.sys, op["k"]
        if k == "stall":
            self.stalls += op["ticks"] * TICK
            sim.stall(op["ticks"])
            return
        if k == "heal":
            self.mutes = {}
            return
        key = "%d:%d" % (op["n"], op["ep"])
        if k == "salt":
            sc = self.scripts[op["n"]]
            sc.salt[op["ep"]] = sc.salt.get(op["ep"], 0) + 1
            self.salts.add(key)
            return
        if k == "stray":
            sim.fault_count["stray-report"] += 1
            s.peers[op["n"]].cmd((Net.CLIENT_IP, 4123), bytes.fromhex(op["data"]), sep=op["ep"], link="x>u")
            return
        node = s.app.nodes.get(key)
        if node is None:
            sim.fail("setup-failed", "node %s is unknown" % key)
            return
        cc = None
        target = node
        if k == "one":
            ids = sorted(node.supported)
            cc = ids[op["cc"] % len(ids)]
            target = node.supported[cc]
        known = {c: x.version for c, x in node.supported.items()}
        running = any(not o.done and kk == key for o, kk, _, _ in self.outs)
        out, task = start(sim, "interview", target.interview)
        out.name = "interview of %s %s" % (key, hexcc(cc))
        rec = [out, key, cc, None]
        self.outs.append(rec)
        tx0 = len(self.tx[key])
        own0 = len(self.own)

        def ended(_t):
            self.ended(rec, node, known, running, tx0, self.own[own0:])

        task.add_done_callback(ended)
        if op["cancel"] is not None:
            def cancel():
                if not out.done:
                    sim.fault_count["cancelled"] += 1
                    rec[3] = sim.now
                    task.cancel()

            sim.after(op["cancel"], cancel)

    def ended(self, rec, node, known, running, tx0, own):
        """Bounded end, no error, every class had its turn."""
        sim = self.sim
        out, key, cc, cancelled = rec
        sim.probe["interviews"] += 1
        if cancelled is not None:
            if out.end > cancelled + self.stalls + 0.5:
                sim.fail("not-cancelled", "%s was cancelled at %.4f and ended at %.4f" % (out.name, cancelled - START, out.end - START))
            return
        results = [what for k, what in own if k == key]
        overlap = any(o is not out and kk == key and (not o.done or o.end >= out.start) for o, kk, _, _ in self.outs)
        if cc == OWN and results:
            want = RESULTS[results[0]]
            if overlap or len(results) > 1:
                return  # not known which of them was its own
            if results[0] == "timeout" and out.value is not False or results[0] == "error" and not isinstance(out.exc, ValueError) or results[0] in ("true", "none", "false") and (out.exc is not None or out.value is not want):
                sim.fail("wrong-result", "%s, its class ended with %s" % (out.describe(), results[0]))
            return
        if (cc is None or cc == OWN) and known.get(OWN) and not results:
            sim.fail("skipped", "%s did not interview the class of the application" % out.name)
            return
        if out.exc is not None and (cc is None or not out.timeout and not self.damaged):
            sim.fail("error", out.describe())
            return
        n, ep = (int(x) for x in key.split(":"))
        groups = max([len(d.groups) for (e, _), d in self.scripts[n].cache.items() if e == ep] or [0]) + 2
        cost = 0
        for c in (node.supported if cc is None else [cc]):
            cost += 1 + {0x86: 1, 0x72: 1, 0x5E: 1, 0x31: 1 + 20, 0x85: 1 + groups + 2, 0x59: 1}.get(c, 0)
        limit = 6.1 * cost + self.stalls + 1
        if out.end - out.start > limit:
            sim.fail("too-long", "%s took %.2f s, at most %.2f s expected" % (out.name, out.end - out.start, limit))
        sent = [p for _, p in self.tx[key][tx0:]]
        for c in (node.supported if cc is None else [cc]):
            if not known[c] and not running and bytes([0x86, 0x13, c]) not in sent:
                sim.fail("skipped", "%s did not ask for the version of class 0x%02x" % (out.name, c))
                return
            first = {0x86: b"\x86\x11", 0x72: b"\x72\x04", 0x5E: b"\x5e\x01", 0x31: b"\x31\x01", 0x85: b"\x85\x05", 0x59: b"\x59\x03"}.get(c)
            if known[c] and first and (c != 0x31 or known[c] >= 5) and not any(p.startswith(first) for p in sent):
                sim.fail("skipped", "%s did not interview class 0x%02x" % (out.name, c))
                return

    # --- judgement ---
    def judge(self):
        sim = self.sim
        for key, node in self.sys.app.nodes.items():
            mine = [r for r in self.outs if r[1] == key]
            for c, obj in node.supported.items():
                # the period of overlapping interviews that contains the last complete one of this class
                since = START
                last = None
                full = [r for r in mine if r[3] is None and r[2] in (None, c)]
                if full:
                    last = max(full, key=lambda r: r[0].end)
                    since = last[0].start
                    changed = True
                    while changed:
                        changed = False
                        for r in mine:
                            if r[0].start < since <= r[0].end:
                                since, changed = r[0].start, True
                self.judge_class(key, node, c, obj, since, last, mine)
                if sim.violations:
                    return
        if sim.loop.callback_errors and not self.mutes and not self.cfg["mute"]:
            sim.fail("exception", repr(sim.loop.callback_errors[0]))

    def heard(self, key, prefix, t=START, end=1e18):
        return [p for x, p in self.rx[key] if t <= x <= end and p.startswith(prefix)]

    def judge_class(self, key, node, c, obj, since, last, mine):
        sim = self.sim
        name = "node %s class 0x%02x" % (key, c)
        known = {p[3] for p in self.heard(key, bytes([0x86, 0x14, c])) if len(p) > 3}
        version = obj.version
        if version not in known | {0}:
            sim.fail("wrong-version", "%s has version %s, reported were %s" % (name, version, sorted(known)))
            return
        if obj.interviewed and not version:
            sim.fail("unversioned", "%s is marked as interviewed although its version is not known" % name)
            return
        if c == OWN:
            results = [what for k, what in self.own if k == key]
            if obj.interviewed != (results[-1:] in (["true"], ["none"])):
                sim.fail("wrong-mark", "%s is marked as interviewed: %s, its interviews ended with %s" % (name, obj.interviewed, results))
            return
        if c in FIELDS:
            prefix, names, sizes = FIELDS[c]
            have = tuple(int(peek(obj, a, t)) for a, t in obj.attributes if a in names)
            got = [decode(p[2:], sizes) for p in self.heard(key, prefix)]
            if have not in got + [(0,) * len(names)] and not self.partial(have, got):
                sim.fail("wrong-values", "%s has %s, reported were %s" % (name, have, got))
                return
            if obj.interviewed:
                new = [decode(p[2:], sizes) for p in self.heard(key, prefix, since)]
                if have not in new and not self.partial(have, new):
                    sim.fail("not-reported", "%s is interviewed with %s, but since %.4f only %s was received" % (name, have, since - START, new))
                    return
        if c == 0x31:
            types = {int(k): int(v) for k, v in peek(obj, *obj.attributes[0]).items()}
            scales = collections.defaultdict(set)
            for p in self.heard(key, b"\x31\x06"):
                if len(p) > 3:
                    scales[p[2]].add(p[3] & 15)
            for t, m in types.items():
                if m not in scales[t]:
                    sim.fail("wrong-values", "%s has scales %s for type %d, reported were %s" % (name, m, t, scales[t]))
                    return
            if obj.interviewed and version >= 5:
                lists = [mask(p[2:]) for p in self.heard(key, b"\x31\x02", since)]
                new = {(p[2], p[3] & 15) for p in self.heard(key, b"\x31\x06", since) if len(p) > 3}
                ok = [b for b in lists if all((t, types.get(t)) in new for t in b)]
                if not ok:
                    sim.fail("not-reported", "%s is interviewed with %s, but since %.4f only the types %s and scales %s were received" % (name, types, since - START, lists, sorted(new)))
                    return
                if len(mine) == 1 and set(types) not in ok:
                    sim.fail("wrong-values", "%s has the types %s, reported were %s" % (name, sorted(types), ok))
                    return
                if set(types) not in [set(b) for b in ok] and last is not None and sum(1 for r in mine if r[0].end >= since) == 1:
                    sim.fail("stale-values", "%s still has the types %s, but %s were reported by the last interview" % (name, sorted(types), ok))
                    return
        if c == 0x85:
            for g, group in peek(obj, *obj.attributes[0]).items():
                vals = dict((a, peek(group, a, t)) for a, t in group.attributes)
                have = (int(vals["maxNodes"]), [tuple(x) for x in vals["nodes"]])
                got = [assoc(p) for p in self.heard(key, bytes([0x85, 0x03, g])) + self.heard(key, bytes([0x8E, 0x03, g])) if len(p) >= 5]
                if have not in got + [(0, [])]:
                    sim.fail("wrong-values", "%s group %d has %s, reported were %s" % (name, g, have, got))
                    return
        if c == 0x59:
            infos, names, cmds = collections.defaultdict(list), collections.defaultdict(list), collections.defaultdict(list)
            for p in self.heard(key, b"\x59\x04"):
                for i in range(3, len(p) - 6, 7):
                    infos[p[i]].append(p[i + 2] << 8 | p[i + 3])
            for p in self.heard(key, b"\x59\x02"):
                if len(p) > 3:
                    names[p[2]].append(p[4:4 + p[3]].decode("utf-8", "replace"))
            for p in self.heard(key, b"\x59\x06"):
                if len(p) > 3:
                    cmds[p[2]].append([list(p[j:j + 2]) for j in range(4, 4 + p[3] - 1, 2)])
            for g, have in agi(obj).items():
                if have[0] not in infos[g] or have[1] not in names[g] + [""] or have[2] not in cmds[g] + [[]]:
                    sim.fail("wrong-values", "%s group %d has %s, reported were %s %s %s" % (name, g, have, infos[g], names[g], cmds[g]))
                    return
        # progress: nothing stood in the way of this class
        if not self.exact or last is None or since != last[0].start and any(r[3] is not None for r in mine):
            return
        n, ep = (int(x) for x in key.split(":"))
        if any(r[3] is not None and r[0].end > since for r in mine):
            return
        muted = {w for (a, b, w) in [(m[0], m[1], m[2]) for m in self.cfg["mute"]] if (a, b) == (n, ep)}
        if "8613:%d" % c in muted or key in self.salts or any(o["k"] == "stray" and (o["n"], o["ep"]) == (n, ep) for o in self.ops):
            return
        d = self.scripts[n].data(ep)
        v = d.versions.get(c, 1)
        if obj.version != v:
            sim.fail("not-learned", "%s: the version is %s, the node reported %s" % (name, obj.version, v))
            return
        if not v:
            return
        if c == 0x85 and "8505" not in muted:
            ask = "8e02" if 0x8E in self.sys.app.nodes[key].supported else "8502"
            for g, group in peek(obj, *obj.attributes[0]).items():
                vals = dict((a, peek(group, a, t)) for a, t in group.attributes)
                have = (int(vals["maxNodes"]), [tuple(x) for x in vals["nodes"]])
                g0 = d.groups.get(int(g))
                if g0 and "%s:%d" % (ask, g) not in muted and (have[0] != g0[0] or sorted(map(repr, have[1])) != sorted(map(repr, g0[1] + (g0[2] if ask == "8e02" else [])))):
                    sim.fail("not-learned", "%s: group %d is %s, the node reported %s" % (name, g, have, g0))
                    return
        if any(w.startswith("%02x" % c) or (c == 0x86 and w == "8611") or c == 0x85 and w.startswith("8e") for w in muted):
            return
        if not obj.interviewed:
            sim.fail("not-interviewed", "%s is not interviewed although the node answered everything" % name)
        elif c == 0x31 and v >= 5:
            types = {int(k): int(x) for k, x in peek(obj, *obj.attributes[0]).items()}
            if types != d.sensors:
                sim.fail("not-learned", "%s: %s, the node reported %s" % (name, types, d.sensors))
        elif c == 0x85:
            groups = {int(g) for g in peek(obj, *obj.attributes[0])}
            if groups != set(d.groups):
                sim.fail("not-learned", "%s: groups %s, the node reported %s" % (name, groups, sorted(d.groups)))
        elif c == 0x59:
            want = {g: (x[0], x[1], x[2]) for g, x in d.agi.items()}
            if agi(obj) != want:
                sim.fail("not-learned", "%s: %s, the node reported %s" % (name, agi(obj), want))

    @staticmethod
    def partial(have, got):
        """A report that ends early leaves the rest at zero."""
        for g in got:
            if len(g) < len(have) and have[:len(g)] == g and not any(have[len(g):]):
                return True
        return False


def decode(p, sizes):
    out = []
    for s in sizes:
        if len(p) < s:
            break
        out.append(int.from_bytes(p[:s], "big"))
        p = p[s:]
    return tuple(out)


def mask(p):
    v = int.from_bytes(p, "little")
    return {i + 1 for i in range(v.bit_length()) if v >> i & 1}


def agi(obj):
    out = {}
    for g, group in peek(obj, *obj.attributes[0]).items():
        vals = dict((a, peek(group, a, t)) for a, t in group.attributes)
        out[int(g)] = (int(vals["profile"]), str(vals["name"]), [list(map(int, x)) for x in vals["commands"]])
    return out


def assoc(p):
    body, nodes = p[5:], []
    if 0 in body:
        i = body.index(0)
        nodes = [(x, None) for x in body[:i]] + [(body[j], body[j + 1]) for j in range(i + 1, len(body) - 1, 2)]
    else:
        nodes = [(x, None) for x in body]
    return (p[3], nodes)


def hexcc(cc):
    return "" if cc is None else "class 0x%02x" % cc


def run(sim, plan):
    world = World(sim, plan)
    sim.run(world.scenario)
    sim.nontrivial = sim.probe["interviews"] > 0 and bool(sim.fault_count)
