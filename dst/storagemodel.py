"""C13 and C14: saving and restoring node data over process lifetimes, with a simulated disk."""
import asyncio
import collections

from . import zwire
from .fsim import Disk, SimCrash
from .nodemodel import IMPLEMENTED, OTHERS, Script, canon, difference, learned, short, snapshot
from .sim import START, TICK, Net
from .world import NodeInfo, System, kill_process, start

SETTLE = 64 * 200


def classes(rng):
    out = rng.sample(IMPLEMENTED, rng.randint(3, len(IMPLEMENTED)))
    for cc in (0x70, 0x85, 0x59):
        if cc not in out and rng.chance(0.6):
            out.append(cc)
    out += rng.sample(OTHERS, rng.randint(0, 3))
    if rng.chance(0.2):
        out.insert(rng.randint(0, len(out)), 0xF1)
        i = out.index(0xF1)
        out.insert(i + 1, 0x00)
    if rng.chance(0.3):
        out += [0xEF, 0x20, 0x87]
    return out


def conf(rng):
    size = rng.choice([1, 1, 2, 4])
    v = rng.choice([0, 1, 2 ** (8 * size) - 1, 2 ** (8 * size - 1), rng.randint(0, 2 ** (8 * size) - 1)])
    return {"p": rng.choice([0, 1, 2, 3, 255, rng.randint(0, 255)]), "size": size, "v": v}


def gen(rng, tier, disk, big=False):
    nodes = []
    ids = rng.choice([[2, 20, 200], [3, 30, 23], [23, 232, 2], [12, 2, 21], [5, 6, 7], [10, 100, 110], [255 - 24, 31, 3]])
    rng.shuffle(ids)
    if big:
        ids = rng.sample(range(2, 233), rng.randint(3, 12))
    for i in range(rng.randint(1, 3) if not big else len(ids)):
        eps = [classes(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
        nodes.append({"id": ids[i], "classes": classes(rng), "eps": eps})
    if rng.chance(0.06):
        # numbers of nodes and end points that look alike when put together: 1:23 and 12:3, 2:11 and 21:1
        few = lambda: [0x70] + rng.sample(IMPLEMENTED[:4], 1)  # noqa: E731
        nodes = [{"id": a, "classes": few(), "eps": [few() for _ in range(n)]} for a, n in rng.choice([[(2, 12), (21, 3)], [(1 + 9, 13), (101, 3)], [(12, 3), (2, 11), (121, 1)]])]
    quiet = rng.chance(0.4)
    faults = {} if quiet else {"noack": rng.choice([0, 0.05, 0.2]), "noreply": rng.choice([0, 0.1, 0.3]), "slow": rng.choice([0, 0.3]), "slow_max": rng.choice([10, 150, 400]), "dup": rng.choice([0, 0.1])}
    phases = []
    for i in range(rng.randint(2, 4 if tier == "quick" else 8) if not big else rng.randint(2, 10)):
        segments = []
        for s in range(rng.randint(1, 2)):
            ops = []
            t = 0
            for _ in range(rng.randint(0, 6 if not big else 20)):
                node = rng.choice(nodes)
                op = {"n": node["id"], "ep": rng.choice([0, rng.randint(0, len(node["eps"]))]), "t": t}
                kind = rng.weighted([("interview", 4), ("conf", 4), ("agi", 1), ("salt", 1), ("one", 1)])
                op["k"] = kind
                if kind in ("interview", "one"):
                    op["lock"] = rng.randint(0, 1)
                    op["cancel"] = rng.choice([None, None, None, rng.randint(1, 60), rng.randint(1, 900)])
                    op["cc"] = rng.randint(0, 20)
                if kind == "conf":
                    op.update(conf(rng))
                    op["via"] = rng.choice(["u", "u", "c"])
                    op["sup"] = int(rng.chance(0.1))
                ops.append(op)
                t += rng.choice([0, 1, 5, 64, 300, 800])
            gone = rng.sample([n["id"] for n in nodes], rng.randint(0, len(nodes))) if s and rng.chance(0.4) else None
            segments.append({"gone": gone, "ops": ops})
        ph = {"segs": segments, "early": [], "drop": []}
        for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
            node = rng.choice(nodes)
            ph["early"].append(dict(conf(rng), n=node["id"], ep=rng.choice([0, rng.randint(0, len(node["eps"]))]), t=rng.randint(0, 30)))
        if i and rng.chance(0.2):
            ph["drop"] = rng.sample(IMPLEMENTED, 2)
        if disk:
            ph["disk"] = faultplan(rng)
            ph["arm"] = rng.choice([-1, rng.randint(0, 3), rng.randint(0, 20)])  # before start-up, or before the nth save
        if disk and i and rng.chance(0.15):
            # a start at which files cannot be read, and nothing else
            ph = {"segs": [], "early": [], "drop": [], "read": []}
            for _ in range(rng.choice([1, 1, 2])):
                ph["read"].append({"at": rng.randint(0, 4), "do": rng.choice(["eio", "emfile", "eacces", "read", "read"]), "part": rng.randint(0, 3), "len": rng.choice([1, 1, 2, 9])})
        ph["kill"] = rng.randint(0, 3000) if rng.chance(0.15) else None
        phases.append(ph)
    if rng.chance(0.12):
        twins(rng, nodes, phases)
    return {"cfg": {"nodes": nodes, "faults": faults, "trunc": 0 if quiet else rng.choice([0, 0, 0.05]), "slowgw": rng.choice([0, 0, 3, 12])}, "ops": [dict(p, t=i) for i, p in enumerate(phases)]}


def twins(rng, nodes, phases):
    """Nodes and end points of one kind, that are told the same: their data is equal, and still each has its own."""
    same = [0x70] + rng.sample(OTHERS, 1)
    for n in nodes:
        n["eps"] = n["eps"] or [same]
        n["eps"] = [[0x60] + same for _ in n["eps"]]
        n["classes"] = same
    targets = [(n["id"], e) for n in nodes for e in range(len(n["eps"]) + 1)]
    for ph in phases:
        for seg in ph["segs"]:
            t = max([o["t"] for o in seg["ops"]] or [0]) + 64
            for _ in range(rng.randint(1, 3)):
                c = conf(rng)
                for n, e in rng.sample(targets, rng.randint(2, len(targets))):
                    seg["ops"].append(dict(c, n=n, ep=e, t=t, k="conf", via="u", sup=0))
                    t += rng.choice([0, 1, 5])
                t += 64


def faultplan(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        do = rng.choice(["kill", "kill", "power", "power", "eio", "enospc", "enospc", "short", "erofs"])
        f = {"at": rng.randint(0, 7), "do": do, "part": rng.randint(0, 4), "after": rng.randint(0, 1)}
        if do == "power":
            f["left"] = rng.randint(0, 4)
        if do in ("eio", "enospc", "erofs", "short"):
            f["len"] = rng.choice([1, 1, 2, 5, 12])
        out.append(f)
    return out


class World:
    def __init__(self, sim, plan, disk):
        self.sim, self.cfg, self.phases, self.disk = sim, plan["cfg"], plan["ops"], disk
        self.possible = collections.defaultdict(lambda: [{}])  # node -> what may be on the disk
        self.base = {}
        self.early = collections.defaultdict(list)  # node -> [(time, parameter, (value, size))]
        self.dirty = {}  # node -> the last save of it failed
        self.outs = []
        self.added = set()
        self.saves = collections.Counter()
        self.since = {}
        self.done = None
        self.task = None
        self.phase = 0
        self.armed = None
        self.total = 0
        self.defaults = {}

    # --- reference model of the disk ---
    def default(self, cc):
        from pyzwave.commandclass import CommandClass

        if cc not in self.defaults:
            self.defaults[cc] = learned(CommandClass.load(cc, False, None))
        return self.defaults[cc]

    def expand(self, snap, ids):
        return {cc: snap.get(cc) or self.default(cc) for cc in ids}

    def storage(self):
        from pyzwave.persistantstorage import YamlStorage

        w = self

        class Store(YamlStorage):
            def nodeUpdated(self, node):
                key, snap = node.nodeId, snapshot(node)
                if w.disk.dead:
                    raise SimCrash()
                if w.armed is not None and w.total >= w.armed:
                    w.disk.arm(w.phases[w.phase]["disk"])
                    w.armed = None
                w.total += 1
                w.sim.log("save", key)
                w.sim.probe["saves"] += 1
                before = list(w.possible[key])
                w.possible[key] = before + [snap]
                w.dirty[key] = True
                super().nodeUpdated(node)
                w.possible[key] = [snap]
                w.dirty[key] = False
                w.saves[key] += 1

        return Store(self.disk.root + "/store")

    def matches(self, got, snap, early):
        want = self.expand(snap, got)
        if got == want:
            return True
        for cc in got:
            if got[cc] != want[cc] and (cc != 0x70 or not early):
                return False
        # configuration parameters may have been reported since
        g, w = self.parameters(got[0x70]), self.parameters(want[0x70])
        if g is None or w is None or got[0x70][:2] != want[0x70][:2]:
            return False
        for p in set(g) | set(w):
            ok = [x for q, x in early if q == p]
            if g.get(p) == w.get(p):
                continue
            if p not in g or self.plain(g[p]) not in ok:
                return False
        return True

    @staticmethod
    def parameters(cls):
        for name, value in cls:
            if name == "parameters":
                return {k[1]: v for _, k, v in value[1]}
        return None

    @staticmethod
    def plain(value):
        d = dict(value[1])
        return (d["value"][1], d["size"][1])

    # --- process lifetimes ---
    async def scenario(self, sim):
        self.task = asyncio.current_task()
        infos = [NodeInfo(n["id"], ([0x60] if n["eps"] else []) + n["classes"], endpoints=[(0x10, 1, c) for c in n["eps"]]) for n in self.cfg["nodes"]]
        self.infos = {i.id: i for i in infos}
        self.all_classes = {i.id: list(i.classes) for i in infos}
        self.sys = s = System(sim, infos)
        self.scripts = {}
        for n, peer in s.peers.items():
            script = self.scripts[n] = Script(n)
            peer.faults = self.cfg["faults"]

            def respond(frame, src, script=script, n=n):
                out = script(frame, src)
                if out and self.cfg["trunc"]:
                    cut = sim.chooser.pick("trunc:%d" % n, lambda r: 1 if r.chance(self.cfg["trunc"]) else None)
                    if cut:
                        sim.fault_count["peer-truncated"] += 1
                        out = [p[:-1] for p in out]
                return out

            peer.responder = respond
        if self.cfg["slowgw"]:
            s.gw.faults = {"slow": 1, "slow_max": self.cfg["slowgw"]}
        self.disk.on_crash = self.crashed
        sim.rx_watch.append(self.on_rx)
        for i, ph in enumerate(self.phases):
            self.phase = i
            if not await self.life(ph):
                return
        # one more start on a working disk: everything must be there
        self.phase = len(self.phases)
        await self.life({"segs": [], "early": [], "drop": [], "kill": None, "final": 1})

    def crashed(self):
        """Called from inside a file system call: the process is dead as of now."""
        self.sim.net.blocked["*"] = True
        self.sim.at(self.sim.now, self.end_life)

    def end_life(self):
        self.disk.die()
        kill_process(self.sim, {self.task})
        self.sim.net.blocked.clear()
        if not self.done.done():
            self.done.set_result(None)

    async def life(self, ph):
        sim, s = self.sim, self.sys
        self.done = sim.loop.create_future()
        self.disk.restart()
        for n, info in self.infos.items():
            info.classes = [c for c in self.all_classes[n] if c not in ph["drop"]]
        s.gw.nodes = dict(self.infos)
        self.base = {k: list(v) for k, v in self.possible.items()}
        self.early.clear()
        self.dirty.clear()
        self.since = collections.defaultdict(lambda: sim.now)
        self.born = sim.now
        self.outs = []
        self.added = set()
        self.armed = None
        self.total = 0
        self.problem = None
        if ph.get("disk"):
            if ph["arm"] < 0:
                self.disk.arm(ph["disk"])
            else:
                self.armed = ph["arm"]
        self.disk.arm_read(ph.get("read") or [])
        s.storage = self.storage()
        s.make()
        s.app.addListener(self)
        for op in ph["early"]:
            sim.at(sim.now + op["t"] * TICK, (lambda op=op, done=self.done: done.done() or self.conf(op)))
        if ph["kill"] is not None:
            sim.at(sim.now + ph["kill"] * TICK, (lambda done=self.done: done.done() or self.kill()))
        start(sim, "life", lambda: self.main(ph))
        await self.done
        await sim.sleep(64)
        if self.problem:
            sim.fail(*self.problem)
        return not sim.violations

    def kill(self):
        self.sim.fault_count["crash-idle"] += 1
        self.sim.log("kill")
        self.end_life()

    async def main(self, ph):
        sim, s = self.sim, self.sys
        try:
            await s.adapter.connect()
            await s.app.startup()
        except Exception as e:  # pylint: disable=broad-except
            self.problem = ("start-up-failed", "%s: %s" % (type(e).__name__, e))
        expect = {"%d:%d" % (n["id"], e) for n in self.cfg["nodes"] for e in range(len(n["eps"]) + 1)}
        if not self.problem and self.added != expect:
            self.problem = ("setup-failed", "announced %s, expected %s" % (sorted(self.added), sorted(expect)))
        if not self.problem:
            for n in sorted(self.infos):
                await s.adapter.connectToNode(n)
            for seg in ph["segs"]:
                if seg["gone"] is not None:
                    await self.relist(seg["gone"])
                base = sim.now
                for op in seg["ops"]:
                    sim.at(base + op["t"] * TICK, (lambda op=op, done=self.done: done.done() or self.do(op)))
                await sim.until(base + max([o["t"] for o in seg["ops"]] or [0]) * TICK)
                while any(not o.done for o in self.outs):
                    await sim.sleep(64)
                await sim.sleep(64 * 30)
                self.settled("at the end of the operations")
                if self.problem:
                    break
        if not self.problem and ph.get("disk"):
            # the disk works again from now on
            self.disk.arm([])
            self.armed = None
            before = dict(self.saves)
            keys = [k for k, n in sorted(s.app.nodes.items()) if 0x70 in n.supported]
            for k in keys:
                n, ep = k.split(":")
                self.conf({"n": int(n), "ep": int(ep), "p": 9, "size": 2, "v": 1000 + self.phase})
            await sim.sleep(64 * 3)
            for k in keys:
                node = s.app.nodes[k]
                if self.dirty.get(k) or (self.saves[k] == before.get(k, 0) and node.supported[0x70].parameters[9].value == 1000 + self.phase and difference(snapshot(node), self.expand(self.possible[k][0], node.supported))):
                    self.problem = ("not-saved-again", "node %s was not saved although the disk works again" % k)
                    break
            else:
                self.settled("once the disk worked again")
        sim.at(sim.now, lambda done=self.done: done.done() or self.end_life())
        await sim.loop.create_future()

    async def relist(self, gone):
        s, sim = self.sys, self.sim
        old = set(s.gw.nodes)
        new = {n: i for n, i in self.infos.items() if n not in gone}
        for k in list(s.app.nodes):
            if int(k.split(":")[0]) not in new:
                self.base[k] = list(self.possible[k])
                self.since[k] = sim.now
        s.gw.nodes = new
        s.gw.announce(nodes=sorted(set(new) | {1}))
        await sim.sleep(64 * 10 + self.cfg["slowgw"] * 30)
        expect = {"%d:%d" % (n["id"], e) for n in self.cfg["nodes"] for e in range(len(n["eps"]) + 1) if n["id"] in new}
        if set(s.app.nodes) != expect:
            self.problem = ("setup-failed", "nodes are %s, expected %s" % (sorted(s.app.nodes), sorted(expect)))
        del old

    # --- observations ---
    def nodeAdded(self, _app, node):
        """Announcement of a node (after the storage heard it): compare what was restored."""
        key = node.nodeId
        self.added.add(key)
        got = snapshot(node)
        base = self.base.get(key, [{}])
        early = [(p, x) for t, p, x in self.early[key] if t >= self.since.get(key, self.born)]
        if self.disk.read_faults:
            base = base + [{}]  # it may be the one that could not be read
        good = [b for b in base if self.matches(got, b, early)]
        self.sim.probe["restored"] += int(base != [{}])
        if not good and not self.problem:
            self.problem = ("wrong-data", "node %s was restored as %s" % (key, self.explain(got, base, early)))
            return
        if not early and self.possible[key] == base:
            self.possible[key] = good

    def explain(self, got, base, early):
        text = difference(got, self.expand(base[0], got))
        if len(base) > 1:
            text += " (or what the interrupted save had: %s)" % difference(got, self.expand(base[-1], got))
        if early:
            text += "; reports since: %s" % early
        return text

    def settled(self, when):
        for key, node in self.sys.app.nodes.items():
            if self.problem or self.dirty.get(key):
                continue
            live = snapshot(node)
            kept = [self.expand(p, live) for p in self.possible[key]]
            if live not in kept:
                self.problem = ("not-saved", "node %s was not saved %s: %s" % (key, when, difference(live, kept[0])))

    def on_rx(self, sock, data, addr):
        f = zwire.parse(data)
        if f is None:
            return
        for n, peer in self.sys.peers.items():
            if peer.addr == addr:
                p = f.payload
                if p[:2] == b"\x6c\x01":
                    p = p[4:]
                if p[:2] == b"\x70\x06" and len(p) >= 4 + (p[3] & 7):
                    size = p[3] & 7
                    self.early["%d:%d" % (n, f.sep)].append((self.sim.now, p[2], (int.from_bytes(p[4:4 + size], "big"), size)))

    # --- operations ---
    def conf(self, op):
        data = bytes([0x70, 0x06, op["p"], op["size"]]) + op["v"].to_bytes(op["size"], "big")
        if op.get("sup"):
            data = bytes([0x6C, 0x01, 7, len(data)]) + data
        self.send(op, data)

    def send(self, op, data):
        peer = self.sys.peers[op["n"]]
        dst = (Net.CLIENT_IP, 4123)
        if op.get("via") == "c":
            sock = self.sys.socket_of(op["n"])
            if sock is not None:
                dst = sock.local
        peer.cmd(dst, data, sep=op["ep"], link=peer.name + ">x")

    def do(self, op):
        sim, s = self.sim, self.sys
        key = "%d:%d" % (op["n"], op["ep"])
        node = s.app.nodes.get(key)
        if op["k"] == "salt":
            script = self.scripts[op["n"]]
            script.salt[op["ep"]] = script.salt.get(op["ep"], 0) + 1
            return
        if op["k"] == "conf":
            self.conf(op)
            return
        if op["k"] == "agi":
            if self.scripts[op["n"]].data(op["ep"]).agi:
                self.send(op, self.scripts[op["n"]].agi_info(op["ep"]))
            return
        if node is None:
            return

        async def interview():
            ids = sorted(node.supported)
            target = node if op["k"] == "interview" else node.supported[ids[op["cc"] % len(ids)]]
            if op["lock"]:
                with node.storageLock():
                    await target.interview()
            else:
                await target.interview()

        out, task = start(sim, "interview %s" % key, interview)
        self.outs.append(out)
        if op["cancel"] is not None:
            sim.after(op["cancel"], lambda: out.done or task.cancel())


def run(sim, plan):
    with Disk(sim) as disk:
        world = World(sim, plan, disk)
        sim.run(world.scenario)
    sim.nontrivial = sim.probe["saves"] > 0 and sim.probe["restored"] > 0
