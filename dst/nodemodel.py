"""What a simulated node says about itself (interview answers), generated from a small seed."""
from .sim import Rng

IMPLEMENTED = [0x20, 0x25, 0x31, 0x32, 0x59, 0x5E, 0x70, 0x72, 0x80, 0x85, 0x86, 0x87]
OTHERS = [0x8E, 0x5A, 0x98, 0x9F, 0x6C, 0x22]
NAMES = ["Lifeline", "", "null", "true", "False", "12", "0x1F", "1e3", "~", "- a", "a: b", "#x", "{}", "[1]", "'", '"', "a\nb", " lead", "trail ", "\u00e5\u00e4\u00f6", "\u6e29\u5ea6", "\U0001f600", "!!int 3", "!x", "&a", "*a", "yes", "2001-01-01",
         "a\tb", "\\", "%YAML", "---", "...", "x" * 42, "\x00", "\x7f", "\u2028", "\r", "1_000", "0o17", ".nan", "=", "<<", "|", ">", "@", "`", "?"]


class Data:
    """The learned data one node endpoint reports (variant: changes between firmware versions)."""

    def __init__(self, node, ep, salt):
        rng = Rng("node-data", node, ep, salt)
        self.versions = {}
        self.rng = rng
        edge8 = lambda: rng.choice([0, 1, 127, 128, 255, rng.randint(0, 255)])
        edge16 = lambda: rng.choice([0, 1, 255, 256, 32768, 65535, rng.randint(0, 65535)])
        for cc in IMPLEMENTED + OTHERS + [0x60]:
            self.versions[cc] = rng.choice([1, 2, 3, 4, 5, 11, 5, 1, 17, 255])
        if rng.chance(0.2):
            self.versions[rng.choice(IMPLEMENTED)] = 0
        if rng.chance(0.7):
            self.versions[0x31] = rng.choice([5, 7, 11])
        if salt % 2:  # the same kind of node after a change: much is zero or empty
            zero8, zero16 = edge8, edge16
            edge8 = lambda: 0 if rng.chance(0.5) else zero8()
            edge16 = lambda: 0 if rng.chance(0.5) else zero16()
        self.version = [edge8() for _ in range(5)]
        self.manuf = [edge16() for _ in range(3)]
        self.plus = [edge8() for _ in range(3)] + [edge16() for _ in range(2)]
        types = rng.sample([1, 2, 3, 4, 5, 6, 9, 11, 15, 17, 27, 31, 35, 40, 8, 16, 24, 60, 77], rng.randint(0, 5))
        self.sensors = {t: rng.choice([1, 2, 3, 8, 15, 0]) for t in types}
        self.groups = {}
        for g in range(1, rng.randint(0, 4) + 1):
            nodes = [(rng.choice([1, 2, 3, 4, 5, 9, 200, 232]), None) for _ in range(rng.choice([0, rng.randint(0, 3)]) if salt % 2 else rng.randint(0, 3))]
            eps = [(rng.choice([1, 3, 4, 9]), rng.randint(0, 9)) for _ in range(rng.randint(0, 2))]
            self.groups[g] = [edge8(), nodes, eps]
        self.agi = {g: [edge16(), rng.choice(NAMES), [[rng.choice([0x20, 0x25, 0x71, 0x00, 0xFF]), edge8()] for _ in range(rng.randint(0, 3))]] for g in rng.sample([1, 2, 3, 7, 255], rng.randint(0, 3))}


class Script:
    """Answers of one node (all endpoints); dep of the request selects the endpoint."""

    def __init__(self, node):
        self.node = node
        self.salt = {}
        self.cache = {}
        self.asked = []

    def data(self, ep):
        key = (ep, self.salt.get(ep, 0))
        if key not in self.cache:
            self.cache[key] = Data(self.node, ep, key[1])
        return self.cache[key]

    def __call__(self, frame, _src):
        p, ep = frame.payload, frame.dep
        self.asked.append((ep, p))
        return self.answer(ep, p)

    def answer(self, ep, p):
        d = self.data(ep)
        k = p[:2]
        if k == b"\x86\x11":
            return [bytes([0x86, 0x12] + d.version)]
        if k == b"\x86\x13":
            v = d.versions.get(p[2], 1)
            return [bytes([0x86, 0x14, p[2], v])]
        if k == b"\x72\x04":
            return [b"\x72\x05" + b"".join(x.to_bytes(2, "big") for x in d.manuf)]
        if k == b"\x5e\x01":
            return [b"\x5e\x02" + bytes(d.plus[:3]) + b"".join(x.to_bytes(2, "big") for x in d.plus[3:])]
        if k == b"\x31\x01":
            m = 0
            for t in d.sensors:
                m |= 1 << (t - 1)
            return [b"\x31\x02" + m.to_bytes((m.bit_length() + 7) // 8 or 1, "little")]
        if k == b"\x31\x03":
            return [bytes([0x31, 0x06, p[2], d.sensors.get(p[2], 0)])]
        if k == b"\x85\x05":
            return [bytes([0x85, 0x06, len(d.groups)])]
        if k in (b"\x85\x02", b"\x8e\x02"):
            g = d.groups.get(p[2])
            if g is None:
                return []
            body = bytes([p[2], g[0], 0] + [n for n, _ in g[1]])
            if p[0] == 0x8E and g[2]:
                body += b"\x00" + b"".join(bytes(x) for x in g[2])
            return [k[:1] + b"\x03" + body]
        if k in (b"\x85\x01", b"\x8e\x01"):
            g = d.groups.get(p[2])
            if g is not None:
                rest = p[3:]
                if p[0] == 0x85:
                    g[1] += [(n, None) for n in rest]
                elif b"\x00" in rest:
                    i = rest.index(0)
                    g[1] += [(n, None) for n in rest[:i]]
                    g[2] += [(rest[j], rest[j + 1]) for j in range(i + 1, len(rest) - 1, 2)]
            return []
        if k == b"\x59\x01":
            g = d.agi.get(p[2])
            if g is None:
                return []
            name = g[1].encode()
            return [bytes([0x59, 0x02, p[2], len(name)]) + name]
        if k == b"\x59\x03":
            return [self.agi_info(ep)] if d.agi else []
        if k == b"\x59\x05" and len(p) > 3:
            g = d.agi.get(p[3])
            if g is None:
                return []
            cmds = b"".join(bytes(c) for c in g[2])
            return [bytes([0x59, 0x06, p[3], len(cmds)]) + cmds]
        if k == b"\x80\x02":
            return [b"\x80\x03\x37"]
        return []

    def agi_info(self, ep):
        d = self.data(ep)
        return bytes([0x59, 0x04, 0x80 | len(d.agi)]) + b"".join(bytes([g, 0]) + v[0].to_bytes(2, "big") + b"\x00\x00\x00" for g, v in sorted(d.agi.items()))


def peek(obj, name, kind):
    """Value of an attribute. Reading it directly would create the default, so that is avoided where possible."""
    have = vars(obj).get("_attributes")
    if isinstance(have, dict) and name not in have and name not in vars(obj):
        try:
            return kind()
        except Exception:  # pylint: disable=broad-except
            pass
    return getattr(obj, name)


def key(k):
    return ("int", int(k)) if isinstance(k, int) and not isinstance(k, bool) else canon(k)


def canon(v):
    """Value with its type, in comparable form."""
    t = type(v).__name__
    attrs = getattr(type(v), "attributes", None)
    if isinstance(attrs, tuple):
        return (t, tuple((a[0], canon(peek(v, a[0], a[1]))) for a in attrs if a[0] != "-"))
    if isinstance(v, dict):
        items = [(key(k), canon(x)) for k, x in v.items()]
        return (t, tuple(sorted(((repr(k), k, x) for k, x in items), key=lambda e: e[0])))
    if isinstance(v, (list, tuple)):
        return (t, tuple(canon(x) for x in v))
    if isinstance(v, bool) or v is None:
        return (t, v)
    if isinstance(v, int):
        return (t, int(v))
    if isinstance(v, str):
        return ("str", str(v))
    return (t, repr(v))


def learned(cc):
    """Version, interview state and learned data of a command class."""
    return (("version", canon(cc.version)), ("interviewed", canon(cc.interviewed))) + tuple((a[0], canon(peek(cc, a[0], a[1]))) for a in cc.attributes if a[0] != "-")


def snapshot(node):
    return {cc_id: learned(cc) for cc_id, cc in node.supported.items()}


def difference(a, b):
    """First difference between two snapshots, as text."""
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return "class 0x%02x: %s, expected %s" % (k, short(a.get(k)), short(b.get(k)))
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 700 else s[:700] + "..."
