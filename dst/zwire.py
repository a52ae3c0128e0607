"""Independent byte level codec for the simulated gateway and nodes.

Written from the Z/IP frame layout, without using pyzwave's own codec, so that a codec or framing
error of pyzwave is not mirrored by the peers.
"""
import ipaddress

ACK_REQ, ACK, NACK, WAITING, QFULL, OPTERR = 0x80, 0x40, 0x20, 0x10, 0x08, 0x04
HDREXT, ZWCMD, MORE, SECURE = 0x80, 0x40, 0x20, 0x10


class Frame:
    __slots__ = ("f0", "f1", "seq", "sep", "dep", "ext", "payload", "raw")

    def __init__(self, f0, f1, seq, sep, dep, ext, payload, raw):
        self.f0, self.f1, self.seq, self.sep, self.dep, self.ext, self.payload, self.raw = f0, f1, seq, sep, dep, ext, payload, raw

    ack_request = property(lambda s: bool(s.f0 & ACK_REQ))
    ack = property(lambda s: bool(s.f0 & ACK))
    nack = property(lambda s: bool(s.f0 & NACK))
    has_cmd = property(lambda s: bool(s.f1 & ZWCMD))


def parse(data):
    """Parse a Z/IP packet; None if it is not a well formed one."""
    if len(data) < 7 or data[0] != 0x23 or data[1] != 0x02:
        return None
    f0, f1, seq, sep, dep = data[2], data[3], data[4], data[5], data[6]
    rest = data[7:]
    ext = b""
    if f1 & HDREXT:
        if not rest or rest[0] < 1 or rest[0] > len(rest):
            return None
        ext, rest = rest[1:rest[0]], rest[rest[0]:]
    return Frame(f0, f1, seq, sep & 0x7F, dep & 0x7F, ext, bytes(rest), data)


def packet(seq, payload=b"", f0=0, f1=None, sep=0, dep=0, options=None):
    if f1 is None:
        f1 = SECURE | (ZWCMD if payload else 0)
    ext = b""
    if options is not None:
        body = b"".join(bytes([t & 0xFF, len(d)]) + d for t, d in options)
        ext = bytes([len(body) + 1]) + body
        f1 |= HDREXT
    return bytes([0x23, 0x02, f0, f1, seq & 0xFF, sep, dep]) + ext + payload


def ack(seq, sep=0, dep=0, options=None):
    return packet(seq, b"", ACK, SECURE, sep, dep, options)


def nack(seq, sep=0, dep=0, why=0):
    return packet(seq, b"", NACK | why, SECURE, sep, dep)


def waiting(seq, delay=None, sep=0, dep=0):
    """'Waiting' notice, with the expected delay in seconds (None: no header extension at all,
    'empty': header extension without that option)."""
    if delay is None:
        return packet(seq, b"", NACK | WAITING, SECURE, sep, dep)
    if delay == "empty":
        return packet(seq, b"", NACK | WAITING, SECURE, sep, dep, options=[])
    if delay == "other":  # a maintenance report only
        return packet(seq, b"", NACK | WAITING, SECURE, sep, dep, options=[(3, b"\x00\x01\x01\x01\x02\x00\x1a")])
    if isinstance(delay, list):  # [delay, 'before'/'after'/'both'/'critical']: among other options
        delay, how = delay
        others = [(3, b"\x00\x01\x01\x01\x02\x00\x1a")] if how in ("before", "both") else []
        after = [(4, b"\x80\x00")] if how in ("after", "both") else []
        opts = others + [(0x81 if how == "critical" else 1, int(delay).to_bytes(3, "big", signed=True))] + after
        return packet(seq, b"", NACK | WAITING, SECURE, sep, dep, options=opts)
    opts = [(1, int(delay).to_bytes(3, "big", signed=True))]
    return packet(seq, b"", NACK | WAITING, SECURE, sep, dep, options=opts)


KEEPALIVE = b"\x23\x03\x80"
KEEPALIVE_ACK = b"\x23\x03\x40"


def is_keepalive(data):
    return len(data) == 3 and data[0] == 0x23 and data[1] == 0x03 and data[2] & 0x80


def solicitation(data):
    """Node id asked for by a Z/IP inverse node solicitation, else None."""
    if len(data) >= 4 and data[0] == 0x58 and data[1] == 0x04:
        return data[3]
    return None


def advertisement(node, ip, home=0xEAECFAF9, validity=0):
    return bytes([0x58, 0x01, validity & 3, node]) + ipaddress.IPv6Address(ip).packed + home.to_bytes(4, "big")


def node_mask(nodes):
    m = bytearray(29)
    for n in nodes:
        m[(n - 1) // 8] |= 1 << ((n - 1) % 8)
    return bytes(m)


def node_list_report(seq, nodes, controller=1, status=0):
    return bytes([0x52, 0x02, seq & 0xFF, status, controller]) + node_mask(nodes)


def failed_list_report(seq, nodes):
    return bytes([0x52, 0x0C, seq & 0xFF]) + node_mask(nodes)


def node_info_report(seq, listening, basic, generic, specific, classes, status=0, age=3):
    return bytes([0x52, 0x04, seq & 0xFF, (status << 4) | age, 0x80 if listening else 0, 0x80, 0, basic, generic, specific]) + bytes(classes)


def endpoint_report(seq, node, individual, aggregated=0):
    return bytes([0x52, 0x06, seq & 0xFF, node, 0, individual & 0x7F, aggregated & 0x7F])


def capability_report(seq, node, ep, generic, specific, classes):
    return bytes([0x52, 0x08, seq & 0xFF, node, len(classes), ep & 0x7F, generic, specific]) + bytes(classes)
