"""Network management: expected frames and answers, written from the frame layouts."""

NAMES = ("list", "info", "eps", "cap", "failed", "add", "addstop", "dsk", "keys", "remove", "removestop", "removefailed")
QUERIES = ("list", "info", "eps", "cap", "failed", "removefailed")


def frame(op, seq):
    """The command that a network management operation has to transmit."""
    k = op["op"]
    if k == "list":
        return bytes([0x52, 0x01, seq])
    if k == "info":
        return bytes([0x52, 0x03, seq, 0x0F, op["n"]])
    if k == "eps":
        return bytes([0x52, 0x05, seq, op["n"]])
    if k == "cap":
        return bytes([0x52, 0x07, seq, op["n"], op["ep"]])
    if k == "failed":
        return bytes([0x52, 0x0B, seq])
    if k == "add":
        return bytes([0x34, 0x01, seq, 0, 7, op["tx"]])
    if k == "addstop":
        return bytes([0x34, 0x01, seq, 0, 5, 0])
    if k == "remove":
        return bytes([0x34, 0x03, seq, 0, 1])
    if k == "removestop":
        return bytes([0x34, 0x03, seq, 0, 5])
    if k == "removefailed":
        return bytes([0x34, 0x07, seq, op["n"]])
    if k == "keys":
        return bytes([0x34, 0x12, seq, (2 if op["csa"] else 0) | (1 if op["accept"] else 0), op["keys"]])
    if k == "dsk":
        return bytes([0x34, 0x14, seq, (0x80 if op["accept"] else 0) | op["len"]]) + bytes.fromhex(op["dsk"])
    raise ValueError(k)


def matches(op, payload):
    """Is the payload the command of this operation, whatever its sequence number?"""
    return len(payload) >= 3 and frame(op, payload[2]) == payload


def invoke(gw, op):
    """Call the operation on a ZIPGateway."""
    from pyzwave.adapter import TxOptions
    from pyzwave.commandclass.NetworkManagementInclusion import Keys
    from pyzwave.message import Message
    from pyzwave.types import dsk_t

    k = op["op"]
    if k == "list":
        return gw.getNodeList()
    if k == "info":
        return gw.getNodeInfo(op["n"])
    if k == "eps":
        return gw.getMultiChannelEndPoints(op["n"])
    if k == "cap":
        return gw.getMultiChannelCapability(op["n"], op["ep"])
    if k == "failed":
        return gw.getFailedNodeList()
    if k == "add":
        return gw.addNode(TxOptions(op["tx"]))
    if k == "addstop":
        return gw.addNodeStop()
    if k == "remove":
        return gw.removeNode()
    if k == "removestop":
        return gw.removeNodeStop()
    if k == "removefailed":
        return gw.removeFailedNode(op["n"])
    if k == "keys":
        if op.get("form") == "object":  # what the node asked for
            report = Message.decode(bytes([0x34, 0x11, 1, op["csa"], op["keys"]]))
            return gw.addNodeKeysSet(report.requestCSA, bool(op["accept"]), report.requestedKeys)
        return gw.addNodeKeysSet(bool(op["csa"]), bool(op["accept"]), op["keys"] if op.get("form") == "int" else Keys(op["keys"]))
    if k == "dsk":
        dsk = bytes.fromhex(op["dsk"])
        if op.get("form") == "text":
            dsk = "-".join("%05d" % int.from_bytes(dsk[i:i + 2], "big") for i in range(0, 16, 2))
        elif op.get("form") == "object":
            dsk = Message.decode(b"\x34\x13\x01\x02" + dsk).dsk if dsk else dsk_t()
        return gw.addNodeDSKSet(bool(op["accept"]), op["len"], dsk)
    raise ValueError(k)


def params(rng, k, nodes):
    """Random parameters for an operation."""
    op = {"op": k}
    if k in ("info", "eps", "cap", "removefailed"):
        op["n"] = rng.choice(nodes)
    if k == "cap":
        op["ep"] = rng.choice([1, 2, rng.randint(1, 127)])
    if k == "add":
        op["tx"] = rng.choice([0, 2, 0x20, 0x22])
    if k == "keys":
        op.update(csa=rng.randint(0, 1), accept=rng.randint(0, 1), keys=rng.choice([1, 2, 4, 0x80, 0x87, 3, 6, 0]))
        if rng.chance(0.5):
            op["form"] = rng.choice(["int", "object"])
    if k == "dsk":
        n = rng.choice([0, 16, 16])
        dsk = rng.bytes(n)
        if n and rng.chance(0.3):
            dsk = b"".join(rng.choice([b"\x00\x00", b"\x00\x01", b"\xff\xff", dsk[i:i + 2]]) for i in range(0, n, 2))
        op.update(accept=rng.randint(0, 1), len=rng.choice([0, 2, 15]), dsk=dsk.hex())
        if rng.chance(0.5):  # as the user reads it from the label, or as it was in the report
            op["form"] = rng.choice(["text", "object"]) if n else "object"
    return op


def show(op):
    return "%s(%s)" % (op["op"], ", ".join("%s=%s" % (k, v) for k, v in sorted(op.items()) if k in ("n", "ep", "tx", "csa", "accept", "keys", "len", "dsk", "form")))
