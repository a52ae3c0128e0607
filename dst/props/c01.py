"""C01: a send succeeds exactly when its own frame is acknowledged in time."""
from ..sendmodel import gen_via, run_sends

ID = "C01"
RUNS = {"quick": 4000, "thorough": 300000}
RULE = ("One run = one seeded workload of acknowledged sends (scripted, lost, late, duplicated, foreign and near-deadline acknowledgements, cancellations, "
        "stalls, 8-bit sequence wrap-around) over one to three connections. Non-trivial: sends overlap, a fault fired, or a send failed.")
REAL = ["pyzwave.zipconnection", "pyzwave.zipgateway", "pyzwave.node", "pyzwave.commandclass", "pyzwave.adapter", "pyzwave.connection", "pyzwave.message/types/commandclass codec", "asyncio tasks, futures, timeouts"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes"]
SHRINK = ("rates",)


def gen_script(rng, timeout):
    """How the peer answers one frame; delays in ticks after its arrival (2 ticks go to latency)."""
    edge = int(timeout * 64) - 2
    k = rng.weighted([("ack", 30), ("edge", 22), ("none", 12), ("late", 8), ("dup", 8), ("bad", 10), ("nack", 6), ("wait", 4), ("ext", 4), ("flags", 4)])
    if k == "ack":
        return [[rng.randint(0, max(1, edge - 1)) if rng.chance(0.6) else 0, "ack", None]]
    if k == "edge":
        return [[max(0, edge + rng.randint(-2, 2)), "ack", None]]
    if k == "none":
        return []
    if k == "late":
        return [[edge + rng.randint(1, 200), "ack", None]]
    if k == "dup":
        d = rng.randint(0, 40)
        return [[d, "ack", None], [d + rng.randint(0, 300), "ack", None]]
    if k == "bad":
        s = [[rng.randint(0, 60), rng.choice(["badack", "badwait"]), rng.choice([1, 255, 254, 2, 128])]]
        if rng.chance(0.5):
            s.append([rng.randint(0, max(1, edge)), "ack", None])
        return s
    if k == "nack":
        s = [[rng.randint(0, 60), "nack", rng.choice([0, 8, 4, 12])]]
        if rng.chance(0.5):
            s.append([rng.randint(0, max(1, edge)), "ack", None])
        return s
    if k == "wait":
        d = rng.randint(0, 100)
        return [[d, "wait", rng.choice([0, 1, 5, -1, None])], [d + rng.randint(1, 3000), "ack", None]]
    if k == "flags":
        return [[rng.randint(0, 60), "ackf", rng.choice([0, 0x10, 0x20, 0x30, 0x0F, 0x3F]) | rng.choice([0, 0x100, 0x200, 0x300]) | rng.choice([0, 0, 0x30000])]]
    return [[rng.randint(0, 60), "ackx", None]]


def gen(rng, index, tier):
    ops = []
    uid = 1
    span = rng.choice([16, 200, 640])
    for _ in range(rng.randint(2, 14)):
        timeout = rng.weighted([(3, 60), (1, 15), (0.5, 10), (5, 10), (10, 5)])
        op = {"op": "send", "t": rng.randint(0, span), "uid": uid, "peer": rng.randint(0, 2), "timeout": timeout, "via": gen_via(rng), "script": gen_script(rng, timeout)}
        if rng.chance(0.18):
            edge = int(timeout * 64)
            op["cancel"] = rng.choice([rng.randint(0, edge + 10), rng.randint(0, 4), edge, op["script"][0][0] + 2 if op["script"] else 5])
        uid += 1
        ops.append(op)
    if rng.chance(0.12):
        if rng.chance(0.7):
            ops.append({"op": "send", "t": 0, "uid": uid, "peer": 0, "timeout": 3, "script": [[1, "wait", rng.choice([600, 900])], [rng.choice([600, 2000, 30000]), "ack", None]]})
            uid += 1
        n = rng.randint(256, 300)
        ops.append({"op": "burst", "t": rng.randint(0, span), "uid": 1000, "peer": 0, "n": n, "timeout": 0.5, "wait": rng.chance(0.5), "gap": rng.randint(1, 3),
                    "lost": sorted(set(rng.randint(0, n) for _ in range(rng.randint(0, 5))))})
    if rng.chance(0.25):
        for _ in range(rng.randint(1, 2)):
            ops.append({"op": "stall", "t": rng.randint(0, span + 200), "ticks": rng.choice([1, 10, 64, 192, 200, 250])})
    if rng.chance(0.3):
        for _ in range(rng.randint(1, 6)):
            ops.append({"op": "rx", "t": rng.randint(0, span + 200), "peer": rng.randint(0, 2), "data": bytes([0x23, 2, 0x40, 0x10, rng.randint(0, 20), 0, 0]).hex()})
    if rng.chance(0.1):
        ops.append({"op": "sockerr", "t": rng.randint(0, span + 100), "peer": rng.randint(0, 2)})
    ops.sort(key=lambda o: o["t"])
    rates = {}
    if rng.chance(0.4):
        rates = {"drop": rng.choice([0, 0.05, 0.3]), "dup": rng.choice([0, 0.1, 0.3]), "delay": rng.choice([0, 0.2, 0.5]), "delay_max": rng.choice([3, 40, 200])}
    return {"cfg": {"mode": rng.weighted([("conn", 1), ("gw", 1)]), "peers": rng.randint(1, 3), "rates": rates}, "ops": ops}


def run(sim, plan):
    run_sends(sim, plan, settle=2000.0)
