"""C02: a send to a sleeping node waits as long as the gateway announces."""
from ..sendmodel import gen_via, run_sends

ID = "C02"
RUNS = {"quick": 4000, "thorough": 300000}
RULE = ("One run = one seeded workload of sends to sleeping nodes: 'waiting' notices with negative, zero, small, hour and week long delays or without delay, repeated, duplicated, "
        "lost, reordered and near the deadlines, mixed with sends to awake nodes, cancellations and stalls. Non-trivial: sends overlap, a fault fired, or a send failed.")
REAL = ["pyzwave.zipconnection", "pyzwave.zipgateway", "pyzwave.node", "pyzwave.commandclass", "pyzwave.adapter", "pyzwave.connection", "pyzwave.message/types/commandclass codec", "asyncio tasks, futures, timeouts"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes"]
SHRINK = ("rates",)

DELAYS = [0, 1, 2, 5, 30, 59, 60, 61, 300, 3600, 86400, 604800, 8388607, -1, -2, -60, -61, -8388608, None, "empty", "other"]


def eff(delay):
    if delay in (None, "empty", "other"):
        return 60
    if isinstance(delay, list):
        delay = delay[0]
    return (120 if delay < 0 else delay) + 60


def gen_script(rng, timeout):
    steps = []
    edge = int(timeout * 64) - 2
    t = rng.choice([0, 0, rng.randint(0, max(1, edge)), edge - 1, edge, edge + 1])
    t = max(0, t)
    for _ in range(rng.weighted([(1, 55), (2, 25), (3, 12), (5, 8)])):
        delay = rng.weighted([(rng.choice(DELAYS), 60), (rng.randint(0, 40), 25), (-1, 15)])
        if isinstance(delay, int) and rng.chance(0.3):
            delay = [delay, rng.choice(["before", "after", "both", "critical"])]
        steps.append([t, "wait", delay])
        if rng.chance(0.1):
            steps.append([t + rng.randint(0, 20), "wait", delay])
        window = eff(delay) * 64
        if window > 64 * 4000:
            t += rng.randint(1, 64 * 4000)
        else:
            t += rng.weighted([(rng.randint(1, max(2, window)), 40), (window + rng.randint(-2, 2), 30), (rng.randint(0, 300), 30)])
    k = rng.weighted([("ack", 60), ("never", 25), ("edge", 15)])
    if k == "ack" or eff(steps[-1][2]) > 4000:
        steps.append([t, "ack", None])
        if rng.chance(0.1):
            steps.append([t + rng.randint(0, 30), "ack", None])
    elif k == "edge":
        steps.append([steps[-1][0] + eff(steps[-1][2]) * 64 + rng.randint(-2, 2), "ack", None])
    if rng.chance(0.1):
        steps.append([rng.randint(0, t + 1), rng.choice(["badack", "badwait"]), rng.choice([1, 255, 3])])
    if rng.chance(0.08):
        steps.append([rng.randint(0, t + 1), "nack", rng.choice([0, 8, 4, 12])])
    return sorted(steps, key=lambda s: s[0])


def gen_days(rng):
    """A node that sleeps for days."""
    delay = rng.choice([86400, 90000, 172800, 604800, 604801, 700000])
    end = eff(delay) * 64
    script = [[rng.randint(0, 60), "wait", delay], [rng.choice([end - 64 * 30, end - 2000, end // 2, end + 200]), "ack", None]]
    ops = [{"op": "send", "t": rng.randint(0, 20), "uid": 1, "peer": 0, "timeout": 3, "via": gen_via(rng), "script": script}]
    for uid in range(2, rng.randint(3, 6)):
        ops.append({"op": "send", "t": rng.randint(0, 64 * 90000), "uid": uid, "peer": rng.randint(0, 1), "timeout": 3, "via": gen_via(rng), "script": rng.choice([[[rng.randint(0, 180), "ack", None]], []])})
    return {"cfg": {"mode": rng.choice(["conn", "gw"]), "peers": 1, "rates": {}, "settle": 800000.0}, "ops": sorted(ops, key=lambda o: o["t"])}


def gen_flood(rng):
    """More frames wait for a sleeping node than there are sequence numbers."""
    delay = rng.choice([30, 300])
    end = eff(delay) * 64 - 4
    ops = []
    t = 0
    early = rng.choice([0, 0, 0.02])
    # the only sequence numbers that get free soon may be far ahead of the next one
    ahead = rng.sample(range(129, 250), rng.randint(1, 2)) if rng.chance(0.5) else []
    for uid in range(1, rng.randint(255, 275) if not ahead else rng.randint(255, 257)):
        late = rng.randint(64 * 20, end)
        script = [[rng.randint(0, 3), "wait", delay], [rng.randint(1, 200) if rng.chance(early) or uid in ahead else late, "ack", None]]
        if rng.chance(0.02):
            script = script[:1]
        ops.append({"op": "send", "t": t, "uid": uid, "peer": 0, "timeout": 3, "via": ["adapter", False], "script": script})
        t += rng.choice([0, 0, 0, 1, 2])
    for k in range(rng.randint(1, 10)):
        t += rng.choice([0, 1, 30, 600, 3000])
        ops.append({"op": "send", "t": t, "uid": 1000 + k, "peer": rng.randint(0, 1), "timeout": 3, "via": ["adapter", False], "script": [[rng.randint(0, 100), "ack", None]]})
    return {"cfg": {"mode": rng.choice(["conn", "conn", "gw"]), "peers": rng.choice([1, 2]), "rates": {}}, "ops": ops}


def gen(rng, index, tier):
    if index % 200 == 177:
        return gen_flood(rng)
    if index % 400 == 77:
        return gen_days(rng)
    ops = []
    uid = 1
    span = rng.choice([16, 640, 64 * 120, 64 * 4000])
    for _ in range(rng.randint(1, 8)):
        timeout = rng.weighted([(3, 80), (1, 10), (10, 10)])
        if rng.chance(0.65):
            script = gen_script(rng, timeout)
        else:
            script = rng.choice([[[rng.randint(0, 200), "ack", None]], []])
        op = {"op": "send", "t": rng.randint(0, span), "uid": uid, "peer": rng.randint(0, 2), "timeout": timeout, "via": gen_via(rng), "script": script}
        if rng.chance(0.12):
            last = script[-1][0] if script else 100
            op["cancel"] = rng.choice([rng.randint(0, last + 100), last + 2, last + 1])
        uid += 1
        ops.append(op)
    if rng.chance(0.15):
        ops.append({"op": "stall", "t": rng.randint(0, span + 200), "ticks": rng.choice([1, 64, 200, 4000])})
    ops.sort(key=lambda o: o["t"])
    rates = {}
    if rng.chance(0.35):
        rates = {"drop": rng.choice([0, 0.05, 0.2]), "dup": rng.choice([0, 0.1, 0.3]), "delay": rng.choice([0, 0.2, 0.5]), "delay_max": rng.choice([3, 40, 400])}
    return {"cfg": {"mode": rng.weighted([("conn", 1), ("gw", 1)]), "peers": rng.randint(1, 3), "rates": rates}, "ops": ops}


def run(sim, plan):
    run_sends(sim, plan, settle=plan["cfg"].get("settle", 20000.0))
