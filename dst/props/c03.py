"""C03: a request gets the reply sent after it."""
from ..reqmodel import ReqWorld, gen_reqs

ID = "C03"
RUNS = {"quick": 5000, "thorough": 300000}
RULE = ("One run = one seeded workload of overlapping requests, bare waits and stray messages over connections or over application nodes and endpoints, with replies "
        "before, with and after the acknowledgement and around both deadlines, cancellations, failing sends and lookups, loss, duplication, reordering and stalls. "
        "Non-trivial: requests for the same kind overlap, a fault fired, a request timed out, or a reply overtook its acknowledgement.")
REAL = ["pyzwave.util.MessageWaiter/Listenable", "pyzwave.adapter", "pyzwave.zipconnection", "pyzwave.zipgateway", "pyzwave.application", "pyzwave.node", "pyzwave.connection", "codec", "asyncio tasks, futures, timeouts"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "storage (base class, does nothing)"]
SHRINK = ("rates",)


def gen(rng, index, tier):
    return gen_reqs(rng, ID, index % 100 == 53)


def run(sim, plan):
    world = ReqWorld(sim, plan)
    sim.run(world.scenario)
    world.judge_outcomes()
    world.finish()
