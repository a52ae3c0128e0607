"""C11: queued entries are announced by heartbeats until delivered."""
from ..mailmodel import MailWorld, gen_mail

ID = "C11"
RUNS = {"quick": 1200, "thorough": 200000}
RULE = ("One run = one seeded history of pushes (with identical copies at the same time), wake-ups and acknowledgements on one to three queues, with lost, late and failed "
        "transmissions, over up to hours (in some runs days) of simulated time, ended by emptying every queue. Non-trivial: an entry was accepted and a trigger or heartbeat met it, or a fault fired.")
REAL = ["pyzwave.mailbox", "in 70% of the runs pyzwave.zipgateway, zipconnection, adapter, connection, codec", "asyncio tasks, locks, timers"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and mailbox proxy nodes", "in 30% of the runs the adapter below the mailbox service"]
MAX_STEPS = 1000000
SHRINK = ("rates", "faults", "tail")


def gen(rng, index, tier):
    return gen_mail(rng, tier, ID, index % 100 == 53)


def run(sim, plan):
    world = MailWorld(sim, plan)
    sim.run(world.scenario)
    world.judge("heartbeat")
    sim.nontrivial = bool(sim.fault_count) or sim.probe["pop"] > 0
