"""C13: saved node data is restored unchanged after a restart."""
from .. import storagemodel

ID = "C13"
RUNS = {"quick": 800, "thorough": 60000}
CHUNK = 8
RULE = ("One run = up to four lifetimes of the process on one storage directory: interviews (complete, partial, cancelled, with lost answers), reports of every size and kind, also during start-up, changed firmware, changed class lists, "
        "nodes removed and included again; at every start the restored data is compared, value and type, with what was last saved. Non-trivial: something was saved and later restored.")
REAL = ["pyzwave.persistantstorage", "PyYAML", "pyzwave.util (AttributesMixin)", "pyzwave.commandclass", "pyzwave.node", "pyzwave.application", "pyzwave.zipgateway", "codec", "files below a scratch directory"]
STUB = ["UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "process restart (tasks, timers and sockets dropped)"]
SHRINK = ("faults", "trunc", "slowgw")


def gen(rng, index, tier):
    return storagemodel.gen(rng, tier, False, index % 100 == 53)


run = storagemodel.run
