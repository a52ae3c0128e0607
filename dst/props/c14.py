"""C14: a crash or disk error while saving never destroys saved data."""
from .. import storagemodel

ID = "C14"
RUNS = {"quick": 800, "thorough": 60000}
CHUNK = 8
RULE = ("One run = up to four lifetimes of the process on one storage directory; in each one a crash, a power failure (unsynced data lost, cut or zeroed), an I/O error, a full or read-only disk or short writes hit a chosen file system call "
        "before, within or after it. Every following start compares all nodes with the complete previous or complete new data. Non-trivial: something was saved and later restored.")
REAL = ["pyzwave.persistantstorage", "PyYAML", "Python's io buffering", "pyzwave.util (AttributesMixin)", "pyzwave.commandclass", "pyzwave.node", "pyzwave.application", "pyzwave.zipgateway", "codec"]
STUB = ["file system calls (wrapped: real files in a scratch directory, faults and page cache simulated)", "UDP sockets and network", "event loop clock and selector", "Z/IP gateway and nodes", "process restart (tasks, timers and sockets dropped)"]
SHRINK = ("faults", "trunc", "slowgw")
ASSUMPTIONS = ["on a power failure directory changes (rename, create) survive in order and only file contents that were not fsynced are lost"]


def gen(rng, index, tier):
    return storagemodel.gen(rng, tier, True, index % 100 == 53)


run = storagemodel.run
