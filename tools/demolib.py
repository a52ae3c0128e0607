"""Fixed scenarios for demonstrations: a simulated clock and network (no faults unless asked for), plain assertions."""
import logging
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.getcwd(), HERE]
logging.disable(logging.CRITICAL)
import pyzwave.application  # noqa: E402,F401
import pyzwave.mailbox  # noqa: E402,F401
import pyzwave.persistantstorage  # noqa: E402,F401
import pyzwave.zipgateway  # noqa: E402,F401
from dst import zwire  # noqa: E402,F401
from dst.sim import START, TICK, Net, Sim  # noqa: E402,F401
from dst.world import GW_IP, PORT, Gateway, NodeInfo, NodePeer, Peer, Recorder, System, call, node_ip, start  # noqa: E402,F401

S = 64  # ticks in a second
CLIENT = (Net.CLIENT_IP, PORT)


def demo(scenario):
    """Run the scenario; exit 0 if it held, 1 if not."""
    sim = Sim({"seed": 1, "choices": {}}, 2000000)
    try:
        sim.run(scenario)
    except AssertionError:
        traceback.print_exc()
        print("BROKEN")
        sys.exit(1)
    if sim.violations:
        print("BROKEN", sim.violations[0])
        sys.exit(1)
    print("ok")
    sys.exit(0)
