"""Prints the table of planted bugs for DESIGN.md (development only)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {"ack-queue-full": "acks of frames that wait for ever", "heartbeat-day": "runs of days added", "unreadable-removed": "read errors added", "colon-free-names": "many end points added",
         "registration-unacknowledged": "addresses while connecting", "class-timeout-lost": "sends through command class objects", "last-option-only": "notices among other options", "endpoint-low-bits": "nodes with up to 20 end points",
         "checksum-head": "long entries that differ at the end", "keepalive-endpoint-blind": "sends to end points", "dsk-word-zero": "DSKs with words of zeros", "ack-more-information": "acknowledgements with any flags"}
print("| bug | property | needs | caught by | missed first; what was added |\n|---|---|---|---|---|")
for b in sorted(os.listdir(HERE + "/seeded"), key=lambda b: json.load(open(HERE + "/seeded/%s/meta.json" % b))["property"]):
    m = json.load(open(HERE + "/seeded/%s/meta.json" % b))
    print("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["property"], FIRST.get(b, "")))
