#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the file stays well formed)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    anchors["observe_at"] = observe or []
    anchors["hook_needed"] = None
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": anchors,
    })


prop("C01", "A send succeeds exactly when its own frame is acknowledged in time",
     "Sending a command completes with success if an acknowledgement carrying that frame's sequence number arrives "
     "within the waiting window (3 seconds unless the caller gives another timeout) and with failure when the window "
     "closes without one; it never ends in any other error, and no acknowledgement of another frame counts. "
     "Frames that are outstanding at the same time carry different sequence numbers, however many sends have been made. "
     "A send that timed out or was cancelled by its caller never disturbs, delays or fails a later send.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of sends, cancellations, acknowledgements and timeouts, under loss, duplication, reordering and delay, for histories longer than the 8-bit sequence space",
     "The tests acknowledge one frame right after sending it; they never let an ack race the timeout, cancel a send, or send more than a few frames.",
     ["pyzwave/zipconnection.py", "pyzwave/adapter.py"],
     [("sequence number allocation and result of send", "ZIPConnection.send"), ("matching acks to waiters", "Adapter.ackReceived / Adapter.waitForAck"), ("timeouts", "Ack.wait")],
     [("outstanding acknowledgements", "which sequence numbers are being waited for", "Adapter")],
     ["result of send()", "datagrams written to the socket"])

prop("C02", "A send to a sleeping node waits as long as the gateway announces",
     "When the gateway answers a frame with a 'waiting' notice, the send stays pending for the announced delay plus 60 "
     "seconds after that notice (120 plus 60 when the announced delay is negative, 60 when none is announced), each further "
     "notice restarting the wait with its own delay. An acknowledgement of that frame inside the wait makes the send succeed at once and the end of "
     "the wait makes it fail, and sends to other nodes or frames are not held up meanwhile; a send is refused, at once, only while all 256 frame numbers of its connection are in use.",
     ["schedules", "fault_sequences", "inputs"],
     "every sequence and timing of waiting notices, acknowledgements and cancellations over waits of minutes to months, including lost, repeated and late ones",
     "Tests use one canned notice followed by an immediate ack; nobody waits for minutes, and no test has a notice without a delay, repeated notices or an expiry.",
     ["pyzwave/adapter.py", "pyzwave/zipconnection.py", "pyzwave/commandclass/Zip.py"],
     [("extended wait", "Ack.queued / Ack.wait"), ("notice recognised", "ZIPConnection.onPacket, Adapter.ackReceived"), ("announced delay decoded", "Zip.HeaderExtension.expectedDelay")],
     None, ["result and completion time of send()"])

prop("C03", "A request gets the reply sent after it, in any arrival order",
     "A request that sends a command and waits for a kind of message returns the first such message that arrives from the "
     "addressed node after the request was sent, also when the reply overtakes the acknowledgement or arrives together with it, "
     "and otherwise fails with a timeout within the acknowledgement window plus the reply window. "
     "When several requests wait for the same kind of message, the timeout, failure or cancellation of one never changes the "
     "outcome of another. No reply that arrived in time is ever lost to a race with a timeout.",
     ["schedules", "fault_sequences"],
     "every order of ack and reply, every overlap of requests on a node, every timeout and cancellation point, under message loss, duplication and delay",
     "Tests drive one waiter with one reply delivered on the next loop turn; overlap, reply-before-ack and simultaneous timeouts are not reached.",
     ["pyzwave/util.py", "pyzwave/adapter.py", "pyzwave/node.py"],
     [("waiting sessions", "MessageWaiter"), ("request on the controller", "Adapter.sendAndReceive"), ("request to a node", "Node.sendAndReceive")],
     [("waiting sessions", "requests waiting per kind of message", "MessageWaiter")],
     ["result of sendAndReceive() on adapter, node and command class"])

prop("C04", "Finished requests never swallow later messages",
     "Once a request has ended - answered, timed out, not acknowledged, failed to send, or cancelled by its caller - no later message is consumed on its "
     "behalf. A message that nobody is waiting for is always offered to the "
     "registered listeners of the connection or node, and a later request is never given a message that arrived before it was made.",
     ["schedules", "fault_sequences", "histories"],
     "every history of requests ending in every possible way at every possible instant, followed by unsolicited messages of the same kind",
     "Tests do not look at the waiter state left behind by a failed or cancelled request.",
     ["pyzwave/util.py", "pyzwave/adapter.py", "pyzwave/node.py"],
     [("session clean-up", "MessageWaiter.waitForMessage"), ("request paths", "Adapter.sendAndReceive, Node.sendAndReceive"), ("fallback to listeners", "Adapter.commandReceived, Node.handleMessage")],
     None, ["listener callbacks", "result of requests"])

prop("C05", "Unsolicited reports reach the right node once, in order, and are acknowledged",
     "Every report a known node sends on its own initiative is delivered exactly once per received datagram to the application's object for that "
     "node and endpoint, with unchanged content, and each handler sees the reports of one kind in order of arrival; reports from unknown addresses are delivered to nobody. "
     "Such a report is acknowledged to its sender, with its own sequence number and swapped endpoints, exactly once if it asked for an acknowledgement and never otherwise. "
     "Problems in handling one report never affect the delivery of another.",
     ["schedules", "inputs", "fault_sequences"],
     "every interleaving of reports from several nodes and endpoints with slow or failing handlers, requests in progress, node list changes, duplicated and reordered datagrams",
     "Tests call the handler with one canned packet; no concurrency, no endpoints beyond zero, no duplicate or interleaved traffic.",
     ["pyzwave/zipgateway.py", "pyzwave/application.py", "pyzwave/node.py", "pyzwave/commandclass/Zip.py"],
     [("address lookup, ack and dispatch", "ZIPGateway.onUnsolicitedMessage"), ("ack frame", "Zip.ZipPacket.response"), ("endpoint routing", "Application.messageReceived, Node.handleMessage")],
     None, ["listener callbacks", "datagrams sent from the unsolicited socket"])

prop("C06", "Commands go to the addressed node and its replies are attributed to it",
     "Every command sent to a node is transmitted to the address that the gateway advertised for that very node, with the "
     "requested endpoint, and everything received from that address in return is attributed to that node only - "
     "however many lookups run at the same time and whatever order, delay, loss or duplication their answers suffer. "
     "A node that is used repeatedly or concurrently is reached over one single connection, and a failed or cancelled lookup "
     "leaves later sends to the node working.",
     ["schedules", "fault_sequences"],
     "every overlap of first uses of several nodes, lost, late, duplicated or swapped address advertisements, cancellations during connection set-up",
     "Tests look up one address with one answer and stub the lookup when connecting.",
     ["pyzwave/zipgateway.py", "pyzwave/connection.py"],
     [("address lookup", "ZIPGateway.ipOfNode"), ("connection cache", "ZIPGateway.connectToNode"), ("attribution of replies", "ZIPGateway.onMessageReceived")],
     [("open connections", "connection per node", "ZIPGateway")],
     ["destination of datagrams", "messageReceived callbacks", "sockets opened"])

prop("C07", "The node set follows the gateway's list; changes are announced once",
     "After the last node list update has been received and processed, the application knows exactly the listed nodes "
     "except the controller, whatever updates, lost answers or start-up work overlapped before. Between two announcements that a node was added there is always "
     "one that it was removed and the other way round, the final announcement agrees with the final list, the announced object is the one in use, and no update is dropped because an earlier one is still being processed.",
     ["schedules", "histories", "fault_sequences"],
     "every history of overlapping list updates (adds, removes, re-adds) with slow, lost or reordered answers in between, also during start-up",
     "Tests apply single updates to a quiet application with immediate stubbed answers.",
     ["pyzwave/application.py", "pyzwave/zipgateway.py"],
     [("gateway side list", "ZIPGateway list report handling, getNodeList"), ("application side", "Application.nodeListUpdated, loadNode, startup")],
     [("nodes", "known nodes", "ZIPGateway and Application")],
     ["Application.nodes", "nodeAdded/nodeRemoved/nodesAdded/nodesRemoved callbacks"])

prop("C08", "Network management commands keep working indefinitely",
     "Every network management operation - listing nodes, reading node information and endpoints, adding, removing, key and DSK "
     "answers, failed node handling - transmits a well-formed frame and returns its normal result no matter how many such operations were made before. "
     "Consecutive commands carry different command sequence numbers, also across the wrap of the 8-bit number.",
     ["histories", "fault_sequences"],
     "every long history (several hundred operations, several wraps of the 8-bit number) mixing all operations, with lost and late answers",
     "Each test issues one or two operations on a fresh gateway object.",
     ["pyzwave/zipgateway.py"],
     [("command sequence number", "ZIPGateway network management methods")],
     [("command sequence number", "last used number", "ZIPGateway")],
     ["datagrams sent to the gateway", "results of the operations"])

prop("C09", "A connection never stays silent for more than 25 seconds",
     "From the moment it is connected, a connection transmits something at least every 25 seconds: a keep-alive is sent exactly when "
     "25 seconds have passed without a command or keep-alive being sent, and not earlier. "
     "This goes on indefinitely, on every connection, whatever is lost, delayed or received and whatever sends fail or are cancelled.",
     ["schedules", "histories", "fault_sequences"],
     "every timing of sends around the 25 second mark over simulated hours, with lost answers, incoming traffic, failures and cancellations",
     "Real time tests cannot wait; the existing test only checks that the timer handle is replaced.",
     ["pyzwave/zipconnection.py"],
     [("keep-alive timer", "ZIPConnection.keepAlive / resetKeepAlive")],
     None, ["datagrams sent and their times"])

prop("C10", "The mailbox never loses, mixes up or duplicates a queued message",
     "A message the mailbox accepted for a sleeping node stays queued until a delivery of it to that node's queue has been "
     "acknowledged; wake-ups and acknowledgements hand out the entries of that queue only, oldest first, one per trigger, flagging "
     "the last one, and an empty queue answers with an empty 'last' entry. An identical message already queued for the same queue is not queued again, also when copies arrive "
     "at the same time. A failed delivery is repeated at the next wake-up.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of pushes, duplicates, wake-ups and acknowledgements on several queues with lost frames, lost acks and slow sends",
     "Tests queue one message and pop it with an adapter that always succeeds immediately.",
     ["pyzwave/mailbox.py"],
     [("queueing and de-duplication", "MailboxService push handling"), ("delivery", "MailboxService pop handling"), ("triggers", "MailboxService.messageReceived")],
     [("queues", "entries per queue handle", "MailboxService")],
     ["frames sent to the mailbox proxy"])

prop("C11", "Queued mailbox entries are announced by heartbeats until delivered",
     "While an entry is queued the mailbox repeats a heartbeat with the entry's own data and handle to the node that owns the entry: the first 60 seconds "
     "after acceptance and then 60 seconds after the previous one has been acknowledged or given up, every tenth being a ping and the others 'waiting' notices. "
     "Lost or unacknowledged heartbeats never end the series, and no heartbeat of an entry is sent after its delivery was acknowledged.",
     ["schedules", "histories", "fault_sequences"],
     "every history of pushes, deliveries and failures over simulated hours, with heartbeats racing deliveries",
     "The test runs the heartbeat loop of one item with sleep stubbed out.",
     ["pyzwave/mailbox.py"],
     [("heartbeat task", "QueueItem"), ("start and stop", "MailboxService push and pop handling")],
     None, ["frames sent to the mailbox proxy and their times"])

prop("C12", "Each supervised command is answered by exactly one matching report",
     "For every supervised command received from a node, exactly one supervision report carrying the same session number is sent to "
     "the node and endpoint it came from, after the wrapped command was handled, and the wrapped command is delivered once like an ordinary one. The report says success if and only if a handler accepted the "
     "wrapped command. This holds for overlapping sessions, slow or failing handlers and requests in progress.",
     ["schedules", "inputs", "fault_sequences"],
     "every overlap of supervised commands from several nodes and endpoints with slow, refusing and failing handlers, under loss of the reports and their acks",
     "Tests supervise a single command with handlers that return at once.",
     ["pyzwave/node.py", "pyzwave/commandclass/Supervision.py", "pyzwave/application.py"],
     [("unwrapping and report", "supervision decorator on Node.handleMessage")],
     None, ["supervision report datagrams", "listener callbacks"])

prop("C13", "Saved node data is restored unchanged after a restart",
     "After a restart on the same storage directory every node and endpoint has for each supported command class the same version, interview state and "
     "learned data, with the same values and types, as it had when last saved - for every command class, "
     "every learned value and any number of save and restart cycles. Changes of learned data outside a storage lock are saved when they happen, and data of one node never shows up in another.",
     ["histories", "crash_points", "inputs"],
     "every history of learned data, interviews, saves and restarts at arbitrary points, over all persisted command classes",
     "Tests restore one number from a hand written file and never read back what was written.",
     ["pyzwave/persistantstorage.py", "pyzwave/util.py", "pyzwave/commandclass/CommandClass.py", "pyzwave/commandclass/Association.py", "pyzwave/commandclass/AssociationGrpInfo.py", "pyzwave/commandclass/Configuration.py", "pyzwave/commandclass/SensorMultilevel.py"],
     [("file format", "YamlStorage"), ("state of attributes", "AttributesMixin get/set state"), ("state of command classes", "CommandClass get/set state")],
     None, ["command class attributes, version and interviewed after restart"])

prop("C14", "A crash or disk error while saving never destroys saved data",
     "If the process dies, the power fails, or the disk fails or fills up, at any point while a node's data is being saved, the next start "
     "finds for that node either the complete previous or the complete new data, and all other nodes' data unchanged. "
     "An error while saved data is read leaves what is saved as it was. "
     "Left-overs of an interrupted save never break loading, and once the disk works again saving works again.",
     ["crash_points", "fault_sequences", "histories"],
     "every write, open, rename or close operation of every save as crash point, with short or failed writes and full disk",
     "Tests mock the file away.",
     ["pyzwave/persistantstorage.py"],
     [("saving", "YamlStorage.nodeUpdated"), ("loading", "YamlStorage.nodeAdded")],
     None, ["files left behind", "state restored by a fresh storage object"])

prop("C15", "The storage lock defers saves but never loses or leaks one",
     "While a storage lock is held on a node nothing is saved for it; when the last of possibly nested or overlapping locks is released "
     "the node is saved exactly once if something changed in the meantime and not at all otherwise. "
     "This also holds when the locked code fails, times out or is cancelled, and changes outside any lock are saved immediately, once per change.",
     ["schedules", "histories"],
     "every nesting and interleaving of locks held by concurrent tasks with updates, exceptions and cancellations",
     "The test takes one lock in straight line code.",
     ["pyzwave/node.py"],
     [("lock", "Node.storageLock"), ("deferral", "Node.commandClassUpdated")],
     [("storage status", "lock and dirty state", "Node")],
     ["nodeUpdated callbacks", "files written"])

prop("C16", "Interviews end, and record only what the node actually said",
     "Interviewing a node always ends in bounded time whatever answers are lost or late, and a failing command class never keeps the others from being interviewed. "
     "A command class is marked interviewed only if every answer its interview requires was received during it (version, manufacturer, Z-Wave Plus information and multilevel sensor "
     "classes), and its recorded version and learned values are exactly those the node reported for that class; a class whose version could not be learned stays unversioned and not interviewed.",
     ["schedules", "fault_sequences", "configurations"],
     "every combination of supported classes and versions with lost, late, duplicated and reordered answers, repeated and overlapping interviews",
     "Tests answer each query immediately from a queue.",
     ["pyzwave/node.py", "pyzwave/commandclass/CommandClass.py", "pyzwave/commandclass/Version.py", "pyzwave/commandclass/SensorMultilevel.py", "pyzwave/commandclass/Association.py", "pyzwave/commandclass/ManufacturerSpecific.py", "pyzwave/commandclass/ZwavePlusInfo.py"],
     [("node interview", "Node.interview"), ("version and marking", "interviewDecorator, CommandClass.requestVersion")],
     None, ["version, interviewed and attributes of command classes", "time taken"])

prop("C17", "Bad datagrams are ignored and disturb nothing",
     "Empty, truncated, corrupted or unknown datagrams that cannot be decoded, arriving on any socket at any moment, are dropped: no exception reaches "
     "the caller of any operation, and every valid message, acknowledgement, request, keep-alive and node list update before and after is "
     "handled as if the bad datagram had not arrived. Negative acknowledgements, frames asking for an acknowledgement on an outgoing connection, and keep-alive answers likewise leave everything else working.",
     ["inputs", "fault_sequences", "schedules"],
     "every kind of undecodable datagram inserted at every point of ongoing exchanges on gateway, node and unsolicited sockets",
     "Tests feed one undecodable packet to an idle connection.",
     ["pyzwave/zipconnection.py", "pyzwave/zipgateway.py", "pyzwave/message.py", "pyzwave/types.py", "pyzwave/commandclass/Zip.py", "pyzwave/connection.py"],
     [("decode guard", "ZIPConnection.onPacket, ZIPGateway.onUnsolicitedMessage"), ("bounds checks", "BitStreamReader")],
     None, ["results of operations and callbacks with and without the bad datagrams"])

prop("C18", "A failing listener does not affect the others or the system",
     "Every listener registered for an event is called exactly once per event, even if other listeners raise errors, are slow, "
     "or are cancelled, whether they are plain functions or coroutines; plain functions are called in registration order, and so are coroutines. "
     "The component that raised the event carries on: node announcements continue for the remaining nodes, later events are "
     "delivered, requests and persistence keep working.",
     ["schedules", "fault_sequences"],
     "every mix of synchronous and asynchronous, failing, slow and cancelled listeners on applications, nodes, command classes and adapters during ongoing traffic",
     "One test has a synchronous listener that raises; asynchronous failures and their effect on the rest are not reached.",
     ["pyzwave/util.py", "pyzwave/application.py", "pyzwave/node.py", "pyzwave/commandclass/CommandClass.py"],
     [("dispatch", "Listenable.speak / Listenable.ask")],
     None, ["listener callbacks", "results of operations"])

prop("C19", "Inclusion and exclusion commands and their progress reports get through",
     "Starting, stopping and answering inclusion, exclusion and failed node removal transmits the matching command with the caller's parameters and reports success only if the gateway "
     "acknowledged it (for failed node removal, the status the gateway reported, or failure if none arrived). Every inclusion or exclusion status, key and DSK report received is handed to the "
     "application's listeners exactly once, in order of arrival, with its content; a completed exclusion of an unknown node is additionally announced as removal of node 0.",
     ["schedules", "fault_sequences", "histories"],
     "every order and timing of commands, acknowledgements and status reports under loss, duplication, reordering and delay, repeated sessions",
     "Tests stub the send or raise a timeout the real send never raises, and dispatch single canned messages.",
     ["pyzwave/zipgateway.py", "pyzwave/application.py", "pyzwave/commandclass/NetworkManagementInclusion.py"],
     [("commands", "ZIPGateway.addNode/removeNode and companions"), ("status dispatch", "Application.onMessageReceived")],
     None, ["datagrams to the gateway", "results", "addNodeStatus/removeNodeStatus/nodeRemoved/messageReceived callbacks"])

prop("C20", "Composing and decoding a message are inverse to each other",
     "Every message composed from valid field values decodes to a message with the same field values, and every well-formed "
     "frame of a known command decodes to the values it carries.",
     ["inputs"],
     "all field values of all messages",
     "Tests decode a handful of recorded frames.",
     ["pyzwave/message.py", "pyzwave/types.py", "pyzwave/util.py"],
     [("codec", "Message.compose / Message.decode, BitStreamReader / BitStreamWriter")])

prop("C21", "An answer about one item is never taken for an answer about another",
     "The result of a query about a particular item - a node's information or endpoints, a configuration parameter, a command class "
     "version, a sensor type's scales, an association group - comes from an answer about that item (identified by the item or the query's sequence number it carries), never from an "
     "answer about another item, also if queries overlap or earlier answers arrive late, duplicated or swapped. Failing that, the query ends as unanswered.",
     ["schedules", "fault_sequences"],
     "every overlap and reordering of queries of the same kind about different items, with late and duplicated answers",
     "Tests answer each query from a fixed queue, in order.",
     ["pyzwave/zipgateway.py", "pyzwave/commandclass/CommandClass.py", "pyzwave/commandclass/Configuration.py", "pyzwave/commandclass/SensorMultilevel.py", "pyzwave/commandclass/Association.py"],
     [("controller queries", "ZIPGateway getNodeInfo, getMultiChannelEndPoints, getMultiChannelCapability, removeFailedNode"), ("node queries", "CommandClass.requestVersion, Configuration.get, SensorMultilevel.interview, Association.interviewGrouping")],
     None, ["results of queries"])

prop("C22", "Connecting and starting up load every node, surviving lost answers",
     "Connecting always ends in bounded time without an error however many gateway answers are lost, sets the gateway mode when and only when the gateway reports another one, registers for unsolicited reports, and learns the "
     "address of every listed node whose advertisement arrives. Start-up then loads every listed node except the controller with the device classes, "
     "command classes (and whether they need security S0) and endpoints the gateway reported for it and announces each node and endpoint exactly once, after all are loaded; a lost answer about one node never keeps another from being loaded and announced.",
     ["schedules", "fault_sequences", "configurations"],
     "every network composition with every pattern of lost, late and duplicated answers during connection and start-up",
     "Tests run the steps one by one with stubbed answers.",
     ["pyzwave/zipgateway.py", "pyzwave/application.py", "pyzwave/node.py"],
     [("connecting", "ZIPGateway.connect, setGatewayMode, setupUnsolicitedConnection"), ("start-up", "Application.startup, loadNode, loadEndPointNode")],
     None, ["datagrams to the gateway", "Application.nodes", "nodeAdded/nodesAdded callbacks"])

prop("C23", "The DTLS reader thread hands over every datagram in order",
     "Every datagram read by the encrypted connection's reader thread is delivered exactly once, in order and with its sender "
     "address where applicable, to the message callback on the event loop's thread, never on the reader thread. Connecting completes only after "
     "the handshake, a read error or stop request ends the reader without disturbing the event loop, and nothing is delivered twice.",
     ["schedules", "fault_sequences"],
     "every interleaving of the reader thread with the event loop, with read errors and stops at every point",
     "Tests replace the socket with a mock and run the reader to completion without an event loop racing it.",
     ["pyzwave/dtlsconnection.py"],
     [("thread hand-off", "DTLSConnection.run / connect / listen")],
     None, ["onMessage callbacks and the thread they run on"])

prop("C24", "Parameters, group descriptions and readings are taken over as reported",
    "The value and size recorded for a configuration parameter, and the profile, name and commands recorded for an association group, are always those of the last complete report about it from that node and endpoint, answered or unasked, plain or supervised; "
    "a report that is cut short, or is about something else, changes nothing. A known parameter is read from there without asking; any other read asks exactly once and returns what is reported afterwards; setting sends exactly the value given and records nothing. "
    "Every group reported is asked for its name and commands. A sensor reading is passed on to listeners exactly once if the types supported are unknown (version below 5) or the type and scale are recorded as supported, and never otherwise; an interview that fails loses no type recorded before.",
    ["inputs", "schedules", "fault_sequences"],
    "every history of reports, queries and interviews of several nodes and endpoints, with lost, late, reordered and truncated reports",
    "Tests deliver one complete report at a time to a mock node.",
    ["pyzwave/commandclass/Configuration.py", "pyzwave/commandclass/AssociationGrpInfo.py", "pyzwave/commandclass/SensorMultilevel.py"],
    [("report handlers", "Configuration.__report__, AssociationGrpInfo handlers, SensorMultilevel.__report__"), ("queries", "Configuration.get / set, AssociationGrpInfo.interview, SensorMultilevel.interview")],
    None, ["Configuration.parameters", "AssociationGrpInfo.groupings", "SensorMultilevel.supportedTypes", "onReport callbacks", "datagrams to the nodes"])

prop("C25", "Groups of a device change only to add a missing controller to the lifeline",
    "No command that changes an association group is ever sent except during an interview of a Z-Wave Plus node or endpoint, for group 1, to add the controller and nothing else, as a multi channel member exactly if the node supports multi channel and multi channel associations, "
    "and only if the last known report about that group does not list the controller already (as node or as its endpoint 0); an interview that completes and learned that the controller is missing sends it once and asks for the group again. "
    "A completed interview asked for every group the node reported to have, with the class the node supports; the groups recorded are exactly those, each with the size and members of a complete report received during it, or as before if none was. "
    "A report that is lost, cut short, or about another group changes nothing, and keeps neither the other groups from being asked for nor the interview from ending.",
    ["inputs", "schedules", "fault_sequences"],
    "every history of interviews, changes by others, reports, losses and truncations, on nodes and endpoints of every kind",
    "Tests interview one mock node that answers from a queue.",
    ["pyzwave/commandclass/Association.py", "pyzwave/commandclass/MultiChannelAssociation.py"],
    [("interview", "Association.interview, interviewGrouping"), ("lifeline", "Association.setupLifeLine, Nodes")],
    None, ["datagrams to the nodes", "Association.groupings", "members of the groups of the node"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as fd:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fd.write(json.dumps(p) + "\n")
