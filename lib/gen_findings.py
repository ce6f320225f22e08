#!/usr/bin/env python3
"""Writes known_findings.json.  All genuine defects found so far were repaired; a fixed entry suppresses nothing."""
import json, os
FIXED = [
 ("C07", "5da7d31", "a message published between the delivery loop's last look at its queue and its going to sleep was not noticed until the next periodic check"),
 ("C08", "f2a01bf", "detaching a bus while another thread publishes through it read the parent pointer after it was reset"),
 ("C08", "ea46e54", "changing a subscriber's or provider's callback while the bus calls it was a data race (and, C04, the old callback could still run)"),
 ("C07", "5786b37", "a subscriber callback that created or deleted a subscriber or a child bus of the same tree dead-locked"),
 ("C09", "5401241", "the open requests of a consumer were changed by the requesting and the delivering thread without synchronisation"),
 ("C10", "3e4477c", "a response that arrived after a blocking request timed out was written to the dead stack frame of the request"),
 ("C11", "7faa58a", "a message without an invocation id (or of another kind) on an action topic ended the bus with an exception"),
 ("C17", "78c7a07", "empty JSON arrays and objects were dropped (decoded as empty datagrams or missing)"),
 ("C12", "e867d20", "accessing a list index of a datagram that is no list threw, but destroyed its content first"),
 ("C12", "a6378bf", "a string literal assigned to a datagram was stored as a boolean"),
 ("C26", "7bddede", "listing a directory ignored the filter for directories"),
 ("C28", "f1b371e", "configurations that differ in some of their settings compared equal"),
 ("C17", "72fa1a0", "JSON strings were cut at an embedded \\u0000"),
 ("C22", "64fefa8", "the host reported itself as stopped before its shutdown and as running after it"),
 ("C22", "d6acf33", "a stop request before or during the start was lost, so that the host ran for ever"),
 ("C22", "baa3013", "a signal that arrived before the instance existed was handled with a null instance"),
 ("C21", "fc3fd4d", "a plugin entry of a wrong kind in a configuration file ended the program"),
 ("C20", "6482509", "a template that failed to create its instance crashed the host when it was unloaded"),
 ("C20", "28672f3", "a plugin instance whose run ended on its own was never deinitialised"),
 ("C16", "66d5fdd", "empty lists and dictionaries arrived as empty datagrams after serialisation"),
 ("C25", "4235f86", "truncated or corrupted bytes were read beyond their end by deserialisation"),
 ("C27", "d80f3b5", "log lines of two copies of the library (host and plugin) in one process mixed, as parts of lines stayed in the stream's buffer"),
 ("C23", "2a0c5d1", "a library whose information function reports nothing (null) crashed the host"),
 ("C24", "0b679fe", "shutting a link down never ended when its peer had gone away with messages pending"),
 ("C20", "8ce0ef7", "a plugin's library was unloaded while the bus still held objects (callbacks, payloads) of its code"),
 ("C22", "cbc6a59", "a signal that arrives while the program exits used the destroyed instance"),
 ("C31", "38248ce", "a message on /sysinfo whose payload is not a text threw out of the plugin's callback and ended the host"),
]
out = {"findings": [{"property": p, "status": "fixed", "what": "fixed: property=%s %s %s" % (p, c, w), "keys": []} for p, c, w in FIXED]}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w") as f:
    f.write(json.dumps(out, indent=1) + "\n")
