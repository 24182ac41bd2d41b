#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from check.PROPS and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
NA = {
 "C30": "Results of the compiler: there is nothing at run time which a schedule, clock, I/O, allocation or fault could influence, so there is nothing to simulate.",
 "C31": "A pure numeric function of its input: no schedule, clock, I/O or fault for the property to depend on.",
 "C32": "Pointers into a sequence owned by someone else: no allocation, I/O, clock or schedule is involved and no operation can fail, so there is nothing to simulate or to inject.",
}
T = "deterministic simulation with fault injection (seeded search over schedules, faults and inputs; minimised replayable traces)"
NOTE = {
 "ic": "Seeded sampling of thread schedules down to single memory accesses (vector-clock race detection, deterministic heap with use-after-free and leak detection), spurious wake-ups, thread-start failure, closes and server ends; oracle is the request list. Trusts the simulator's model of pthread primitives; sampling, not proof.",
 "net": "Seeded sampling of socket faults, segmentations, thread schedules and client histories against CSocket.cpp itself on a simulated kernel and clock; oracles compare with per-connection byte logs. Trusts the simulated socket semantics; sampling, not proof.",
 "stack": "As the network world, with the intrusive connection on top of the C socket server; oracle is the list of requests of each client.",
 "redir": "Seeded sampling of call sequences, writers and I/O faults against RedirectIO on a simulated file system under the real stdio; oracle is a byte log per descriptor. Sampling, not proof.",
 "diag": "Seeded sampling of operation sequences with allocation or formatting failing at any point, against a list model, with leak, bounds and invalid-free detection. Sampling, not proof.",
 "queue": "Seeded sampling of operation sequences with an allocation failing at any point, against a list model, with leak and invalid-free detection. Sampling, not proof.",
 "json": "Seeded sampling of documents with allocation failure at any point, truncation and byte corruption, exact-bounds buffers; oracle is an independent value model. Sampling, not proof.",
 "trait": "Seeded sampling of operation sequences with an allocation failing at any point, against a set model, with every description's life tracked. One nested descriptor is instantiated; sampling, not proof.",
 "cells": "Seeded sampling of operation sequences with an allocation, constructor or assignment failing at any point, against a value model, with every element's life tracked. Sampling, not proof.",
 "multi": "Seeded sampling of schedules, start-up and connection faults of two to four servers in one simulated process, with vector-clock race detection; oracles compare each server and connection with its own log. Trusts the simulated socket and name service semantics; sampling, not proof.",
 "par": "Seeded sampling of thread schedules with vector-clock race detection over heap and globals; the oracle is the same work done alone. Eight mixtures of operations are instantiated; sampling, not proof.",
 "node": "Seeded sampling of event sequences, garbage collections and faults through the compiled addon in the real Node.js, single threaded and predictable; oracle is the event list. Trusts V8. Sampling, not proof.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PROPS:
        w = check.PROPS[i][0]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=T, level="exploration", level_note=NOTE[w]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "The simulated world for it is not built yet.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every seam is at link time (--wrap), at the socket, file and allocation calls and the compiler's memory access callbacks. "
               "Repairs of genuine defects are the fix: commits listed in KNOWN_FINDINGS.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
