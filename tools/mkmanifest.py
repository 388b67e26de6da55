#!/usr/bin/env python3
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, H)
from profiles import PROFILES
NA = {"C23": "Pure functions of their input with no concurrency, time, I/O or multi-party behaviour; their use in connections is exercised end to end under C01, C04 and C05."}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in PROFILES:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and client behaviour, " + {"C15": "thread pool driven by simulated caller threads", "C16": "ring buffer driven by simulated producers and consumer", "C26": "the real allocator driven by simulated threads on simulated page mappings"}.get(i, "whole server against simulated clients and kernel"),
            "level": "exploration", "level_note": "Held on every simulated run explored; a sample of schedules and fault sequences, not a proof. Trusts the simulated kernel, pthreads and heap and assumes sequentially consistent memory."})
    else: na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator replaces libc, pthread, epoll, socket, TLS transport and allocator symbols in the object files at build time (objcopy) and sees memory accesses through the compiler's thread-sanitizer instrumentation calls. Commits in /repo are fix: commits only, listed in known_findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); print(len(checks), len(na))
