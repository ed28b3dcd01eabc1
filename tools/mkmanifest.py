import json
NOTE_GO = "Seeded search, not proof. Real generated code, real protobuf, real Go runtime with its random source, clock, locks and goroutine choice behind seams; trusts the reference model and that interleavings at statement granularity plus the race detector stand for all."
NOTE_PLUG = "Seeded search, not proof. The whole real plugin binary; simulated streams, clock, goroutine choice, map order. Trusts the grammar of rule sets and that a file generated alone is the reference."
NOTE_CC = "Seeded search, not proof. Real generated C++, validate.h, libprotobuf, libre2 and threads, one running at a time; interleavings at control-flow edges and stores plus the race detector; libprotobuf and libre2 are trusted and never fail an allocation."
NOTE_JAVA = "Seeded search, not proof. Real Java runtime classes, interceptors and generated validators compiled from /repo; gRPC, protobuf, re2j and commons-validator are stand-ins written from their contracts, since none is installed; memory is sequentially consistent."
NOTE_PY = "Seeded search, not proof. The real validator.py and the code it generates; protobuf, jinja2 and validate_email are stand-ins written from their contracts, since none is installed; library calls are atomic and memory is sequentially consistent."
checks = [
 ("C01", "deterministic simulation: seeded single-token goroutine scheduler over instrumented validators, race detector, reference model", "exploration", NOTE_GO),
 ("C02", "deterministic simulation: seeded map-iteration source in the Go runtime, reference model", "exploration", NOTE_GO),
 ("C03", "deterministic simulation: simulated wall clock with jumps inside and between calls, reference model", "exploration", NOTE_GO),
 ("C04", "deterministic simulation: fault-injecting child validators, both modes against a reference model", "exploration", NOTE_GO),
 ("C05", "deterministic simulation: seeded single-token thread scheduler at compiler-inserted yield points, every history in a fresh process, race detector, against each call alone", "exploration", NOTE_CC),
 ("C06", "deterministic simulation: seeded allocation failures at any point of any call, seeded map order, address sanitizer, against each call alone", "exploration", NOTE_CC),
 ("C07", "deterministic simulation: plugin under seeded map order, request order, clock, environment and read chunking, against each file generated alone", "exploration", NOTE_PLUG),
 ("C08", "deterministic simulation: plugin under seeded stream faults (eof, errors, short writes, full disk, kill) and planted contradictions at any place in the request", "exploration", NOTE_PLUG),
 ("C09", "deterministic simulation: seeded loading of validator shared objects among validating threads, all static initialisation orders, race detector, reference model of the rules loaded so far", "exploration", NOTE_CC),
 ("C10", "deterministic simulation: seeded interleaving of call events on several threads at bytecode level, failing services, transports, lookups and validators, model of a guarded call", "exploration", NOTE_JAVA),
 ("C11", "deterministic simulation: seeded interleaving of client operations on several threads at bytecode level, failing channels, transports, lookups and validators, model of a transparent call", "exploration", NOTE_JAVA),
 ("C12", "deterministic simulation: seeded interleaving of lookups, registrations and uses at bytecode level, injected class-loading failures and throwing fallbacks, reference model of allowed answers", "exploration", NOTE_JAVA),
 ("C13", "deterministic simulation: seeded interleaving of validations at bytecode level, injected stack and memory exhaustion and lookup failures, against each call alone in a fresh copy of the code", "exploration", NOTE_JAVA),
 ("C14", "deterministic simulation: simulated clock with ticks and jumps inside and between calls, seeded interleaving, reference model over all readings during a call", "exploration", NOTE_JAVA),
 ("C15", "deterministic simulation: simulated clock with ticks and jumps inside and between calls, seeded interleaving, reference model over all readings during a call", "exploration", NOTE_PY),
 ("C25", "deterministic simulation: seeded interleaving at every statement and expression, injected interrupts and memory or stack exhaustion at any of them, against each call alone in a fresh module", "exploration", NOTE_PY),
]
DONE = {c[0] for c in checks}
PURE = "pure function of its input: no schedule, clock, I/O, fault or history takes part, so there is nothing for a simulator to decide"
na = {
 "C20": PURE + " (the Go reference model of C01-C04 covers Go's share as a side effect)",
 "C21": PURE + " (C08 decides what a refusal does to the run)",
 "C22": PURE, "C23": PURE + " (corpus messages of C01/C05 carry these options)", "C24": PURE + " (field paths are compared in C01-C04 as a side effect)",
}
for i in ["C05","C06","C07","C08","C09","C10","C11","C12","C13","C14"]:
    if i not in DONE: na[i] = "check under construction"
for d in DONE: na.pop(d, None)
M = {"version": 1, "setup_cmd": "python3 tools/check.py setup",
     "checks": [{"property": c[0], "quick_cmd": "python3 tools/check.py " + c[0], "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + c[0], "technique": c[1], "level": c[2], "level_note": c[3]} for c in checks],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
     "notes": "All seams are build overlays and generated-code instrumentation made at check time; no hooks are committed in /repo."}
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1)
