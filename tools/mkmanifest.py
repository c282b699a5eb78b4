#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T="deterministic simulation with fault injection: seeded search over "
checks=[
("C01","reader deliveries (segmentation, empty reads, end with or after data, scratch use) of the real tokenizer and scanner, against the one-piece delivery in a fresh process"),
("C02","read failures placed inside simulated scans, against the text cut off at a failure point"),
("C03","source stalls, with bounds on what may be read before each token is handed out and on scans after the end"),
("C04","abandoned scans (any point, read errors, panics) followed by re-initialisation, against a fresh scanner"),
("C05","write failures and full destinations while formatting, against the fault-free text"),
("C06","saves, failing writes, crashes, restarts with new hash seeds and reloads of rules, against the first parse"),
("C07","map iteration orders (start-up included), call histories and processes, against one golden text"),
("C08","map iteration orders, call and dictionary histories, against verdicts in fresh processes"),
("C09","statement-level interleavings of concurrent calls, stalls and callbacks, against sequential results, with the race detector under the simulated schedule"),
("C10","statement-level interleavings of concurrent readers of one rule, against sequential results, with the race detector under the simulated schedule"),
("C11","sets of declined expressions, aborted and re-entrant traversals, against a reflective walk of the tree"),
("C12","interruptions (panics and goroutine exits of readers, writers, visitors, handlers) at arbitrary points, against a fresh process"),
("C21","interleavings, capacities, fragmentation, stalls, cuts and deaths of two parties of a simulated connection, against the tokens of the bytes that arrived"),
("C22","deliveries of long simulated streams and tokens, with simulated work and memory metered, against the beginning of the stream and shorter tokens"),
("C23","deliveries and call sequences of look-ahead and push-back, against a model that knows only the text and a place in it"),
("C24","calls made from inside readers, writers, visitors and handlers at arbitrary points, against results in fresh processes"),
("C25","histories of edits, calls and kept rules by interleaved callers, against fresh processes that make the same edits right after parsing, with the race detector under the simulated schedule"),
("C26","deliveries and histories of scanner settings changed between tokens, against a new scanner on the rest of the text"),
("C27","histories of repeated, failing and interrupted calls and rules of doubled size, with simulated work, memory and output metered, against earlier rounds and smaller rules"),
("C28","histories of calls by interleaved callers that keep all results, and scans set aside and taken up again, against what the results were and against uninterrupted scans, with the race detector under the simulated schedule"),
("C29","damage to the bytes on their way (changed, lost, added, cut off) and deliveries, against the places of the damage and the text with replacement characters"),
("C30","time zones, wall clocks, environments, clock jumps, suspensions, memory collections and stalls of any length, against the same call at one fixed place and time in a fresh process"),
("C31","stack limits that are exhausted by depth or by number of parts, deliveries and sequences of calls, against survival of the simulated process and the same rule of few parts"),
("C32","schedules, stalls and pauses over histories of completed, failing, interrupted and unfinished calls, against the windows in which calls are under way, results over simulated time and a count of what is left running"),
]
note=("Samples seeded executions of the real code (rewritten copy of /repo's working tree, every statement a scheduling point); "
 "a clean run is evidence within the reported seeds, not proof. Trusts the Go toolchain, the rewriter in sim/cmd/instr and the "
 "comparison code in sim/world; assumes the caller-side rules stated in the property (readers and writers obeying io contracts).")
na={
"C13":"Parse on a string is a pure function of the string: no schedule, clock, fault or history takes part; random inputs would be plain fuzzing. (Panics and hangs met in simulated runs still fail those runs.)",
"C14":"Operator grouping is a pure function of the rule text; nothing for a simulator to decide. (C06 does require the grouping to survive save and reload.)",
"C15":"Positions of parsed expressions are a pure function of the rule text.",
"C16":"Literal values are a pure function of the literal's spelling. (C06 does require them to survive save and reload.)",
"C17":"Acceptance of a condition is a pure function of condition and dictionary. (That it depends on nothing else is C08.)",
"C18":"Calendar validation is a pure function of the literal.",
"C19":"Variable handling is a pure function of the SET section.",
"C20":"Keyword recognition is a pure function of the spelling.",
}
m=dict(version=1,setup_cmd="./setup.sh",checks=[dict(property=p,quick_cmd=f"./check.sh {p} quick",thorough_cmd=f"./check.sh {p} thorough",
  evidence_file=f"evidence/{p}.json",technique=T+t,level="exploration",level_note=note) for p,t in checks],
  not_applicable=[dict(property=k,reason=v) for k,v in na.items()],
  notes="No hooks in /repo: the checks rewrite a scratch copy of its working tree. Replay a violation with ./replay.sh <file>. Findings: known-findings.txt.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
