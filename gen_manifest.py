#!/usr/bin/env python3
# writes MANIFEST.json
import json
T="deterministic simulation with fault injection (seeded histories and fault plans, reference-model oracle)"
note={
"C01":"Sampled: about 400k seeded histories per quick run over nine index combinations; after every operation every index is traversed both ways and compared with a reference model. Trusts the simulator's model, element and allocator stubs.",
"C02":"Sampled histories; the model predicts every veto exactly and the returned culprit is checked.",
"C03":"Sampled fault points: an exception or allocation failure is planned at a seeded user call of each operation; all participants must be unchanged afterwards, documented non-throwing operations must not throw.",
"C04":"Sampled fault points inside multi-element operations; conservation of elements, order of untouched elements and usability checked afterwards.",
"C05":"Sampled modifiers, rollbacks and faults; the verdict (updated, restored, erased) is predicted from the recorded fault and compared.",
"C06":"Every block and element is accounted for by the simulated heap after every operation and at teardown; part of the runs also under AddressSanitizer.",
"C07":"Long-held iterators of every index are checked after every operation (identity, neighbours, equality) and addresses of all elements compared with the model.",
"C08":"Order, stability and lookups compared with a linear scan; a logarithmic bound on comparisons checks the balance.",
"C09":"Ranks, nth and rank ranges compared with positions in the traversal.",
"C10":"Grouping, bucket placement, load factor and lookups compared with a linear scan, with degenerate hash functions.",
"C11":"List operations compared with a sequence model including list semantics of sort, merge and splice.",
"C12":"Positional operations compared with a sequence model; capacity and scratch-memory denial varied.",
"C13":"Object identity tracked through extraction, node handles, merge and splice, with vetoes and failures.",
"C14":"Copies, moves, assignments and swaps with all allocator propagation policies; functors, allocators, elements and object identity checked.",
"C15":"Round trips of reached states through text, binary and XML archives, with iterators, from sampled histories.",
"C16":"Short writes, throwing devices, truncation, element and allocation failures at sampled points of saving and loading, then recovery.",
"C17":"Safe-mode builds: valid uses after sampled histories and faults must be accepted, every iterator-taking operation is given singular, stale, foreign and end iterators, reversed ranges and empty containers, and must report the right code before any change.",
"C18":"Threads (readers of a shared container, unrestricted users of private ones) as fibers on one OS thread, preempted at instrumented memory accesses by a seeded scheduler; happens-before race detection, simulated mutexes with deadlock detection, results compared with each thread running alone, iterators checked afterwards. Sampled schedules; memory is sequentially consistent, weak orderings are covered only through the race detector.",
"C21":"Comparisons of containers reached by sampled histories against lexicographic comparison of the model sequences; throwing element comparisons included.",
}
note["C23"]="Sampled histories in builds with invariant checking (some with safe mode too): no invariant check may fail while faults and vetoes are injected, every modifying call must run one, and elements put out of place behind the container's back must be noticed by the next call. Only displacements that the documented checks can see for any tree shape are made (the extreme element moved to the other extreme, a key moved to another bucket)."
import os
ids=[i for i in note if i!="C18" or os.path.exists("sim/mt.cpp")]
m={"version":1,"setup_cmd":"sh -c 'g++ --version >/dev/null && clang++ --version >/dev/null && python3 gen_properties.py'",
"checks":[{"property":i,"quick_cmd":"VERIF_TIER=quick python3 check.py "+i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+i,"technique":T if i!="C18" else "deterministic simulation (fibers under a seeded scheduler preempting at memory accesses, happens-before race detection)","level":"exploration","level_note":note[i]} for i in ids],
"not_applicable":[
{"property":"C19","reason":"A pure function of key values and component functors: no schedule, fault, history or failure point for it to depend on. (Composite keys are used as index keys in two simulated configurations, so their use inside containers is covered by C08 and C10.)"},
{"property":"C20","reason":"A pure function of the extractor's type and argument, decided at instantiation: nothing for a simulator to schedule or to fail."},
{"property":"C22","reason":"A property of programs at compile time; no execution to simulate."}],
"notes":"check.py builds the simulator from /repo's working tree, runs fixed numbers of seeded runs, gates every violation on exact replay in fresh processes, minimises it, and rewrites evidence/<id>.json. build/ is a content-addressed cache of compiled simulators."}
if "C18" not in ids: m["not_applicable"].append({"property":"C18","reason":"in progress"})
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
