#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (run by hand after changes)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 "C01": ("exploration", "exhaustive enumeration of lattice programs up to a length over a token and statement alphabet, executed by the real parser and by an independent reference interpreter",
         "Exhaustive within the stated lengths and alphabets; longer programs only through the large-input family."),
 "C02": ("exploration", "exhaustive enumeration of byte strings and token strings up to a length through all four entry points, under AddressSanitizer with allocation accounting",
         "Exhaustive within the stated lengths and alphabets."),
 "C03": ("exploration", "exhaustive enumeration of configurations and programs up to a bound, print-parse-compare on the real code",
         "Exhaustive within the stated value alphabet and program length."),
 "C04": ("model_checking", "exhaustive operation-sequence exploration of the real class against a deep-copy reference model",
         "Every sequence up to the depth bound over the stated alphabet is executed on the real code; assumes behaviour does not depend on more handles, keys or longer histories."),
 "C05": ("exploration", "exhaustive enumeration of lattices and of reconfiguration sequences up to a depth on the real Machine, all views compared with a list model",
         "Every lattice and sequence within the stated bounds."),
 "C06": ("exploration", "exhaustive enumeration of machines, start positions, counts, directions, redirections and splits on the real propagation loop, traces compared with a reference loop",
         "Exhaustive within the stated machine sizes and counts."),
 "C07": ("exploration", "exhaustive exploration of propagation histories up to a depth on real machines, last result compared bitwise with a fresh machine and with caching disabled",
         "Every history within the depth over all element types, parameter variants and beams."),
 "C08": ("exploration", "exhaustive exploration of reconfiguration sequences over all element types and single-parameter variants, compared with machines built from scratch; refused operations under AddressSanitizer with allocation accounting",
         "Every sequence within the depth over the stated variants."),
 "C09": ("exploration", "exhaustive enumeration of element sequences, variants and beams, propagated forward, backward and forward again on the real code, compared with the recorded entrance states",
         "Every sequence within the stated lengths."),
 "C10": ("model_checking", "exhaustive exploration of clone, assign, write, propagate and discard sequences on real states against a value model of every attribute",
         "Every sequence up to the depth over the stated alphabet for every state type and 0 to 3 charge states."),
 "C11": ("exploration", "exhaustive enumeration of charge-state combinations and element sequences on the real code, aggregates recomputed independently after every element",
         "Every combination of the stated small domain and every sequence within the length."),
 "C12": ("exploration", "exhaustive enumeration of a parameter grid per element type times beams on the real code, every reported and applied map compared with an independent reference (matrix exponential of the equations of motion)",
         "Every grid point; RF cavities only reported-equals-applied, field-free drift limit and phase periodicity."),
 "C13": ("model_checking", "stateless model checking of the real code: all interleavings up to a preemption bound of pairs and triples of thread programs under a controlled scheduler (interposed locks, file accesses, atomics), outcomes compared with all sequential orders, with and without the thread sanitizer",
         "Quick: 2 preemptions for pairs and 1 for triples switching at locks, file accesses and callbacks, 1 for pairs switching at atomics under the thread sanitizer. Thorough: 4, 3 and 2."),
 "C14": ("fault_enumeration", "exhaustive exploration of fetch and replace histories up to a depth on the real caches, with a replacement injected before every single file access of a fetch (interposed stat and open)",
         "Every history within the depth; at most one replacement of a file per fetch."),
 "C15": ("exploration", "exhaustive exploration of recording, opening and closing histories up to a depth on the real writer and of all paths up to a depth for reader, writer and lattice language, contents read back through the plain HDF5 interface, under AddressSanitizer",
         "Every history and path within the stated depths."),
 "C16": ("exploration", "exhaustive enumeration of file texts up to a length and of every cut and spoilt cavity file on the real readers, against an independent reader, cavity part under AddressSanitizer",
         "Every text within the stated lengths and alphabets."),
 "C17": ("exploration", "exhaustive exploration of all Python API calls over a fixed alphabet of arguments and of all pairs of calls, on the real extension module under AddressSanitizer, and of every call repeated under memory and reference-count accounting",
         "Every call, argument and pair of the stated alphabets."),
 "C18": ("exploration", "exhaustive enumeration of small lattices through every construction route of the real Python API, against a model of scopes and against each other, and of query sequences up to a depth",
         "Every lattice, route and query sequence of the stated families."),
 "C19": ("exploration", "exhaustive enumeration of invocations of the real command line tool (lattices, limits, selections, formats, definitions, invalid values, output failures), output compared byte by byte with what the library computes in the checking process",
         "Every combination of the stated families; the tool itself runs under AddressSanitizer."),
 "C20": ("exploration", "exhaustive fault injection: for each operation of the scenario list every memory allocation it makes is failed (alone, and with all later ones) in the real library under AddressSanitizer; afterwards all objects are compared with undisturbed ones and the operation is repeated",
         "Every allocation by operator new of every listed operation; parsing of lattices and files is outside."),
 "C21": ("exploration", "exhaustive enumeration of lattices, name manglers and template sets through the real generator; the generated substitutions are expanded with the copied templates and the resulting database compared with a model of one entry per element and template",
         "Every combination of the stated families; macro expansion of the control system is modelled, links are resolved in the real Machine."),
 "C22": ("model_checking", "stateless model checking of the real device support under a controlled scheduler (all schedules up to a preemption bound, plain and ThreadSanitizer builds), every outcome compared with an explicit-state model explored completely; exhaustive enumeration of links, conversions, array sizes, settings and command sequences",
         "EPICS is a stand-in with the documented meaning of the calls used; preemption bound 1 for up to three operations, 0 for longer ones (quick)."),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
     "notes": "Checks build /repo's working tree into /verif/out/build (ignored by git), named by content hash; no hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        lv, t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lv, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
