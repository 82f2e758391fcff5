#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the jsonl is what is committed and read)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A lattice program means what the documented language says",
 "Parsing a lattice text yields exactly the values, element list and selected line that the documented language assigns to it: usual operator precedence and left associativity, variables visible only after definition, each variable, element and line defined once, lines built by nesting, repetition (n*x) and reversal (-x), USE or else the last LINE selecting the expanded line, globals visible from every element and overridden by its own properties. A text the language gives no meaning to is rejected with an error, which names the line on which it was detected when it belongs to one statement.",
 ["programs", "inputs"], "all lattice programs up to the size bound over a small alphabet of names, literals, operators, functions and statements",
 "The tests parse about ten hand-written lattices with at most one operator of each kind; they never compose operators, reversal, repetition, redefinition and scope with one another.",
 ["src/glps.l", "src/glps.y", "src/glps_parser.cpp", "src/glps_ops.cpp", "src/config.cpp"],
 [("grammar and precedence declarations", "src/glps.y"), ("typed operation table", "src/glps_ops.cpp"), ("definition maps and line expansion", "src/glps_parser.cpp")],
 ["GLPSParser::parse_byte", "Config", "flame.GLPSParser.parse"])

prop("C02", "Every input to the lattice parser ends in a result or an error, cleanly",
 "For every byte sequence, whichever way it is handed to the parser (file name, open file, byte buffer, string), parsing terminates and either returns a configuration or raises an error, without reading or freeing memory it does not own, leaking memory, or leaving the parser, the process or any later parse different from a fresh one. The four entry points agree on every input, and an error message names the right line.",
 ["inputs", "histories"], "all token strings up to the bound (correct and incorrect), all byte strings up to the bound over the lexer's character classes, and pairs of consecutive parses",
 "The tests try about twenty malformed inputs through one entry point and cannot see leaks, allocator misuse or contamination of a later parse.",
 ["src/glps.l", "src/glps.y", "src/glps_parser.cpp", "src/glps_ops.cpp", "src/config.cpp"],
 [("%destructor clauses and cleanup functions", "src/glps.y, src/glps_parser.cpp"), ("re-entrant scanner set up per parse", "src/glps_parser.cpp"), ("error recording with line", "src/glps_parser.cpp")],
 ["GLPSParser::parse_file", "GLPSParser::parse_byte"])

prop("C03", "Printing a configuration and parsing the text gives it back",
 "For every configuration the lattice language can express, printing it as a lattice and parsing the printed text yields the same elements in the same order with the same properties and the same global values, numbers exactly when the output stream has 17 digits (as the Python printer sets) and otherwise to the stream's precision; printing that again yields the same text.",
 ["inputs", "configurations"], "all configurations up to the bound over a value alphabet including signed, tiny, huge and many-digit numbers, vectors, strings, repeated elements and globals",
 "The two recursion tests print two fixed lattices whose numbers have few digits.",
 ["src/config.cpp", "src/glps.l", "src/glps_parser.cpp"],
 [("lattice printer", "src/config.cpp GLPSPrint"), ("number and string literals in the scanner", "src/glps.l")],
 ["GLPSPrint", "flame.GLPSPrinter"])

prop("C04", "Configurations behave as values with lexical scoping",
 "A configuration behaves as an independent value however copies, assignments, swaps and scopes were made from it: changing one never changes what any other holds or sees. A lookup finds the innermost definition at the time the scope was opened, with exact type checking, and flattening or printing a configuration changes nothing that any other handle can observe.",
 ["histories"], "all sequences of operations up to the depth bound on several handles which may share storage",
 "The existing test sets one value and reads it back on a single handle; sharing between handles is never exercised.",
 ["src/flame/config.h", "src/config.cpp"],
 [("copy-on-write before each mutation", "src/config.cpp Config::_cow"), ("scope push and flatten", "src/config.cpp")],
 ["Config get/set/swap/iterate/show"],
 [("shared value maps", "copy-on-write storage of a handle and of its enclosing scope", "src/flame/config.h")])

prop("C05", "Index, name, type and iteration views of a machine always agree",
 "At every moment element i of a machine reports index i, its configured name and type, and looking elements up by name (including the n-th of that name), or by type returns exactly the elements that carry that name or type, each once, in beam-line order, and all together every element exactly once. This holds after construction from any lattice and after any sequence of reconfigurations, successful or refused.",
 ["histories", "configurations"], "all element sequences up to the length bound over colliding names and types, and all reconfigure sequences up to the depth bound",
 "Tests look at element names of one or two fixed lattices and never look anything up after a reconfiguration.",
 ["src/flame/base.h", "src/base.cpp", "python/flame/modmachine.cpp"],
 [("ordered lookup maps keyed by (name,index)", "src/flame/base.h"), ("index kept on reconfigure", "src/flame/base.h element_builder_impl::rebuild")],
 ["Machine::find", "Machine::equal_range", "Machine::equal_range_type", "flame.Machine.find"])

prop("C06", "Propagation visits exactly the requested elements, once, in beam order",
 "Propagating from a start position for n elements passes the state through exactly the elements start, start+1, ... (or, for negative n, start, start-1, ...), n of them or up to the end of the machine, applying each once; every observer sees its element's output state exactly once per visit; the position advances by exactly the lengths of the elements passed; redirections of the next element are followed. Splitting a propagation into consecutive pieces gives the same final state as doing it at once.",
 ["inputs", "histories"], "all (start, count) pairs, observer subsets and split points for all machines up to the length bound, including counts beyond the ends and redirecting elements",
 "Tests propagate through whole lattices and observe all elements of one lattice; boundaries, negative counts, partial ranges and splits are sampled once or not at all.",
 ["src/base.cpp", "src/linear.cpp", "src/moment.cpp", "python/flame/modmachine.cpp"],
 [("propagation loop", "src/base.cpp Machine::propagate"), ("next_elem/retreat protocol", "src/base.cpp, src/flame/base.h")],
 ["Machine::propagate", "Observer::view", "flame.Machine.propagate(observe=)"])

prop("C07", "Results depend on the input state and configuration, never on history",
 "The output of a propagation is a function of the machine's current configuration and the input state alone: whatever was propagated before through the same machine (other beams, other directions, partial ranges, propagations that failed), the result equals that of a freshly built machine with the same configuration, and equals the result with transfer-matrix caching disabled. (A backward pass through an RF cavity, which by design undoes that cavity's preceding forward pass, is excepted as the last step.) The same holds for elements of other machines living in the same process.",
 ["histories"], "all sequences of propagations and reconfigurations up to the depth bound over several beams, directions and ranges, for machines covering every element type",
 "Tests propagate each machine once or twice with the same input, which can never show a stale cache.",
 ["src/moment.cpp", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/linear.cpp", "src/flame/moment.h"],
 [("cached transfer matrices guarded by a comparison of input particles", "src/moment.cpp MomentElementBase::check_cache, advance"), ("own caches of bends and cavities", "src/moment.cpp ElementSBend::advance, src/rf_cavity.cpp ElementRFCavity::advance")],
 ["Machine::propagate", "all state attributes"],
 [("last_ref_in/last_real_in/last_*_out", "inputs and outputs for which the cached matrices are valid", "src/flame/moment.h")])

prop("C08", "Reconfiguring an element equals rebuilding the machine; refusal changes nothing",
 "After reconfiguring an element, the machine produces the same results and reports the same element configuration as a machine built from scratch with that configuration, for every element type, every parameter and every order of reconfigurations; observers stay attached. A construction or reconfiguration that is refused raises an error, leaks nothing and leaves the machine and its results exactly as they were.",
 ["histories", "configurations"], "every element type and parameter of every sim_type, all sequences of accepted and refused reconfigurations up to the depth bound, interleaved with propagations",
 "The tests change one length of one drift and a few cavity parameters, never a refused change, and never compare with a rebuilt machine.",
 ["src/base.cpp", "src/flame/base.h", "src/moment.cpp", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/linear.cpp", "src/linear.h", "python/flame/modmachine.cpp"],
 [("build a new element, then assign() into the old one", "src/flame/base.h rebuild"), ("per-class assign()", "src/moment.cpp, src/rf_cavity.cpp, src/chg_stripper.cpp, src/linear.cpp")],
 ["Machine::reconfigure", "ElementVoid::conf", "flame.Machine.reconfigure"])

prop("C09", "Backward propagation undoes forward propagation or is refused",
 "For elements that support it, propagating a state backward through a range of elements after propagating it forward through the same range restores the state (reference and real particles, phases, centroids, envelopes, position) up to rounding, in every order of elements and for every mixture of charge states (an RF cavity goes back only for the beam that came through it last; a source passed backward leaves the state as it is); where reversal is not defined, as for sextupoles, strippers, emittance growth and matrices without inverse, an error is raised and no result is produced.",
 ["histories", "configurations"], "all element sequences up to the length bound over all element types, all sub-ranges, one and several charge states",
 "One test checks one lattice backwards over its whole length.",
 ["src/moment.cpp", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/base.cpp", "src/moment_sup.cpp"],
 [("inverse transfer matrices and negated phase advance", "src/moment.cpp"), ("cavity retreat path", "src/rf_cavity.cpp")],
 ["Machine::propagate(max<0)"])

prop("C10", "States are complete, independent copies with faithful named attributes",
 "A cloned or assigned state carries every attribute of the original and from then on is independent of it; each named attribute reads and writes exactly the quantity it names, with the documented shape and consistent with the direct accessors, and writing one attribute changes no unrelated one; printing a state shows its contents and changes nothing. Derived particle quantities always agree with the energies after a propagation.",
 ["histories", "inputs"], "all sequences of clone, assign, attribute writes, propagations and discards up to the depth bound, for every state type and 0 to 3 charge states",
 "Tests clone one state and compare its position; they write four attributes of one state type.",
 ["src/moment.cpp", "src/linear.cpp", "src/flame/moment.h", "src/flame/state/vector.h", "src/flame/state/matrix.h", "src/base.cpp", "python/flame/modstate.cpp"],
 [("attribute table by index", "src/moment.cpp MomentState::getArray"), ("clone constructor and assign", "src/moment.cpp, src/linear.cpp")],
 ["StateBase::clone", "StateBase::assign", "StateBase::getArray", "flame.State attributes"])

prop("C11", "Beam aggregates are the charge-weighted moments of the charge states",
 "Whenever an element has been passed, the overall centroid, envelope matrix and rms sizes of a moment state are the charge-weighted mean, the charge-weighted covariance (including centroid spread) and the square roots of its diagonal over all charge states; all per-charge-state arrays have the same length, envelopes stay symmetric and positive semidefinite, and charge states evolve independently of which others are present. Initialization selects 0, 1 or all charge states as documented, and a stripper redistributes as configured.",
 ["inputs", "histories", "configurations"], "all sequences of elements up to the bound for 0 to 3 charge states over all weight and centroid combinations of a small domain",
 "The aggregate formula is checked once, directly after a source; never after elements which change the number, energies or weights of charge states.",
 ["src/moment.cpp", "src/chg_stripper.cpp", "src/rf_cavity.cpp", "src/flame/moment.h"],
 [("aggregate computation", "src/moment.cpp MomentState::calc_rms"), ("charge redistribution", "src/chg_stripper.cpp")],
 ["moment0_env", "moment1_env", "moment0_rms", "IonQ", "IonZ", "IonEk"])

prop("C12", "Each element applies the map the physics defines for its parameters",
 "For every parameter setting, an element moves centroids, envelopes, phases and energies by the linear map defined for its type (drift, quadrupole, solenoid, bends, sextupole, trim, thin and generic matrices, with misalignments and fringe options): the matrix it reports is the matrix it applied, it agrees with an independently written one, it is symplectic where the type demands it, cutting an element in two equal pieces changes nothing, and zero strength gives a drift; a flag parameter given as a number and as text means the same, and a value it does not allow is refused. Vector and matrix simulations of one lattice agree with each other.",
 ["inputs", "configurations"], "the full grid of parameter values (signs, zero, both field conventions, misalignments, charge states) for every element type in every sim_type",
 "Tests compare a handful of settings per element with stored numbers; the sign, zero and misalignment combinations are not covered.",
 ["src/moment.cpp", "src/moment_sup.cpp", "src/linear.cpp", "src/flame/moment_sup.h"],
 [("matrix builders", "src/moment_sup.cpp"), ("misalignment wrapping", "src/moment.cpp"), ("linear element constructors", "src/linear.cpp")],
 ["transmat", "moment0", "moment1", "state"])

prop("C13", "Concurrent use from several threads is race-free and equals sequential use",
 "Different threads may at the same time create, use, reconfigure and destroy different machines, register types, parse lattices, load the same data files, log, and change the logger: under every interleaving there is no data race, deadlock or crash, and each thread obtains exactly the result it would obtain running alone.",
 ["schedules"], "all interleavings, up to the preemption bound, of two or three threads over pairs of operations which touch process-wide state",
 "All tests are single threaded.",
 ["src/base.cpp", "src/util.cpp", "src/moment.cpp", "src/rf_cavity.cpp", "src/flame/util.h", "src/glps_parser.cpp"],
 [("registry and logger mutex", "src/base.cpp info_mutex"), ("table cache mutex", "src/util.cpp numeric_table_cache"), ("global cavity and curve maps", "src/rf_cavity.cpp CavConfMap, src/moment.cpp CurveMap")],
 ["Machine::Machine", "Machine::propagate", "Machine::set_logger", "numeric_table_cache::fetch"],
 [("process-wide maps", "registry, table cache, cavity and curve data", "src/base.cpp, src/util.cpp, src/rf_cavity.cpp, src/moment.cpp")])

prop("C14", "Data-file caching never serves superseded or damaged contents",
 "Fetching a data file by name (numeric tables, magnet curves, generic cavity data) yields the contents the file had at some moment during the call; as soon as the file holds contents whose modification time (in seconds) differs from that of the contents last fetched, the next fetch yields them, whatever the order of times and however a replacement fell between the steps of an earlier fetch. A missing or malformed file raises an error, is not remembered, and does not disturb tables already handed out or later fetches.",
 ["histories", "schedules", "fault_sequences"], "all histories up to the depth bound of fetch, replace (newer, older and equal times, good, malformed, missing contents) on two files, and all placements of a replacement between the file accesses of a fetch",
 "No test touches the cache; unit tests only parse in-memory tables.",
 ["src/util.cpp", "src/flame/util.h", "src/rf_cavity.cpp", "src/moment_sup.cpp"],
 [("modification time comparison", "src/util.cpp numeric_table_cache::fetch"), ("parsed data files", "src/moment_sup.cpp ParseDataFile")],
 ["numeric_table_cache::fetch", "ElementRFCavity", "GetCurveData"])

prop("C15", "HDF5 output holds exactly the states that were recorded",
 "For every state type, number of charge states and sequence of recorded states, the output file holds for each attribute one record per recorded state, in order, equal to the attribute's values at recording time, also after closing and reopening the writer, and the string attributes as set. Reading a dataset or matrix back by a file/group path finds the file and group the path denotes, wherever in the path the file ends, and reports an error when there is none.",
 ["histories", "inputs"], "all record sequences up to the bound over state types and charge-state counts, and all path splits up to the component bound",
 "No test writes or reads HDF5 output (the one HDF5 test is skipped).",
 ["src/h5writer.cpp", "src/h5loader.cpp", "src/flame/h5writer.h", "src/flame/h5loader.h", "src/glps_ops.cpp"],
 [("extendable datasets per attribute", "src/h5writer.cpp"), ("path splitting", "src/h5loader.cpp, src/h5writer.cpp, src/glps_ops.cpp")],
 ["H5StateWriter", "H5Loader", "h5file()"])

prop("C16", "Numeric data files are read exactly or rejected",
 "Reading a numeric table gives the header's column names in order and every number of every data line exactly, independent of blank lines, comments, spacing, line endings and whether the last line is terminated; lines of differing length or with anything that is not a number are rejected with an error. A table object reused for another file holds only the second file's contents, and a refused file leaves it as it was. RF cavity data with incomplete lines, too few values or unknown parts is refused in the same way, never used with made-up values.",
 ["inputs"], "all files up to the line and token bounds over an alphabet of numbers, names, junk, blanks and line endings; cavity files cut or spoilt at every word",
 "Five tests parse one two-column table each.",
 ["src/util.cpp", "src/flame/util.h", "src/rf_cavity.cpp"],
 [("line reader", "src/util.cpp numeric_table::read")],
 ["numeric_table::read", "numeric_table_cache::fetch"])

prop("C17", "No use of the Python API can crash or corrupt the interpreter",
 "Every call of the Python API, with arguments of any type and value, in any order and on any object the API can produce (also uninitialized, foreign or already used ones), returns a result or raises an ordinary exception; it never crashes, hangs, corrupts memory or leaks references. A setter or constructor that raises leaves the object unchanged, and after any call that raises machine and state remain usable.",
 ["inputs", "histories"], "all calls over the argument alphabet for every entry point, and all pairs of such calls up to the bound",
 "Tests pass valid arguments, with one invalid call.",
 ["python/flame/modmachine.cpp", "python/flame/modstate.cpp", "python/flame/modconfig.cpp", "python/flame/modmain.cpp", "python/flame/pyflame.h"],
 [("argument parsing and exception translation", "python/flame/modmachine.cpp, modstate.cpp, modconfig.cpp"), ("reference ownership helper", "python/flame/pyflame.h PyRef")],
 ["flame.Machine", "flame.State", "flame.GLPSParser", "flame.GLPSPrinter"])

prop("C18", "Python data and lattice text describe the same machine",
 "Building a machine from a lattice text, from the parsed list of pairs, from an equivalent dictionary, or from printed text gives the same element list, the same configuration reports and the same simulation results; elements see every global of the configuration however its keys are ordered; values come back from the configuration as they were given (numbers as floats, arrays flattened to one dimension, strings unchanged), extra definitions act as if written in front of the text, relative file names are looked up next to a named file, in the given path or else in the working directory, and asking for a configuration changes nothing.",
 ["inputs", "configurations"], "all small lattices up to the bound over value types and scopes, through every construction route",
 "Tests build each machine one way only.",
 ["python/flame/modconfig.cpp", "python/flame/modmachine.cpp", "python/flame/__init__.py"],
 [("conversion between dictionaries and configurations", "python/flame/modconfig.cpp"), ("conf() flattening", "python/flame/modmachine.cpp")],
 ["flame.Machine.conf", "flame.GLPSParser.parse", "flame.GLPSPrinter"])

prop("C19", "The command line tool reports exactly what the library computes",
 "For every lattice, definition, element limit and selection of elements, the command line tool prints or writes exactly one record per selected element passed, in beam order, with the values the library computes for the same inputs; definitions on the command line act as if written in front of the lattice; and every invalid invocation, lattice or value, and every output that can't be written, ends with a message and a nonzero exit status, never a crash.",
 ["inputs", "configurations"], "all combinations up to the bound of lattices, -D definitions, -M limits, -A/-T/-N/-L selections and output formats",
 "No test runs the tool.",
 ["tools/cli.cpp", "src/base.cpp"],
 [("option handling and observer selection", "tools/cli.cpp")],
 ["run_flame exit status, stdout and output files"])

prop("C20", "Running out of memory, in the core or in Python, is reported and loses nothing",
 "If any single memory allocation (or it and all later ones) fails during a configuration change, machine construction, state allocation or copying, element lookup, propagation or reconfiguration, the operation raises an exception to its caller without crashing or leaking, and objects that existed before remain usable: a configuration, state or machine that the operation was not meant to change behaves as before, a machine whose reconfiguration failed has consistent lookups and computes with either the old or the new settings, later propagations through the machine give the normal results, and so does the operation when it is repeated with memory available. Likewise, if any allocation of the Python interpreter fails during a call of the Python API, the call raises an exception or gives its normal result, never a different one, without crashing or leaking, and later calls work normally. (Allocation failures of the C++ side while parsing lattice text are not part of this property.)",
 ["fault_sequences"], "every allocation made by each operation of the scenario list, for every element type and parameter variant, failed alone and with all later ones; every interpreter allocation of every Python API call likewise",
 "No test injects an allocation failure.",
 ["src/config.cpp", "src/base.cpp", "src/moment.cpp", "src/rf_cavity.cpp", "src/linear.cpp", "src/flame/rf_cavity.h", "python/flame"],
 [("exception-safe construction", "src/base.cpp Machine::Machine"), ("caches after a failed computation", "src/moment.cpp MomentElementBase::advance"), ("reconfiguration", "src/base.cpp Machine::reconfigure, assign() of the elements")],
 ["exceptions at the API boundary"])

prop("C21", "The IOC database generator names every record uniquely and correctly",
 "For every lattice and every way of making record name prefixes from elements, the generated control-system database contains one entry per element and applicable template, with a prefix made from the element and unique also when element names repeat or prefixes collide, so that no record is defined twice; each entry's link names the very element instance it was generated for and each device record an existing device type and parameter; elements of types without a template are left out with one warning per type; the input, templates and start script (lattice path, number of markers) are written completely, a lattice with no usable element is refused, and generating again, also over older output or in another process, gives the same files.",
 ["inputs", "configurations"], "all lattices up to the length bound over repeated and colliding names and all element types",
 "No test runs the generator.",
 ["python/flame/ioc.py"],
 [("record generation", "python/flame/ioc.py")],
 ["generated database text"])

prop("C22", "The virtual accelerator's records follow the simulation",
 "Whatever clients, monitors, the simulation thread and shutdown do and however they interleave: a run command is followed by a complete simulation with every setting written before it, and its completion is announced; every reading and orbit comes from one completed simulation with one set of settings, or carries an INVALID alarm (before the first simulation, after one that failed, for an index outside the parameter); a setting reads back as it was written and one the model refuses is reported and leaves the model as it was; the configured conversions are applied both ways; a record link leads to exactly the named simulation, element instance and parameter, and one which leads nowhere is reported and inert; arrays are never written beyond their size; shell commands do what they say or report the failure; shutdown completes; there is no data race, deadlock or crash.",
 ["schedules", "histories", "inputs"], "all schedules of four threads up to the preemption bound, all links of the families, all command and setting sequences up to the depth",
 "No test builds the virtual accelerator; races and lost run commands need particular interleavings.",
 ["vaccel/flame.cpp", "vaccel/flamedev.cpp", "vaccel/flameset.cpp", "vaccel/flamemeasure.cpp", "vaccel/flameorbit.cpp", "vaccel/flameelem.cpp"],
 [("simulation thread and commands", "vaccel/flame.cpp"), ("device support", "vaccel/flamedev.cpp")],
 ["record fields", "shell messages"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as F:
    for p in P: F.write(json.dumps(p) + "\n")
print(len(P), "properties")
