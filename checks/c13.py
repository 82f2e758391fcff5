import os, vp
def run():
    c = vp.Check("C13", "model_checking",
        rule="every pair of 19 thread programs which touch process-wide state (create, use, reconfigure, destroy machines of several types; register types, discard registrations; parse; log, change the logger; copy, change and read configurations sharing storage; load, replace and forget the same data files), two threads each with one to four steps, and every triple of the short ones: all interleavings up to the preemption bound, switching at every mutex acquisition, file access, callback and step, and in a second pass at every atomic access; each execution on the real code in a process of its own under a controlled scheduler, on a plain build and on one with the thread sanitizer, from which the scheduler's hand-over is hidden. Every outcome (results and messages of every thread, and what the process does afterwards) must be one of the outcomes of the steps executed one after the other in some order; no data race, deadlock, crash or hang. states: distinct outcomes; transitions: scheduling decisions",
        assumptions=["sequentially consistent memory apart from what the thread sanitizer's happens-before analysis covers", "HDF5 files are not read (the installed HDF5 library is not thread safe)", "Machine::log_detail is not changed while threads run"])
    q = c.tier == "quick"
    data = os.path.join(vp.REPO, "python/flame/test/data")
    p = vp.build("plain"); t = vp.build("tsan")
    hp = vp.harness("c13", "plain", p, extra=["-rdynamic"]); ht = vp.harness("c13", "tsan", t, extra=["-rdynamic"])
    def go(exe, mode, bound, bound3):
        c.shards(exe, args=["--data", data, "--mode", mode, "--bound", str(bound), "--bound3", str(bound3)],
                 env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:log_path=tsan:die_after_fork=0:report_signal_unsafe=0:report_thread_leaks=0"})
    if q:
        go(hp, "locks", 2, 1)
        go(ht, "mixed", 1, -1) # switching at atomic accesses too, except for the long programs
    else:
        go(hp, "locks", 4, 3)
        go(ht, "locks", 2, 1)
        go(ht, "mixed", 2, -1)
        go(ht, "atomics", 1, 1)
    c.cov["traces_validated_against_impl"] = c.cov.get("executions", 0)
    c.finish(require={"schedules": 20000, "scenarios": 600, "scenarios_with_several_outcomes": 80, "sequential_orders": 1000})
