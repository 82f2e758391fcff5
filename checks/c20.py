import os, vp
DATA = os.path.join(vp.REPO, "python/flame/test/data")
def run():
    c = vp.Check("C20", "exploration",
        rule="for every operation of the scenario list (configuration operations; construction, state allocation, copying, lookup, propagation and reconfiguration for every element type and parameter variant of the three simulation types): every memory allocation it makes fails, once alone and once with all later ones; the failure must be reported, everything else unchanged, nothing lost, and the repeated operation give the normal result; the same for every allocation the Python interpreter makes during every call of the Python API (quick: leaks for one simulation type only)",
        assumptions=["allocations by operator new (all of the library's own, outside the lattice scanner)", "lattice parsing is not part of the C++ operations; from Python it is, but only for the interpreter's allocations"])
    b = vp.build("asan")
    c.shards(vp.harness("c20", "asan", b), args=["--data", DATA])
    b = vp.build("asan", ("_internal", "pyfiles"))
    vp.pymodule("vpoom", b)
    c.shards(vp.pyharness("c20py", "asan", b))
    b = vp.build("plain", ("_internal", "pyfiles"))
    vp.pymodule("vpoom", b)
    c.shards(vp.pyharness("c20py", "plain", b, tag="leak", env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0"}), args=["--mode", "leak"])
    c.finish(require={"pyfailures": 5000, "pyscenarios": 300, "evaluations": 5000, "reported": 5000, "scenarios": 100})
