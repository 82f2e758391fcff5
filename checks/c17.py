import os, vp
def run():
    c = vp.Check("C17", "exploration",
        rule="every call of the Python API over the alphabet of arguments of every kind (numbers at the limits, strings, buffers, containers of every depth, arrays of every rank, objects whose conversions raise, misbehave or call back into the machine or state) on machines and states of every type, also uninitialized, foreign and used ones; every attribute of every state set to every argument and deleted; all pairs of calls over a reduced alphabet; garbage collection, weak reference, logging, thread and subclass situations; on a build of the module under AddressSanitizer. A second pass repeats every call and watches allocated memory and reference counts",
        assumptions=["CPython 3.12 and numpy themselves"])
    data = os.path.join(vp.REPO, "python/flame/test/data")
    b = vp.build("asan", ("_internal", "pyfiles"))
    c.shards(vp.pyharness("c17", "asan", b), args=["--data", data])
    b = vp.build("plain", ("_internal", "pyfiles"))
    c.shards(vp.pyharness("c17", "plain", b, tag="leak", env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0"}), args=["--data", data, "--mode", "leak"])
    c.cov["evaluations"] = sum(c.cov.get(k, 0) for k in ("calls", "sets", "deletes", "special", "pairs"))
    c.cov["distinct_nontrivial"] = c.cov.get("raised", 0)
    c.finish(require={"calls": 10000, "sets": 5000, "pairs": 10000, "raised": 10000, "special": 100})
