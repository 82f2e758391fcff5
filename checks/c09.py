import os, vp
DATA = os.path.join(vp.REPO, "python/flame/test/data")
def run():
    c = vp.Check("C09", "exploration",
        rule="every sequence of elements up to the length over all element types and parameter variants of all simulation types, times beams with different charge states, phases and references: forward, backward element by element and in one call, and forward again; the state recorded at the entrance of every element must be restored, sextupoles, strippers, emittance growth and singular matrices must be refused without effect",
        assumptions=["agreement up to 1e-7 of the largest entry of a row (cavities accumulate rounding)", "a source on the way back leaves the state as it is"])
    b = vp.build("plain")
    exe = vp.harness("c09", "plain", b)
    c.shards(exe, args=["--data", DATA])
    c.finish(require={"evaluations": 10000, "refusals": 500})
