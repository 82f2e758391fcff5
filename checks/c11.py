import os, vp
DATA = os.path.join(vp.REPO, "python/flame/test/data")
def run():
    c = vp.Check("C11", "exploration",
        rule="every element sequence up to the length over all element types and variants times multi-charge-state beams: aggregates recomputed in extended precision behind every element (also as an observer sees them), envelopes symmetric and positive semidefinite; every selection and order of charge states against each alone; every combination of initialization parameters; the stripper against an independent implementation for every pair of parameters",
        assumptions=["charge states of a stripper are mixed by design"])
    b = vp.build("plain")
    exe = vp.harness("c11", "plain", b)
    c.shards(exe, args=["--data", DATA])
    c.finish(require={"evaluations": 20000, "inits": 5000, "strippers": 1000, "transitions": 50000})
