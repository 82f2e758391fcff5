import os, vp
DATA = os.path.join(vp.REPO, "python/flame/test/data")
def run():
    c = vp.Check("C07", "exploration",
        rule="every sequence of propagations up to the depth over all element types, parameter variants, beams (differing in one respect each), directions and ranges, on fresh machines; the last result is compared with a fresh machine, with caching disabled, and under three contents of fresh memory",
        assumptions=["histories longer than the depth bound are not explored", "backward through an RF cavity needs its forward pass by design and is used as history only"])
    b = vp.build("plain")
    exe = vp.harness("c07", "plain", b)
    c.shards(exe, args=["--data", DATA])
    c.finish(require={"evaluations": 20000, "errors_compared": 100, "memory_fills": 3000})
