import os, vp
DATA = os.path.join(vp.REPO, "python/flame/test/data")
def run():
    c = vp.Check("C08", "exploration",
        rule="every sequence of accepted reconfigurations (one parameter or combination changed each), refused ones and propagations up to the depth, for every element type of the three simulation types; then compared with a rebuilt machine. Every refused construction and reconfiguration is checked for leaks under the address sanitizer",
        assumptions=["histories longer than the depth bound are not explored"])
    b = vp.build("plain")
    exe = vp.harness("c08", "plain", b)
    c.shards(exe, args=["--data", DATA])
    b = vp.build("asan")
    exe = vp.harness("c08", "asan", b)
    c.shards(exe, args=["--data", DATA, "--leak", "1"])
    c.finish(require={"evaluations": 20000, "refused": 1000, "constructions": 100})
