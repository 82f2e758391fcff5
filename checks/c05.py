import os, vp
DATA = os.path.join(vp.REPO, "python/flame/test/data")
def run():
    c = vp.Check("C05", "exploration",
        rule="every lattice up to the length bound over 3 types and 3 names, every sequence of accepted and refused reconfigurations up to the depth; all lookup and iteration views compared with a plain list after the last operation; every ordered pair of element types of every simulation type, before and after every renaming; every length up to 70 and some up to 3000",
        assumptions=["lattices longer than the bound add no new kind of view"])
    b = vp.build("plain")
    c.shards(vp.harness("c05", "plain", b), args=["--data", DATA])
    c.finish(require={"type_pairs": 500, "evaluations": 20000, "accepted": 5000, "refused": 5000, "long_lattices": 400})
