import os, vp
DATA = os.path.join(vp.REPO, "python/flame/test/data")
def run():
    c = vp.Check("C10", "exploration",
        rule="every entry of every attribute of every kind of state written and everything else compared; clone and assign between all pairs of states; every sequence of clone, assign, write and propagate over two or three states up to the depth against a deep-copy model; derived quantities after every element type and variant; construction under three contents of fresh memory",
        assumptions=["next_elem and the direction of propagation are bookkeeping of the last propagation, not attributes that are copied"])
    b = vp.build("plain")
    exe = vp.harness("c10", "plain", b)
    c.shards(exe, args=["--data", DATA])
    c.finish(require={"evaluations": 10000, "attributes": 500, "particles": 1000, "memory_fills": 100})
