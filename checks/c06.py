import os, vp
DATA = os.path.join(vp.REPO, "python/flame/test/data")
def run():
    c = vp.Check("C06", "exploration",
        rule="own recording simulation type: every machine up to 4 elements x start x count (including INT_MIN and INT_MAX) x observer set x redirection pattern x continuation, against a list model; real types: every ordered triple of elements, every split forward and backward, every observer",
        assumptions=["machines of more than four elements (up to 1025) without redirections"])
    b = vp.build("plain")
    c.shards(vp.harness("c06", "plain", b), args=["--data", DATA])
    b = vp.build("asan")
    c.shards(vp.harness("c06", "asan", b), args=["--data", DATA, "--abstract", "1"])
    c.finish(require={"evaluations": 20000, "splits": 1000, "visits": 10000, "backward": 5000, "long": 5000})
