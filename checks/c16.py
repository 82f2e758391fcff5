import os, vp
DATA = os.path.join(vp.REPO, "python/flame/test/data")
def run():
    c = vp.Check("C16", "exploration",
        rule="every text up to 6 symbols over a 12-byte alphabet and over a 10-word alphabet, every spelling of numbers and non-numbers at every place, every shape, separator, line end and header position, every triple of files read into one object, every vector length and column count; every line of the cavity files cut at every word or spoilt, every vector of a cavity data file at every length (AddressSanitizer); all against an independent reader",
        assumptions=["C locale", "a line starting with % is a header, the last one counts"])
    b = vp.build("plain")
    c.shards(vp.harness("c16", "plain", b), args=["--part", "table", "--data", DATA])
    b = vp.build("asan")
    c.shards(vp.harness("c16", "asan", b), args=["--part", "asan", "--data", DATA])
    c.finish(require={"evaluations": 500000, "tables": 20000, "rejected": 20000, "reuse": 500, "cavities": 1000, "generics": 500})
