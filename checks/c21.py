import os, vp
def run():
    c = vp.Check("C21", "exploration",
        rule="every lattice of the stated families (every sequence up to the depth over names which collide by letter case, by a digit or colon appended, or are handled by no template; repetitions up to 24 with another name at every third; every element type alone, in pairs and all; every set of available templates) under every mangler of the alphabet (default, lower case, by type, without separator, constant, numbered): generated, and the substitutions expanded with the copied templates into the loaded database, which is compared with a model: one entry per element and template, prefix unique and made from the element, record names unique, link resolving to this very element in the Machine, device type and parameter existing; files copied, start script; generation repeated over other output, in new processes with other hash seeds and working directories",
        assumptions=["CPython and its file functions", "EPICS macro expansion as modelled"])
    data = os.path.join(vp.REPO, "python/flame/test/data")
    b = vp.build("plain", ("_internal", "pyfiles"))
    c.shards(vp.pyharness("c21", "plain", b), args=["--data", data, "--repo", vp.REPO, "--test", os.path.join(b, "python/flame/test")])
    c.cov["evaluations"] = c.cov.get("generated", 0)
    c.cov["distinct_nontrivial"] = c.cov.get("links", 0)
    c.finish(require={"generated": 4000, "links": 15000, "records": 100000, "device_links": 3000, "sequences": 3000, "refused": 10, "processes": 16, "shipped": 5})
