import os, vp
def run():
    c = vp.Check("C18", "exploration",
        rule="every lattice of the stated families (every value of the alphabet as global, own and overriding value under names sorting before and after 'elements'; every choice and order of up to three globals with every combination of overrides; every split of each element type's parameters into global and own; refused configurations; shipped and nested lattices) through every construction route of the Python API (text in every container, parsed list, dictionaries and lists in several orders, configuration reports, printed text, extra definitions), against a model of scopes and against each other: configuration reports with exact types and bits, element lookup, text and simulation results; every sequence of queries up to the depth with everything returned overwritten; every way of naming the file times working directories; reconfigurations and state allocations with dictionaries",
        assumptions=["CPython and numpy themselves"])
    data = os.path.join(vp.REPO, "python/flame/test/data")
    b = vp.build("plain", ("_internal", "pyfiles"))
    c.shards(vp.pyharness("c18", "plain", b), args=["--data", data])
    c.cov["evaluations"] = sum(c.cov.get(k, 0) for k in ("routes", "asked", "paths", "reconfigured", "allocated"))
    c.cov["distinct_nontrivial"] = c.cov.get("lattices", 0)
    c.finish(require={"routes": 20000, "simulated": 20000, "lattices": 2000, "extras": 1000, "asked": 200, "paths": 100, "reconfigured": 300, "allocated": 50, "refused": 50})
