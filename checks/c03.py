import vp
def run():
    c = vp.Check("C03", "exploration",
        rule="every value of the alphabet in every position (global, property, both), every triple of small values, and every accepted lattice of up to n statements; printed, parsed and compared bit for bit, printed again; nontrivial: the printed text was parsed and compared",
        assumptions=["strings the language cannot quote, non-finite numbers and nested configurations have no lattice text and are excluded"])
    exe = vp.harness("c03", "plain", vp.build("plain"))
    q = c.tier == "quick"
    c.shards(exe, args=["--mode", "values"])
    c.shards(exe, args=["--mode", "prog", "--n", "5" if q else "6"])
    exe = vp.harness("c03", "asan", vp.build("asan"))
    c.shards(exe, args=["--mode", "values"])
    c.cov["exhaustive"] = True
    c.finish(require={"evaluations": 4000, "distinct_nontrivial": 4000})
