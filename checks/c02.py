import vp
def run():
    c = vp.Check("C02", "exploration",
        rule="every token string / byte string up to the bound, from the start of the text, inside a string, name, number and comment of a valid text, and after each of 32 contexts, through the four entry points under AddressSanitizer with per-parse allocation balance; every pair of 72 texts parsed one after the other by one parser; every alignment to the scanner buffers; sizes up to 30000. nontrivial: the text is rejected",
        assumptions=["texts beyond the bounds are not explored", "allocations succeed"])
    exe = vp.harness("c02", "asan", vp.build("asan"))
    q = c.tier == "quick"
    for mode, n in [("buffer", 0), ("big", 0), ("pairs", 0), ("bytes", 3), ("inside", 2 if q else 3), ("bytes", 4 if q else 5), ("tokens", 3 if q else 4), ("tokens", 5), ("ctx", 2), ("ctx", 3 if q else 4)]:
        if mode == "tokens" and n == 5 and q: n = 4
        c.shards(exe, args=["--mode", mode, "--n", str(n)])
    c.cov["exhaustive"] = True
    c.finish(require={"evaluations": 100000, "distinct_nontrivial": 50000})
