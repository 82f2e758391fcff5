import vp
def run():
    c = vp.Check("C01", "exploration",
        rule="every text up to the stated number of tokens/statements over each alphabet (see DESIGN.md), each compared with an independent interpreter of the documented language; nontrivial: the text has a meaning (the others must be rejected on the right line)",
        assumptions=["programs larger than the bounds or outside the alphabets are not explored", "error lines are judged to within the one token of lookahead the grammar needs"])
    exe = vp.harness("c01", "plain", vp.build("plain"))
    q = c.tier == "quick"
    for mode, n in [("files", 0), ("funs", 0), ("ast", 3 if q else 4), ("lines2", 0), ("predef", 4 if q else 5), ("space", 4 if q else 5), ("strs", 3 if q else 5),
                    ("names", 5 if q else 7), ("nums", 5 if q else 7), ("prog", 4 if q else 5), ("line", 6 if q else 7),
                    ("exprtypes", 5 if q else 6), ("expr", 6 if q else 7)]:
        c.shards(exe, args=["--mode", mode, "--n", str(n)])
    exe = vp.harness("c02", "plain", vp.build("plain"))
    c.shards(exe, args=["--mode", "big", "--n", "0"])
    c.cov["exhaustive"] = True
    c.finish(require={"evaluations": 100000, "distinct_nontrivial": 10000})
