import os, vp
def run():
    c = vp.Check("C14", "fault_enumeration",
        rule="every history up to the depth of fetches, replacements (contents x older, equal or newer time x well-formed, malformed or missing) of two files, with a replacement placed before every single file access of a fetch (stat and open interposed), for numeric tables, curve files and cavity data files; longer histories without interposed replacements; every fetch compared with the set of contents the file had during it",
        assumptions=["at most one replacement of a file during one fetch", "a replacement is atomic (rename)", "contents whose modification time equals that of the contents last fetched cannot be told apart"])
    b = vp.build("plain")
    c.shards(vp.harness("c14", "plain", b, extra=["-rdynamic"]))
    c.finish(require={"histories": 50000, "fetches": 100000, "failed": 1000})
