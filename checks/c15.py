import os, vp
def run():
    c = vp.Check("C15", "exploration",
        rule="every history up to the depth of recordings (state types, 0 to 3 charge states), openings of groups and files and closings, with every value of the written files read back through the plain HDF5 interface and compared with the values at recording time; string attributes of every length and overwriting; every path up to the depth in six shapes over a directory tree with HDF5 files, nested groups, directories, other files and missing names, for the reader, the lattice function h5file() and the writer; data sets of every rank, extent and number type",
        assumptions=["the HDF5 library itself"])
    b = vp.build("asan")
    c.shards(vp.harness("c15", "asan", b), args=["--caselimit", "60" if c.tier == "quick" else "1200"])
    c.cov["evaluations"] = sum(c.cov.get(k, 0) for k in ("histories", "attributes", "paths", "write_paths", "sets"))
    c.cov["distinct_nontrivial"] = c.cov.get("histories", 0) + c.cov.get("paths_found", 0) + c.cov.get("sets", 0)
    c.finish(require={"histories": 1000, "records": 3000, "paths_found": 50, "refused": 50, "write_paths": 500, "attributes": 500})
