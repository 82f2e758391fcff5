import os, vp
def run():
    c = vp.Check("C19", "exploration",
        rule="the command line tool is run for every combination of lattice (all simulation types, repeated names and types, changing number of charge states), limit, selection by all, type, name and last, in short and long options; every output format and verbosity to screen, new and existing files; every one and two definitions with every use; every cut of every lattice text and the list of invalid values for each option, file and output; several working directories and the standard input. What it prints or writes is compared with what the library computes in the checking process, byte by byte (HDF5 through its C interface)",
        assumptions=["--timeit, which runs the simulation twice, is not part of the property"])
    b = vp.build("asan", ("flamecli", "flame_core"))
    p = vp.build("plain")
    c.shards(vp.harness("c19", "plain", p), args=["--tool", os.path.join(b, "tools", "flame")])
    c.finish(require={"evaluations": 4000, "formats": 800, "defines": 800, "refused": 100, "invalid": 400, "places": 100})
