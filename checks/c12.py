import os, vp
DATA = os.path.join(vp.REPO, "python/flame/test/data")
def run():
    c = vp.Check("C12", "exploration",
        rule="every combination of the parameter grid of every element type (strengths of both signs, zero and degenerate focusing, field conventions, curves, fringe options, every misalignment) times beams with one to three charge states, slow and fast, detuned: reported matrix, centroids, envelopes, phases and energies compared with an independent reference (matrix exponential of the equations of motion); every flag parameter with every allowed value, as number and as text, and with values which are not allowed",
        assumptions=["agreement to 1e-9 in natural units", "field maps of RF cavities have no independent reference here; for them only the reported matrix is compared with the applied one"])
    b = vp.build("plain")
    exe = vp.harness("c12", "plain", b)
    c.shards(exe, args=["--data", DATA])
    c.finish(require={"evaluations": 50000, "symplectic": 10000, "flags": 100})
