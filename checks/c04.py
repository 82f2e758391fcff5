import vp
def run():
    c = vp.Check("C04", "model_checking",
        assumptions=["three handles, keys a/b/n, four value types; sequences longer than the depth bound are not explored"])
    b = vp.build("plain")
    exe = vp.harness("c04", "plain", b)
    if c.tier == "quick":
        c.shards(exe, args=["--ops", "small", "--depth", "4"])
        c.shards(exe, args=["--ops", "full", "--depth", "3"])
    else:
        c.shards(exe, args=["--ops", "full", "--depth", "4"])
        c.shards(exe, args=["--ops", "small", "--depth", "5"])
    # the same alphabet under the address sanitizer, one level less
    b = vp.build("asan")
    exe = vp.harness("c04", "asan", b)
    c.shards(exe, args=["--ops", "small", "--depth", "3"])
    c.rule = "every operation sequence up to the depth; each is replayed on fresh handles and compared after its last operation"
    c.finish(require={"states": 10000, "transitions": 1000000})
