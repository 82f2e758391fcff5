import concurrent.futures, hashlib, os, re, vp
EP = os.path.join(vp.VERIF, "harness", "epics")
VA = os.path.join(vp.REPO, "vaccel")
def dbd():
    """The device and registrar entries of the database definition, as an IOC's build would collect them."""
    t = open(os.path.join(VA, "flameSupport.dbd")).read()
    t = re.sub(r"(?m)#.*$", "", t)
    dev = re.findall(r'\bdevice\s*\(\s*"?(\w+)"?\s*,\s*"?(\w+)"?\s*,\s*"?(\w+)"?\s*,\s*"([^"]*)"\s*\)', t)
    reg = re.findall(r'\bregistrar\s*\(\s*"?(\w+)"?\s*\)', t)
    o = "".join('extern "C" void* pvar_dset_%s;\n' % d[2] for d in dev) + "".join('extern "C" void (*pvar_func_%s)();\n' % r for r in reg)
    o += "static const DevSup devsups[]={" + ",".join('{"%s","%s",&pvar_dset_%s}' % (d[0], d[3], d[2]) for d in dev if d[1] == "INST_IO") + "};\n"
    return o + "static void registrars() {" + "".join(" pvar_func_%s();" % r for r in reg) + " }\n"
def compile(variant, b, extra=()):
    """vaccel/*.cpp and the harness, from the repository's sources, with the flags of the build."""
    cxx, flags = vp.VARIANTS[variant]
    out = os.path.join(b, "vp-c22.d"); os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "c22_dbd.h"), "w") as F: F.write(dbd())
    inc = ["-DUSE_HDF5", "-I" + EP, "-I" + os.path.join(vp.REPO, "src"), "-I" + os.path.join(b, "src"), "-I" + VA, "-I" + os.path.join(vp.VERIF, "harness"), "-I" + out, "-I/usr/include/hdf5/serial"]
    names = re.findall(r"\b(\w+)\.cpp\b", open(os.path.join(VA, "CMakeLists.txt")).read())
    srcs = [os.path.join(VA, n + ".cpp") for n in names] + [os.path.join(vp.VERIF, "harness", "c22.cpp")]
    h = hashlib.sha256(repr((flags, extra, inc)).encode())
    for d in (EP, os.path.join(vp.VERIF, "harness"), VA):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p): h.update(f.encode()); h.update(open(p, "rb").read())
    exe = os.path.join(b, "vp-c22"); stamp = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest(): return exe
    def one(s):
        o = os.path.join(out, os.path.basename(s) + ".o")
        return o, vp.sh([cxx, "-std=gnu++17"] + flags.split() + inc + list(extra) + ["-c", s, "-o", o])
    with concurrent.futures.ThreadPoolExecutor(8) as P: rs = list(P.map(one, srcs))
    for o, r in rs:
        if r.returncode: raise vp.CheckError("%s does not compile:\n%s" % (o, r.stdout[-4000:]))
    r = vp.sh([cxx] + flags.split() + ["-rdynamic"] + [o for o, _ in rs] + ["-o", exe, "-L" + os.path.join(b, "src"), "-Wl,-rpath," + os.path.join(b, "src"), "-lflame_core",
               "-lboost_thread", "-lboost_system", "-lboost_filesystem", "-lboost_regex", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_cpp", "-lhdf5", "-lpthread", "-ldl"])
    if r.returncode: raise vp.CheckError("c22 does not link:\n" + r.stdout[-4000:])
    with open(stamp, "w") as F: F.write(h.hexdigest())
    return exe
def run():
    c = vp.Check("C22", "model_checking",
        rule="vaccel/*.cpp, compiled from the repository against a stand-in for EPICS, with its records processed as an IOC does. Interleavings: every pair of client programs of up to two operations each (run, set the drift, set a value which is refused, set the value which makes the simulation fail, read a monitor, read an orbit, shut down), every program of one client up to the length, and the shell's commands against a running client; four threads (two clients, the simulation's, the one which processes records scanned after a simulation): all schedules up to the preemption bound, switching at every mutex and event, each execution of the real code in a process of its own under a controlled scheduler, on a plain build and on one with the thread sanitizer; every outcome (all values, alarms and messages which clients and monitors saw, and what is read when everything is quiet) must be one of an explicit-state model of the intended behaviour, all of whose states are explored; no race, deadlock, crash or hang. Without scheduling, on a build with the address sanitizer: every link of the families (simulation, element, instance, parameter, indices; well formed or not) resolved by a model on the library's own Machine and compared before and after a simulation; every conversion setting; every array type and size; all sequences of settings up to the depth against the library; all sequences of shell commands up to the depth. states: distinct outcomes; transitions: scheduling decisions",
        assumptions=["the stand-in in harness/epics for EPICS Base: binary event, recursive mutex, I/O interrupt scan lists processed in order by one callback thread, record processing of ai, ao, bo, longin and waveform, alarms as the greatest severity", "sequentially consistent memory apart from what the thread sanitizer's happens-before analysis covers", "the device support entries of flameSupport.dbd"])
    q = c.tier == "quick"
    hp = compile("plain", vp.build("plain")); ht = compile("tsan", vp.build("tsan")); ha = compile("asan", vp.build("asan"), ["-DNOSCHED"])
    def go(exe, bound, blong, la, lb, ls):
        if c.viol: return # one stage which fails is enough, and others might not end
        c.shards(exe, args=["--mode", "sched", "--bound", str(bound), "--boundlong", str(blong), "--lena", str(la), "--lenb", str(lb), "--lens", str(ls)],
                 env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:log_path=tsan:die_after_fork=0:report_signal_unsafe=0:report_thread_leaks=0"})
    if q:
        go(hp, 1, 0, 2, 2, 3)
        go(ht, 0, 0, 2, 1, 2)
    else:
        go(hp, 2, 1, 2, 2, 5)
        go(ht, 1, 0, 2, 2, 3)
    for f in ("commands", "array", "conv", "settings", "link"):
        if not c.viol: c.shards(ha, args=["--mode", "seq", "--family", f])
    c.cov["traces_validated_against_impl"] = c.cov.get("executions", 0)
    c.finish(require={"schedules": 30000, "scenarios": 800, "scenarios_with_several_outcomes": 100, "links": 5000, "resolved": 500, "refused": 500, "readings": 10000, "conversions": 100, "arrays": 50, "histories": 3000})
