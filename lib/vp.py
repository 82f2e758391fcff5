"""Shared driver of all checks: builds /repo's working tree, runs harness shards, reports.

Exit status: 0 property held on everything explored; 1 with a VIOLATION line; 2 error of the check.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
BUILD = os.path.join(OUT, "build")
NCPU = min(8, os.cpu_count() or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

COMMON = "-g -fno-omit-frame-pointer -Wno-deprecated-declarations -w"
VARIANTS = {
    # name: (compiler, cmake flags for C and C++)
    "plain": ("g++", "-O2 -DNDEBUG " + COMMON),
    "asan": ("g++", "-O1 -DNDEBUG -fsanitize=address " + COMMON),
    "tsan": ("g++", "-O1 -DNDEBUG -fsanitize=thread " + COMMON),
}

class CheckError(Exception):
    pass

def _files():
    skip = {".git", "_build", "cmake4epics", "__pycache__", "documentation", "sphinx_doc"}
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in skip)
        for f in sorted(files):
            yield os.path.join(base, f)

def repo_hash():
    h = hashlib.sha256(REPO.encode())
    for f in _files():
        if os.path.islink(f):
            data = os.readlink(f).encode()
        else:
            try:
                with open(f, "rb") as F: data = F.read()
            except OSError: continue
        h.update(os.path.relpath(f, REPO).encode() + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()[:16]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(variant, targets=("flame_core",)):
    """Build the working tree with the repository's own build system, outside /repo.
    The directory is named by the content of the tree, so that it can never be stale."""
    cxx, flags = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    bdir = os.path.join(BUILD, "%s-%s" % (variant, repo_hash()))
    lock = open(os.path.join(BUILD, ".lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    # keep the disk small: only this tree's build of a variant, and the latest other one
    olds = sorted((d for d in os.listdir(BUILD) if d.startswith(variant + "-") and os.path.join(BUILD, d) != bdir),
                  key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in olds[:-1]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    env = dict(os.environ, CC=cxx.replace("++", "cc") if cxx == "g++" else "clang", CXX=cxx, PYTHONDONTWRITEBYTECODE="1")
    if not os.path.exists(os.path.join(bdir, "build.ninja")):
        shutil.rmtree(bdir, ignore_errors=True)
        cmd = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=None",
               "-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_CXX_FLAGS=" + flags,
               "-DPYTHON_EXECUTABLE=/usr/bin/python3", "-DNEED_PYTHON=ON",
               "-DUSE_HDF5=ON", "-DHDF5_CXX_INCLUDE_DIR=/usr/include/hdf5/serial",
               "-DCMAKE_PROJECT_INCLUDE=/opt/vp/cmake/python-module.cmake"]
        r = sh(cmd, env=env)
        if r.returncode: raise CheckError("cmake failed:\n" + r.stdout[-3000:])
    r = sh(["ninja", "-C", bdir] + list(targets), env=env)
    if r.returncode: raise CheckError("build of /repo failed:\n" + r.stdout[-4000:])
    os.utime(bdir)
    lock.close()
    return bdir

def harness(name, variant, bdir, extra=(), libs=(), src=None):
    src = src or os.path.join(VERIF, "harness", name + ".cpp")
    exe = os.path.join(bdir, "vp-" + name)
    cxx, flags = VARIANTS[variant]
    h = hashlib.sha256()
    for f in [src] + sorted(os.path.join(VERIF, "harness", x) for x in os.listdir(os.path.join(VERIF, "harness")) if x.endswith(".h")):
        with open(f, "rb") as F: h.update(F.read())
    h.update(repr((extra, libs, flags)).encode())
    stamp = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe
    cmd = [cxx, "-std=gnu++17"] + flags.split() + ["-DUSE_HDF5", "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(bdir, "src"),
           "-I" + os.path.join(VERIF, "harness"), "-I/usr/include/hdf5/serial"] + list(extra) + [src, "-o", exe,
           "-L" + os.path.join(bdir, "src"), "-Wl,-rpath," + os.path.join(bdir, "src"), "-lflame_core"] + list(libs) + [
           "-lboost_thread", "-lboost_system", "-lboost_filesystem", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_cpp", "-lhdf5", "-lpthread", "-ldl"]
    r = sh(cmd)
    if r.returncode: raise CheckError("harness %s does not compile:\n%s" % (name, r.stdout[-4000:]))
    with open(stamp, "w") as F: F.write(h.hexdigest())
    return exe

def pyharness(name, variant, bdir, env=None, tag=""):
    """A Python harness which imports the extension module of a build."""
    exe = os.path.join(bdir, "vp-" + name + tag)
    e = {"PYTHONPATH": os.path.join(bdir, "python") + ":" + os.path.join(VERIF, "harness"), "PYTHONDONTWRITEBYTECODE": "1",
         "PYTHONMALLOC": "malloc", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    if variant == "asan":
        lib = sh(["g++", "-print-file-name=libasan.so"]).stdout.strip()
        std = sh(["g++", "-print-file-name=libstdc++.so.6"]).stdout.strip()
        e["LD_PRELOAD"] = os.path.realpath(lib) + " " + os.path.realpath(std)
    e.update(env or {})
    with open(exe, "w") as F:
        F.write("#!/bin/sh\n" + "".join("export %s='%s'\n" % kv for kv in sorted(e.items())) +
                "exec /usr/bin/python3 '%s' \"$@\"\n" % os.path.join(VERIF, "harness", name + ".py"))
    os.chmod(exe, 0o755)
    return exe

def pymodule(name, bdir):
    """A helper module for Python harnesses, in the build directory."""
    inc = sh(["/usr/bin/python3", "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).stdout.strip()
    so = os.path.join(bdir, "python", name + ".so")
    r = sh(["gcc", "-shared", "-fPIC", "-O1", "-I" + inc, os.path.join(VERIF, "harness", name + ".c"), "-o", so])
    if r.returncode: raise CheckError("module %s does not compile:\n%s" % (name, r.stdout[-3000:]))

ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=1",
            "LSAN_OPTIONS": "exitcode=78:print_suppressions=0",
            "UBSAN_OPTIONS": "print_stacktrace=1"}

def known():
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    res = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m: res.append(m.groups())
    return res

class Check:
    """One property's run."""
    def __init__(self, prop, level, rule="", assumptions=()):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.cov, self.samples, self.viol = {}, [], []
        self.stateset = None
        self.tier = TIER if TIER in ("quick", "thorough") else "quick"
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)

    def count(self, key, n=1): self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, key, text, replay=""):
        self.viol.append((key, text, replay))

    # ---- sharded native harness -------------------------------------------------
    def shards(self, exe, n=NCPU, args=(), env=None, timeout=640, cwd=None):
        """Run n shards of a harness built with vh.h. Crashes and hangs are violations:
        the harness leaves the case it was working on in its crumb file."""
        procs = []
        e = dict(os.environ, **ASAN_ENV); e.update(env or {})
        tmax = float(os.environ.get("VERIF_SHARD_TIMEOUT", timeout if self.tier == "quick" else 6 * 3600))
        for i in range(n):
            d = os.path.join(self.scratch, "%s-%d" % (os.path.basename(exe), i))
            os.makedirs(d, exist_ok=True)
            cmd = [exe, "--tier", self.tier, "--shard", str(i), "--nshards", str(n), "--dir", d] + list(args)
            log = open(os.path.join(d, "log"), "wb")
            procs.append((d, cmd, subprocess.Popen(cmd, stdout=log, stderr=log, env=e, cwd=cwd or d, start_new_session=True)))
        end = time.time() + tmax
        for d, cmd, p in procs:
            hung = False
            try:
                p.wait(max(0.1, end - time.time()))
            except subprocess.TimeoutExpired:
                hung = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait()
            self._collect(exe, d, cmd, p.returncode, hung, args, e)

    def _crumb(self, d):
        try:
            with open(os.path.join(d, "crumb"), "rb") as F:
                return F.read().split(b"\0", 1)[0].decode("utf8", "replace")
        except OSError:
            return ""

    def _replay(self, exe, case, args, env, timeout=120):
        d = os.path.join(self.scratch, "replay")
        os.makedirs(d, exist_ok=True)
        for f in ("result.json", "crumb"):
            if os.path.exists(os.path.join(d, f)): os.unlink(os.path.join(d, f))
        spec = os.path.join(d, "case")
        with open(spec, "w") as F: F.write(case)
        cmd = [exe, "--tier", self.tier, "--replay", spec, "--dir", d] + list(args)
        with open(os.path.join(d, "log"), "wb") as log:
            p = subprocess.Popen(cmd, stdout=log, stderr=log, env=env, cwd=d, start_new_session=True)
            try: p.wait(timeout); rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "hang"
        res = None
        try: res = json.load(open(os.path.join(d, "result.json")))
        except Exception: pass
        log = open(os.path.join(d, "log"), errors="replace").read()
        return rc, res, log

    def _collect(self, exe, d, cmd, rc, hung, args, env):
        res = None
        try: res = json.load(open(os.path.join(d, "result.json")))
        except Exception: pass
        if res:
            for k, v in res.get("counts", {}).items(): self.count(k, v)
            sb = os.path.join(d, "states.bin")
            if os.path.exists(sb):
                import numpy
                self.stateset = numpy.union1d(self.stateset, numpy.fromfile(sb, dtype=numpy.uint64)) if self.stateset is not None else numpy.unique(numpy.fromfile(sb, dtype=numpy.uint64))
                os.unlink(sb)
            self.samples += res.get("samples", [])[:2]
            for v in res.get("violations", []):
                self.violation(v["key"], v["text"], self.replay_cmd(exe, v["case"], args))
        if rc == 0 and res: return
        log = open(os.path.join(d, "log"), errors="replace").read()
        if rc == 3 or (rc == 0 and not res) or "VH-ERROR" in log:
            raise CheckError("harness error (%s):\n%s" % (" ".join(cmd), log[-3000:]))
        crumb = self._crumb(d)
        if rc in (-signal.SIGPROF, -signal.SIGALRM):
            self.violation("hang", "does not terminate: " + crumb, self.replay_cmd(exe, crumb, args)); return
        if hung:
            # a case that hangs is re-run alone with its own limit before being called a hang
            rc2, _, log2 = self._replay(exe, crumb, args, env) if crumb else ("hang", None, "")
            if rc2 == "hang":
                self.violation("hang", "does not terminate: " + crumb, self.replay_cmd(exe, crumb, args)); return
            if rc2 in (0,) :
                raise CheckError("shard ran out of time at case: %s\n%s" % (crumb, log[-2000:]))
            rc, log = rc2, log2
        if rc == 78 and "LeakSanitizer" in log:
            self.violation("leak", "memory is leaked: " + self._san(log), self.replay_cmd(exe, crumb, args)); return
        if rc in (77, 78) or "AddressSanitizer" in log or "ThreadSanitizer" in log:
            self.violation("memory", "memory error in case [%s]: %s" % (crumb, self._san(log)), self.replay_cmd(exe, crumb, args)); return
        self.violation("crash", "process ended with status %s in case [%s]: %s" % (rc, crumb, log[-600:]), self.replay_cmd(exe, crumb, args))

    def _san(self, log):
        out = []
        for l in log.splitlines():
            if "ERROR:" in l or "SUMMARY" in l or "WARNING: Thread" in l or re.match(r"\s+#\d+ ", l): out.append(l.strip())
            if len(out) > 24: break
        return " | ".join(out)

    def replay_cmd(self, exe, case, args):
        return json.dumps({"harness": os.path.basename(exe), "args": list(args), "case": case})

    # ---- end --------------------------------------------------------------------
    def finish(self, require=None):
        """Write evidence, print the verdict and exit."""
        if self.stateset is not None: self.cov["states"] = int(self.stateset.size)
        kn = known()
        fresh, seen = [], {}
        for key, text, replay in self.viol:
            hit = [k for k in kn if k[0] == self.prop and k[1] == key]
            if hit: seen[key] = hit[0]
            else: fresh.append((key, text, replay))
        if not self.viol and require:
            for k, n in require.items():
                if self.cov.get(k, 0) < n:
                    raise CheckError("vacuous run: %s=%s < %s" % (k, self.cov.get(k, 0), n))
        cov = dict(self.cov)
        cov["samples"] = self.samples[:8] or ["(none)"]
        if self.rule: cov["rule"] = self.rule
        if self.level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", 0); cov.setdefault("distinct_nontrivial", 0)
        if self.level == "model_checking":
            cov.setdefault("states", 0); cov.setdefault("transitions", 0)
            cov.setdefault("traces_validated_against_impl", 0)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as F:
            json.dump(ev, F, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k[2]))
        print("%s %s: %s" % (self.prop, self.tier, " ".join("%s=%s" % (k, v) for k, v in sorted(self.cov.items()))))
        if fresh:
            rd = os.path.join(OUT, "replay"); os.makedirs(rd, exist_ok=True)
            fresh.sort(key=lambda v: len(v[2]))
            path = os.path.join(rd, "%s-%s.txt" % (self.prop, self.tier))
            with open(path, "w") as F:
                for key, text, replay in fresh[:50]:
                    F.write("key: %s\nwhat: %s\nreplay: %s\n\n" % (key, text, replay))
            for key, text, replay in fresh[:5]:
                print("  [%s] %s" % (key, text[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            sys.exit(1)
        sys.exit(0)

def main(fn):
    try:
        fn()
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
