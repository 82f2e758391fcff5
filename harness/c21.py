"""C21: the IOC generator on every small lattice, under several manglers, against a model of the database."""
import filecmp, io, itertools, logging, os, re, shutil, subprocess, sys
import pvh
pvh.init()
import flame, flame.ioc as ioc

DATA = os.path.join(os.path.dirname(ioc.__file__), "data")
CAV = pvh.opts["data"]
work = os.path.join(pvh.directory, "work")
os.makedirs(work)

class Handler(logging.Handler):
    def __init__(self): logging.Handler.__init__(self); self.msgs = []
    def emit(self, r):
        if r.levelno >= logging.WARNING: self.msgs.append(r.getMessage())
H = Handler()
logging.getLogger("flame.ioc").addHandler(H)
logging.getLogger("flame.ioc").propagate = False

# device support: DTYP -> record types it exists for (flameSupport.dbd)
DTYPS = {}
for line in open(os.path.join(pvh.opts["repo"], "vaccel/flameSupport.dbd")):
    m = re.match(r'device\((\w+),\s*INST_IO,\s*\w+,\s*"([^"]*)"\)', line)
    if m: DTYPS.setdefault(m.group(2), set()).add(m.group(1))

def expand(s, env, depth=0):
    assert depth < 10
    def sub(m):
        name, _, dflt = m.group(1).partition("=")
        if name in env: return env[name]
        if "=" in m.group(1): return dflt
        raise KeyError(name)
    while True:
        n = re.sub(r"\$\(([^()$]*)\)", sub, s)
        if n == s: return s
        s = n

RECS = {}
def template(path):
    """[(record type, name, {field: value})] with macros"""
    if path not in RECS:
        out = []
        text = "\n".join(re.sub(r'^((?:[^"#]|"[^"]*")*)#.*', r"\1", l) for l in open(path))
        pos, pat = 0, re.compile(r'\s*record\(\s*(\w+)\s*,\s*"([^"]*)"\s*\)\s*\{([^}]*)\}')
        while text[pos:].strip():
            m = pat.match(text, pos)
            if not m: raise ValueError("%s: syntax error near %r" % (os.path.basename(path), text[pos:pos + 60]))
            pos = m.end()
            body, f = m.group(3), {}
            rest = re.sub(r'field\(\s*"?(\w+)"?\s*,\s*"([^"]*)"\s*\)', lambda x: f.__setitem__(x.group(1), x.group(2)) or "", body)
            if rest.strip(): raise ValueError("%s: syntax error in %s: %r" % (os.path.basename(path), m.group(2), rest.strip()[:60]))
            out.append((m.group(1), m.group(2), f))
        RECS[path] = out
    return RECS[path]

def parse_subst(text):
    """[(template, [{macro: value}])]"""
    out, pos = [], 0
    pf = re.compile(r'\s*file\s+"([^"]*)"\s*\{')
    pr = re.compile(r'\s*\{((?:[^"}]|"[^"]*")*)\}')
    pe = re.compile(r'\s*\}')
    while text[pos:].strip():
        m = pf.match(text, pos)
        if not m: raise ValueError("syntax error near %r" % text[pos:pos + 60])
        name, rows, pos = m.group(1), [], m.end()
        while True:
            m = pr.match(text, pos)
            if m:
                row = dict(re.findall(r'(\w+)\s*=\s*"([^"]*)"', m.group(1)))
                rows.append(row); pos = m.end(); continue
            m = pe.match(text, pos)
            if not m: raise ValueError("syntax error near %r" % text[pos:pos + 60])
            pos = m.end(); break
        out.append((name, rows))
    return out

GLOB = 'sim_type = "MomentMatrix"; IonEs = 931e6; IonEk = 0.5e6; IonChargeStates=[0.2]; NCharge=[1e4]; ' + \
       'moment00 = [0,0,0,0,0,0,1]; initial0 = [%s]; Eng_Data_Dir = "%s";\n' % (",".join(["1.0"] * 49), CAV)
FULL = {
    "source": "source", "marker": "marker", "bpm": "bpm", "drift": "drift, L = 0.25",
    "orbtrim": "orbtrim, theta_x = 1e-3, theta_y = 2e-3",
    "sbend": "sbend, L = 0.5, phi = 5.0, phi1 = 1.0, phi2 = 1.0, K = 0.5",
    "quadrupole": "quadrupole, L = 0.25, B2 = 1.5", "sextupole": "sextupole, L = 0.25, B3 = 1.5",
    "solenoid": "solenoid, L = 0.25, B = 1.5",
    "rfcavity": 'rfcavity, L = 0.24, cavtype = "0.041QWR", f = 80.5e6, phi = -30.0, scl_fac = 0.64',
    "stripper": "stripper, IonChargeStates = [0.3], NCharge = [1.0]",
    "edipole": "edipole, L = 0.5, phi = 5.0, beta = 0.03, ver = 0, spher = 0, asym_fac = 0.0, fringe_x = 0.0, fringe_y = 0.0",
    "equad": "equad, L = 0.25, V = 1000.0, radius = 0.05", "tmatrix": "tmatrix, matrix = [%s]" % ",".join("1" if i % 8 == 0 else "0" for i in range(49)),
}
def lattice(defs, seq, glob=GLOB):
    return glob + "".join("%s: %s;\n" % (n, FULL[t]) for n, t in defs if n in set(seq)) + "cell: LINE = (%s);\n" % ", ".join(seq)

class Counter(object):
    def __init__(self): self.n = 0
    def __call__(self, elem):
        self.n += 1
        return "$(PREF)E%03d:" % self.n
MANGLERS = [("default", lambda: ioc.default_mangler),
            ("lower", lambda: lambda e: "$(PREF)%s:" % e["name"].lower()),
            ("type", lambda: lambda e: "$(PREF)%s:" % e["type"]),
            ("nosep", lambda: lambda e: "$(PREF)%s" % e["name"]),
            ("constant", lambda: lambda e: "$(PREF)X:"),
            ("counter", Counter)]
if not pvh.thorough(): MANGLERS_Q = MANGLERS
STATE = {}
def state_arrays():
    """name -> (is double, shape) of the arrays of a state, from the Python API"""
    if not STATE:
        M = flame.Machine(io.BytesIO(lattice([("m", "marker")], ["m"]).encode()))
        S = M.allocState({})
        import numpy
        for n in S:
            v = getattr(S, n)
            STATE[n] = (isinstance(v, float) or getattr(v, "dtype", None) == numpy.float64, numpy.shape(v))
    return STATE

def read(p):
    with open(p, "rb") as F: return F.read()

def check(case, text, defs, seq, mname, mangler, indir=DATA, machine=True, out=None, links=True):
    """generate and compare with the model; returns the generated files"""
    bad = lambda key, msg: pvh.violation(key, msg, case)
    inp = os.path.join(work, "in.lat")
    with open(inp, "w") as F: F.write(text)
    out = out or os.path.join(work, "out")
    fresh = not os.path.exists(out)
    before = set(os.listdir(out)) if not fresh else set()
    H.msgs = []
    types = dict(defs)
    have = lambda t: os.path.isfile(os.path.join(indir, t + ".template"))
    handled = [(i, n) for i, n in enumerate(seq) if have(types[n])]
    try:
        G = ioc.Generator(inp, mangler=mangler, indir=indir)
        G.emit_subst(out)
        err = None
    except Exception as e:
        err = e
    pvh.count("generated")
    # elements without template are mentioned
    missing = set(types[n] for n in seq if not have(types[n]))
    if err is None or handled:
        for t in missing:
            n = sum(1 for m in H.msgs if re.search(r"\b%s\b" % t, m))
            if n != 1: bad("warning", "elements of type %s, which have no template, are mentioned by %d warnings" % (t, n))
        if len(H.msgs) > len(missing): bad("warning", "unexpected warning %r" % H.msgs)
    if not handled:
        if err is None: bad("empty", "a lattice without any usable element was accepted")
        elif not isinstance(err, RuntimeError): bad("empty", "a lattice without any usable element was refused with %r" % err)
        if fresh and os.path.exists(out): bad("empty", "a refused lattice left %s" % os.listdir(out))
        pvh.count("refused")
        return None
    if err is not None:
        bad("error", "generation failed: %r" % err); return None
    # files
    files = dict((f, read(os.path.join(out, f))) for f in os.listdir(out))
    want = {"input.lat", "lattice.substitutions", "st.cmd", "core.db", "orbit.db", "common.template"} | set(types[n] + ".template" for i, n in handled)
    if not want <= set(files): bad("files", "missing %s" % sorted(want - set(files)))
    if set(files) - want - before: bad("files", "unexpected %s" % sorted(set(files) - want - before))
    if files.get("input.lat") != text.encode(): bad("files", "input.lat is not the input")
    for f in want - {"input.lat", "lattice.substitutions", "st.cmd"}:
        if files.get(f) != read(os.path.join(indir, f)): bad("files", "%s differs from the template" % f)
    # substitutions
    try: subst = parse_subst(files["lattice.substitutions"].decode())
    except Exception as e:
        bad("syntax", "lattice.substitutions: %s" % e); return files
    M = flame.Machine(io.BytesIO(text.encode())) if machine else None
    def resolve(link):
        m = re.match(r"([^\s\[]+)(?:\[(\d+)\])?$", link)
        if not m: return None
        idxs = M.find(name=m.group(1)) if M else [i for i, n in enumerate(seq) if n == m.group(1)]
        k = int(m.group(2) or 0)
        return idxs[k] if k < len(idxs) else None
    seen = {}
    for fname, rows in subst:
        for row in rows:
            if set(row) != {"P", "ELEM"}: bad("syntax", "macros %s" % sorted(row)); continue
            idx = resolve(row["ELEM"])
            if idx is None: bad("link", "%s refers to the element %r which does not exist in %s" % (row["P"], row["ELEM"], seq)); continue
            tmpl = seen.setdefault(idx, {})
            if fname in tmpl: bad("link", "element %d of %s is in %s twice, as %s and %s" % (idx, seq, fname, tmpl[fname], row["P"]))
            tmpl[fname] = row["P"]
            pvh.count("links")
    for i, n in handled:
        got = seen.pop(i, {})
        exp = {"common.template", types[n] + ".template"}
        if set(got) != exp: bad("element", "element %d of %s is in %s instead of %s" % (i, seq, sorted(got), sorted(exp)))
        if len(set(got.values())) > 1: bad("element", "element %d of %s has prefixes %s" % (i, seq, sorted(got.values())))
        got["P"] = next(iter(got.values()), None)
        seen[i] = got
        base = None
        if mname != "counter":
            base = mangler({"name": n, "type": types[n]})
            if got["P"] is not None and not got["P"].startswith(base): bad("element", "element %d %s has the prefix %s, not one made from %s" % (i, n, got["P"], base))
    for i in set(seen) - set(i for i, n in handled): bad("element", "element %d of %s has records but no template" % (i, seq))
    # order of the lattice is kept
    for fname, rows in subst:
        idx = [resolve(r.get("ELEM", "")) for r in rows]
        if None not in idx and idx != sorted(idx): bad("order", "%s is not in the order of the lattice: %s" % (fname, idx))
    # records of the loaded database
    names = {}
    todo = [("core.db", {"P": "TST:", "SIM": "THESIM"}), ("orbit.db", {"P": "TST:", "SIM": "THESIM"})]
    for fname, rows in subst:
        for r in rows:
            env = dict((k, expand(v, {"PREF": "TST:"})) for k, v in r.items())
            env["SIM"] = "THESIM"
            todo.append((fname, env))
    for fname, env in todo:
        try: T = template(os.path.join(indir, fname))
        except ValueError as e: bad("syntax", str(e)); continue
        for rtype, rname, fields in T:
            try: full = expand(rname, env); F = dict((k, expand(v, env)) for k, v in fields.items())
            except KeyError as e: bad("macro", "%s: record %s needs macro %s" % (fname, rname, e)); continue
            pvh.count("records")
            if full in names: bad("unique", "record %s is defined for %s and %s in %s" % (full, names[full], env.get("ELEM"), seq))
            names[full] = env.get("ELEM")
            if not links or "DTYP" not in F: continue
            d = F["DTYP"]
            if rtype not in DTYPS.get(d, ()): bad("dtyp", "%s: record %s is a %s, for which there is no %r" % (fname, rname, rtype, d)); continue
            link = F.get("INP") or F.get("OUT") or ""
            if not link.startswith("@THESIM"): bad("link", "%s: record %s has the link %r" % (fname, rname, link)); continue
            args = link[len("@THESIM"):].split()
            if "ELEM" in env:
                if not args or args[0] != env["ELEM"]: bad("link", "%s: record %s of element %s has the link %r" % (fname, rname, env["ELEM"], link)); continue
                pvh.count("device_links")
            if d == "FLAME State" or d == "FLAME State Orbit":
                m = re.match(r"([^\s\[]+)(?:\[(\d+)(?:,(\d+))?\])?$", args[1]) if len(args) == 2 else None
                A = state_arrays()
                if not m or m.group(1) not in A: bad("param", "%s: record %s reads %r" % (fname, rname, args)); continue
                isd, shape = A[m.group(1)]
                ix = [int(x) for x in m.groups()[1:] if x is not None]
                if not isd or len(ix) != len(shape) or any(a >= b for a, b in zip(ix, shape)): bad("param", "%s: record %s reads %s, which has shape %s" % (fname, rname, args[1], shape))
            elif d == "FLAME Setting":
                if len(args) != 2: bad("param", "%s: record %s sets %r" % (fname, rname, args)); continue
                if M:
                    i = resolve(env["ELEM"])
                    v = dict(M.conf(i)).get(args[1]) if i is not None else None
                    if not isinstance(v, float): bad("param", "%s: record %s sets %s, which elements of this type do not have" % (fname, rname, args[1]))
    # start script
    st = files.get("st.cmd", b"").decode()
    m = re.search(r'epicsEnvSet\("LATTICE", "([^"]*)"\)', st)
    if not m or os.path.realpath(m.group(1)) != os.path.realpath(inp) or not os.path.isabs(m.group(1)): bad("stcmd", "st.cmd loads %s instead of %s" % (m and m.group(1), inp))
    m = re.search(r'dbLoadRecords\("orbit.db", "([^"]*)"\)', st)
    env = dict(x.split("=") for x in m.group(1).split(",")) if m else {}
    nm = sum(1 for n in seq if types[n] == "marker")
    if env.get("NELM") != str(nm): bad("stcmd", "orbits have %s points, the lattice %d markers" % (env.get("NELM"), nm))
    return files

def clean(p):
    assert p.startswith(work + os.sep)
    shutil.rmtree(p, ignore_errors=True)

def once(case, *a, **k):
    try: return check(case, *a, **k)
    finally: clean(os.path.join(work, "out"))

# 1. every sequence over an alphabet of names which collide under some mangling or suffix
DEFS = [("a", "marker"), ("A", "marker"), ("a1", "quadrupole"), ("a:1", "bpm"), ("b", "bpm"), ("t", "tmatrix"), ("a11", "marker")]
NAMES = [n for n, t in DEFS]
depth = 4 if pvh.thorough() else 3
for mname, mk in MANGLERS:
    for n in range(1, depth + 1 + (1 if mname == "default" else 0)):
        for seq in itertools.product(NAMES, repeat=n):
            case = "seq %s %s" % (mname, ",".join(seq))
            if not pvh.turn(case): continue
            once(case, lattice(DEFS, seq), DEFS, seq, mname, mk(), links=(n <= 2))
            pvh.count("sequences")

# 2. many repetitions (suffixes of two digits)
for mname, mk in MANGLERS:
    for reps in range(1, 25):
        for other in ("", "a1", "a:1", "a11", "A"):
            seq = ["a"] * reps
            for at in sorted(set((0, reps // 2, reps))) if other else (0,):
                s = seq[:at] + ([other] if other else []) + seq[at:]
                case = "reps %s %d %s@%d" % (mname, reps, other, at)
                if not pvh.turn(case): continue
                once(case, lattice(DEFS, s), DEFS, s, mname, mk(), links=False)
                pvh.count("repetitions")

# 3. every element type, alone and in pairs, twice
TYPES = sorted(FULL)
for combo in [(t,) for t in TYPES] + list(itertools.combinations(TYPES, 2)) + [tuple(TYPES)]:
    case = "types " + ",".join(combo)
    if not pvh.turn(case): continue
    defs = [("e_" + t, t) for t in combo]
    seq = [n for n, t in defs]
    if "source" in combo: seq.remove("e_source"); seq = ["e_source"] + seq
    seq = seq + [n for n in reversed(seq) if n != "e_source"]
    once(case, lattice(defs, seq), defs, seq, "default", ioc.default_mangler)
    pvh.count("types")

# 4. every set of templates (of three types) present in the template directory
for mask in range(8):
    for seq in itertools.product(["a", "b", "a1"], repeat=3):
        case = "templates %d %s" % (mask, ",".join(seq))
        if not pvh.turn(case): continue
        tdir = os.path.join(work, "tdir")
        os.makedirs(tdir)
        for f in ("core.db", "orbit.db", "common.template", "st.cmd"): shutil.copyfile(os.path.join(DATA, f), os.path.join(tdir, f))
        for b, t in enumerate(("marker", "bpm", "quadrupole")):
            if mask >> b & 1: shutil.copyfile(os.path.join(DATA, t + ".template"), os.path.join(tdir, t + ".template"))
        once(case, lattice(DEFS, seq), DEFS, seq, "default", ioc.default_mangler, indir=tdir)
        RECS.clear()
        clean(tdir)
        pvh.count("template_sets")

# 5. generating again, into the same or another directory, after another lattice, in new processes with other hash seeds
env = dict(os.environ)
SEQS = [("a", "b", "a", "a1", "a"), ("b",), ("a1", "a", "a:1", "b", "b", "a"), ("A", "t", "a")]
for seq in SEQS:
    case = "again " + ",".join(seq)
    if not pvh.turn(case): continue
    text = lattice(DEFS, seq)
    first = once(case, text, DEFS, seq, "default", ioc.default_mangler)
    o = os.path.join(work, "out")
    for prev in SEQS:
        check(case, lattice(DEFS, prev), DEFS, prev, "default", ioc.default_mangler, out=o)
        f = check(case, text, DEFS, seq, "default", ioc.default_mangler, out=o)
        for k in first or {}:
            if (f or {}).get(k) != first[k]: pvh.violation("again", "generated after %s, %s differs" % (prev, k), case)
        clean(o)
        pvh.count("regenerated")
    inp = os.path.join(work, "in.lat")
    with open(inp, "w") as F: F.write(text)
    ref = None
    for seed, cwd, arg, outd in (("0", "/", inp, "p0"), ("1", work, "in.lat", "p1"), ("2", work, "./in.lat", "deep/er/p2"), ("3", pvh.directory, "work/in.lat", "p3")):
        d = os.path.join(work, outd)
        r = subprocess.run([sys.executable, "-m", "flame.ioc", "gendb", arg, d], cwd=cwd, env=dict(env, PYTHONHASHSEED=seed),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        pvh.count("processes")
        if r.returncode: pvh.violation("process", "generation in a new process failed: %s" % r.stdout[-300:], case); continue
        f = dict((k, read(os.path.join(d, k))) for k in os.listdir(d))
        st = f.pop("st.cmd", b"").decode()
        m = re.search(r'epicsEnvSet\("LATTICE", "([^"]*)"\)', st)
        if not m or os.path.realpath(m.group(1)) != os.path.realpath(inp): pvh.violation("stcmd", "st.cmd loads %s" % (m and m.group(1)), case)
        if ref is None: ref = f
        if f != ref: pvh.violation("again", "another process generated other files: %s" % [k for k in set(f) | set(ref) if f.get(k) != ref.get(k)], case)
        clean(os.path.join(work, outd.split("/")[0]))
    if first and ref and dict((k, v) for k, v in first.items() if k != "st.cmd") != ref: pvh.violation("again", "the command line generated other files", case)

# 6. shipped lattices
for name in sorted(os.listdir(pvh.opts["test"])):
    if not name.endswith(".lat"): continue
    case = "shipped " + name
    if not pvh.turn(case): continue
    path = os.path.join(pvh.opts["test"], name)
    try:
        with open(path, "rb") as F: conf = flame.GLPSParser().parse(F)
    except Exception: continue
    if "sim_type" not in dict(conf): continue # no lattice for any simulation
    els = [dict(e) for e in dict(conf)["elements"]]
    defs = list(dict((e["name"], e["type"]) for e in els).items())
    seq = [e["name"] for e in els]
    text = read(path).decode()
    tdir = os.path.join(work, "lat")
    # paths in the lattice are relative to it
    shutil.copytree(pvh.opts["test"], tdir)
    save, work0 = work, work
    globals()["work"] = tdir
    try: check(case, text, defs, seq, "default", ioc.default_mangler, machine=False, links=False)
    finally: globals()["work"] = save
    clean(tdir)
    pvh.count("shipped")

pvh.finish()
