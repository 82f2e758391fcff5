"""C18: the same machine through every construction route of the Python API, against a model of scopes."""
import pvh, sys, os, io, itertools, math, tempfile, shutil, logging
from collections import OrderedDict
import numpy as np
import flame
from flame import _internal as I

pvh.init()
DATA = pvh.opts["data"]
logging.getLogger(flame.getLoggerName()).addHandler(logging.NullHandler())
logging.getLogger(flame.getLoggerName()).propagate = False
P = flame.GLPSParser()

# ------------------------------------------------------------------ comparing
def show(v):
    if isinstance(v, np.ndarray): return "array%s%s" % (v.dtype, v.tolist())
    if isinstance(v, (dict, OrderedDict)): return "{%s}" % ", ".join("%s: %s" % (k, show(x)) for k, x in v.items())
    if isinstance(v, list): return "[%s]" % ", ".join(map(show, v))
    return "%s %r" % (type(v).__name__, v)
def canon(v):
    """a hashable form with exact types and bits; mappings as reported order"""
    if isinstance(v, np.ndarray): return ("array", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, (dict, OrderedDict)): return ("map", tuple((k, canon(x)) for k, x in v.items()))
    if isinstance(v, list): return ("list", tuple(canon(x) for x in v))
    if isinstance(v, float): return ("float", v.hex() if v == v else "nan")
    return (type(v).__name__, v)
def state(s):
    r = []
    for n in s:
        v = getattr(s, n)
        r.append((n, v.tobytes() + str(v.shape).encode() if isinstance(v, np.ndarray) else repr(v)))
    return tuple(r)
class Snap:
    def __init__(self, m, run=True):
        self.n = len(m)
        self.conf = m.conf()
        self.confs = [m.conf(i) for i in range(self.n)]
        self.text = str(m)
        names = sorted({c.get("name") for c in self.confs}); types = sorted({c.get("type") for c in self.confs})
        self.find = [(x, m.find(name=x)) for x in names], [(x, m.find(type=x)) for x in types]
        self.result = None
        if run:
            try:
                s = m.allocState(); r = m.propagate(s, observe=range(self.n))
                self.result = state(s), [(i, state(x)) for i, x in r]; pvh.count("simulated")
            except Exception as e: self.result = type(e).__name__
    def diff(self, o, conf=True):
        if self.n != o.n: return "%d and %d elements" % (self.n, o.n)
        if conf and canon(self.conf) != canon(o.conf): return "conf() is %s and %s" % (show(self.conf), show(o.conf))
        for i in range(self.n):
            if canon(self.confs[i]) != canon(o.confs[i]): return "conf(%d) is %s and %s" % (i, show(self.confs[i]), show(o.confs[i]))
        if self.find != o.find: return "find() gives %s and %s" % (self.find, o.find)
        if self.text != o.text: return "str() differs"
        if self.result != o.result: return "simulation results differ"
        return ""

# ------------------------------------------------------------------ the model of a lattice
class Lat:
    """globals: [(name, value)]; elements: [(name, type, [(prop, value)])]; line: indices"""
    def __init__(self, glob, elems, line): self.glob, self.elems, self.line = glob, elems, line
    def text(self, defs_last=False):
        def val(v):
            if isinstance(v, str): return '"%s"' % v
            if isinstance(v, np.ndarray): return "[%s]" % ", ".join(repr(float(x)) for x in v.ravel())
            return repr(float(v))
        g = ["%s = %s;" % (k, val(v)) for k, v in self.glob]
        e = ["%s: %s%s;" % (n, t, "".join(", %s = %s" % (k, val(v)) for k, v in p)) for n, t, p in self.elems]
        l = ["l: LINE = (%s);" % ", ".join(self.elems[i][0] for i in self.line), "USE: l;"]
        return "\n".join((e + l + g) if defs_last else (g + e + l)) + "\n"
    def own(self, i):
        n, t, p = self.elems[i]
        return dict(p, name=n, type=t)
    def dict(self):
        return dict(self.glob, name="l", elements=[self.own(i) for i in self.line])
    @staticmethod
    def norm(v):
        if isinstance(v, np.ndarray): return np.array(v, dtype=float).ravel()
        return v if isinstance(v, str) else float(v)
    def want(self):
        g = {k: self.norm(v) for k, v in self.glob}
        el = [{k: self.norm(v) for k, v in self.own(i).items()} for i in self.line]
        srt = lambda d: OrderedDict(sorted(d.items()))
        return srt(dict(g, name="l", elements=[srt(e) for e in el])), [srt(dict(g, **e)) for e in el]

def attempt(fn):
    try: return Snap(fn()), None
    except Exception as e: return None, e

def rev(d): return dict(reversed(list(d.items())))
def routes(lat, textual=True):
    d = lat.dict()
    yield "dict", lambda: flame.Machine(d)
    yield "list", lambda: flame.Machine(list(d.items()))
    yield "dict reversed", lambda: flame.Machine(rev(dict(d, elements=[rev(e) for e in d["elements"]])))
    yield "OrderedDict", lambda: flame.Machine(OrderedDict(sorted(d.items())))
    yield "elements first", lambda: flame.Machine([("elements", [list(e.items()) for e in d["elements"]])] + [x for x in d.items() if x[0] != "elements"])
    yield "elements as tuple", lambda: flame.Machine(dict(d, elements=tuple(d["elements"])))
    yield "conf()", lambda: flame.Machine(flame.Machine(d).conf())
    yield "base conf()", lambda: flame.Machine(I.Machine.conf(flame.Machine(d)))
    yield "conf() twice", lambda: flame.Machine(flame.Machine(flame.Machine(d).conf()).conf())
    yield "init again", lambda: again(d)
    if not textual: return
    t = lat.text()
    yield "text", lambda: flame.Machine(t.encode())
    yield "text, globals last", lambda: flame.Machine(lat.text(True).encode())
    yield "str", lambda: flame.Machine(t)
    yield "bytearray", lambda: flame.Machine(bytearray(t.encode()))
    yield "file", lambda: flame.Machine(io.BytesIO(t.encode()))
    yield "parsed", lambda: flame.Machine(P.parse(t))
    yield "parsed as dict", lambda: flame.Machine(dict(P.parse(t)))
    yield "parsed, all dict", lambda: flame.Machine({k: [dict(e) for e in v] if isinstance(v, list) else v for k, v in P.parse(t)})
    yield "printed", lambda: flame.Machine(flame.GLPSPrinter(P.parse(t)))
    yield "printed dict", lambda: flame.Machine(flame.GLPSPrinter(d).encode())
    yield "printed conf()", lambda: flame.Machine(flame.GLPSPrinter(flame.Machine(t).conf()))
    yield "extra", lambda: flame.Machine(Lat([g for g in lat.glob if isinstance(g[1], np.ndarray)], lat.elems, lat.line).text(), extra={k: v for k, v in lat.glob if not isinstance(v, np.ndarray)})
    yield "extra, parsed", lambda: flame.Machine(P.parse(Lat([g for g in lat.glob if isinstance(g[1], np.ndarray)], lat.elems, lat.line).text(), extra={k: v for k, v in lat.glob if not isinstance(v, np.ndarray)}))
def again(d):
    m = flame.Machine({"sim_type": "Vector", "K": 7.0, "elements": [{"name": "o", "type": "drift", "L": 9.0}] * 3}); m.propagate(m.allocState()); m.__init__(d); return m

def check(lat, ident, textual=True):
    if not pvh.turn(ident): return
    wc, we = lat.want()
    ref = err = None
    for rn, fn in routes(lat, textual):
        pvh.count("routes")
        s, e = attempt(fn)
        if rn == "dict":
            ref, err = s, e
            if s is not None:
                if canon(s.conf) != canon(wc): pvh.violation("conf", "conf() is %s instead of %s" % (show(s.conf), show(wc)), ident); return
                for i, w in enumerate(we):
                    if canon(s.confs[i]) != canon(w): pvh.violation("conf", "conf(%d) is %s instead of %s" % (i, show(s.confs[i]), show(w)), ident); return
            else: pvh.count("refused")
            continue
        if (s is None) != (ref is None):
            pvh.violation("route", "route '%s' %s where 'dict' %s" % (rn, "fails with %r" % e if s is None else "works", "fails with %r" % err if ref is None else "works"), ident); return
        if s is None: continue
        d = s.diff(ref)
        if d: pvh.violation("route", "routes '%s' and 'dict': %s" % (rn, d), ident); return
    pvh.count("lattices")

# ------------------------------------------------------------------ A: values
NUM = [0, 1, -1, 0.1, 1 / 3., -1.5, 1e300, 5e-324, 2**53 + 1.0, 1e-7, 123456789.125, 1e22, -0.0, True, np.float64(2.5), np.int32(7)]
STR = ["", "a", "x y", "\u00e9\u4e2d", "q" * 5000, "1.5", "[1]", "a;b#c", "tab\there"]
DSTR = ['q"q', "line\nbreak", "nul\0byte", "\0"]
VEC = [np.array(x) for x in ([], [1.], [1., 2.], [.1, -.2, 1e300], list(range(40)))] + [np.array([1, 2, 3]), np.array([True, False]), np.array([[1., 2.], [3., 4.]]), np.arange(6.)[::2], np.arange(6, dtype=">f8"), np.array(4.), np.arange(4, dtype=np.float32) / 3]
NAMES = ["A", "a_b:c", "d", "elementr", "elements_", "f", "name1", "z"]
D = ("d1", "drift", [("L", 1.0)])
def base(sim, glob, props=(), n=1):
    return Lat([("sim_type", sim)] + list(glob), [("d1", "drift", [("L", 1.0)] + list(props)), ("m", "marker", [])], [0, 1, 0][:n + 1])
for name in NAMES:
    for k, v in enumerate(NUM + STR + VEC + DSTR):
        tx = not (isinstance(v, str) and v in DSTR)
        for sim in ("Vector", "TransferMatrix", "MomentMatrix") if name in ("A", "z") else ("Vector",):
            if sim == "MomentMatrix" and pvh.tier == "quick" and k % 3: continue
            check(base(sim, [(name, v)]), "value %s %s global %d" % (sim, name, k), tx)
            check(base(sim, [], [(name, v)]), "value %s %s element %d" % (sim, name, k), tx)
            for k2, v2 in enumerate((NUM[4], STR[1], VEC[2])):
                check(base(sim, [(name, v)], [(name, v2)]), "value %s %s both %d %d" % (sim, name, k, k2), tx)
# ------------------------------------------------------------------ B: scopes
POOL = [("K", .25), ("A", "s"), ("skipcache", 1.0), ("z", np.array([1., 2.])), ("B", 3.0), ("f", 2.0)]
OVER = [[], [("K", .5)], [("z", 7.0)], [("A", "t"), ("skipcache", 0.0)], [("f", "w"), ("K", .75)]]
for n in range(4 if pvh.thorough() else 3 + 1):
    for gl in itertools.permutations(POOL, n):
        if not pvh.thorough() and n == 3 and POOL.index(gl[0]) > POOL.index(gl[1]): continue
        for o1 in range(len(OVER)):
            for o2 in range(len(OVER)) if n < 2 or pvh.thorough() else (0, o1):
                for simpos in (0, n):
                    g = list(gl); g.insert(simpos, ("sim_type", "Vector"))
                    check(Lat(g, [("q", "quadrupole", [("L", .5), ("K", 1.0)] + [x for x in OVER[o1] if x[0] != "K"]), ("p", "quadrupole", [("L", .25)] + OVER[o2]), ("d", "drift", [("L", 1.0)])], [0, 1, 2, 0]),
                          "scope %s %d %d %d" % (",".join(x[0] for x in gl), o1, o2, simpos))
# parameters which elements take from the globals, for every type
BEAM = [("IonEs", 931494320.0), ("IonEk", 500000.0), ("IonChargeStates", np.array([33 / 238., 34 / 238.])), ("NCharge", np.array([100., 70.])),
        ("moment00", np.array([1., 1e-3, -1., 1e-3, 1e-3, 1e-3, 1.])), ("moment01", np.array([.5, 1e-3, -1., 1e-3, 1e-3, 1e-3, 1.])),
        ("initial0", np.diag([1., 1e-6, 1., 1e-6, 1e-4, 1e-6, 0]).ravel()), ("initial1", np.diag([1., 1e-6, 2., 1e-6, 1e-4, 1e-6, 0]).ravel())]
SRC = ("src", "source", [("vector_variable", "moment0"), ("matrix_variable", "initial")])
KIND = [("drift", [("L", .3)]), ("quadrupole", [("L", .2), ("B2", 5.0)]), ("quadrupole", [("L", .2), ("B2", 5.0), ("dx", 1e-3), ("pitch", .01), ("yaw", .02), ("roll", .3)]), ("solenoid", [("L", .2), ("B", 3.0)]), ("sbend", [("L", .5), ("phi", 5.0), ("phi1", 1.0), ("phi2", 2.0), ("bg", .05)]),
        ("equad", [("L", .2), ("V", 1000.0), ("radius", .05)]), ("edipole", [("L", .4), ("phi", 10.0), ("beta", .03), ("fringe_x", 0.0), ("fringe_y", 0.0), ("spher", 0.0), ("asym_fac", 0.0)]), ("orbtrim", [("theta_x", 1e-3), ("theta_y", -1e-3)]), ("sextupole", [("L", .2), ("B3", 10.0), ("dstkick", 1.0)]), ("marker", []), ("stripper", [("charge_model", "off"), ("IonChargeStates", np.array([35 / 238.])), ("NCharge", np.array([1.]))]),
        ("tmatrix", [("matrix", np.eye(7).ravel())]), ("rfcavity", [("L", .24), ("cavtype", "0.041QWR"), ("f", 80.5e6), ("phi", 316.0), ("scl_fac", .64), ("Eng_Data_Dir", DATA)])]
for t, ps in KIND:
    for mask in range(1 << len(ps)):
        glob = [p for i, p in enumerate(ps) if mask >> i & 1 and p[0] not in ("IonChargeStates", "NCharge")]
        own = [p for p in ps if p not in glob]
        if t == "rfcavity" and pvh.tier == "quick" and bin(mask).count("1") not in (0, 1, 5): continue
        for pos in (0, 1) if pvh.thorough() or t != "rfcavity" else (1,):
            g = BEAM + [("sim_type", "MomentMatrix")]
            g = glob + g if pos == 0 else g + glob
            if len({k for k, _ in g}) != len(g): continue
            check(Lat(g, [SRC, ("e", t, own), ("d", "drift", [("L", .1)])], [0, 1, 2, 1]), "physics %s %d %d" % (t, mask, pos))
# ------------------------------------------------------------------ refused configurations are refused by every route
BAD = [("drift", [("L", "x")]), ("drift", []), ("nosuch", [("L", 1.0)]), ("quadrupole", [("L", 1.0)]), ("drift", [("L", np.array([1.]))]), ("generic", [("transfer", np.ones(35))]), ("generic", [("transfer", np.arange(36.))])]
for sim in ("Vector", "TransferMatrix", "MomentMatrix", "nosuch", ""):
    for t, p in BAD:
        for gl in ([], [("K", .3)], [("B2", 1.0)]): check(Lat([("sim_type", sim)] + gl, [("e", t, p)], [0]), "bad %s %s %s %s" % (sim, t, p and p[0], gl))
check(Lat([], [D], [0]), "no sim_type")

# ------------------------------------------------------------------ C: the shipped lattices
if True:
    d = os.path.dirname(DATA)
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".lat"): continue
        ident = "shipped " + fn
        if not pvh.turn(ident): continue
        with open(os.path.join(d, fn), "rb") as F:
            ref, e = attempt(lambda: flame.Machine(F))
        raw = open(os.path.join(d, fn), "rb").read()
        rt = [("bytes", lambda: flame.Machine(raw, path=d)), ("parsed", lambda: flame.Machine(P.parse(raw, path=d))), ("dict", lambda: flame.Machine(dict(P.parse(raw, path=d)))),
              ("printed", lambda: flame.Machine(flame.GLPSPrinter(P.parse(raw, path=d)))), ("conf", lambda: flame.Machine(flame.Machine(raw, path=d).conf())), ("parse file", lambda: flame.Machine(P.parse(open(os.path.join(d, fn), "rb"))))]
        for rn, f in rt:
            s, e2 = attempt(f); pvh.count("routes")
            if (s is None) != (ref is None): pvh.violation("route", "shipped lattice: route %s: %r, file: %r" % (rn, e2, e), ident)
            elif s is not None:
                df = s.diff(ref)
                if df: pvh.violation("route", "shipped lattice: route %s: %s" % (rn, df[:300]), ident)
        pvh.count("lattices")

# ------------------------------------------------------------------ D: extra definitions
TXT = ['d: drift, L=A; l: LINE=(d);', 'd: drift, L=2*A+1; l: LINE=(d,d);', 'd: drift, L=1, x=A; l: LINE=(d);', 'B=A; d: drift, L=1; l: LINE=(d);', 'A=3; d: drift, L=A; l: LINE=(d);', 'd: drift, L=A; A=3; l: LINE=(d);', 'd: drift, L=1, A="own"; l: LINE=(d);', 'd: drift, L=1; l: LINE=(d);', 'd: drift, L=1; A: LINE=(d);', 'A: drift, L=1; l: LINE=(A);', 'x=[1,A,2]; d: drift, L=1; l: LINE=(d);', 'd: drift, L=1, L=A; l: LINE=(d);', 'd: drift, L=1; l: LINE=(A*d);']
def lit(v): return '"%s"' % v if isinstance(v, str) else repr(float(v))
for ti, t in enumerate(TXT):
    for k, v in enumerate([1, 2.5, -1, 0.1, 3, True, "s", "", "1", np.float64(3), np.int8(4)]):
        for more in ({}, {"Z": 1.0}, {"sim": "x", "L": 3.0}):
            ident = "extra %d %d %s" % (ti, k, ",".join(more))
            if not pvh.turn(ident): continue
            ex = dict(more, A=v)
            t0 = 'sim_type="Vector"; ' + t
            t1 = "".join("%s = %s; " % (a, lit(b)) for a, b in sorted(ex.items())) + t0
            want, we = attempt(lambda: flame.Machine(t1))
            for rn, f in (("Machine", lambda: flame.Machine(t0, extra=ex)), ("Machine bytes", lambda: flame.Machine(t0.encode(), None, ex)), ("parse", lambda: flame.Machine(P.parse(t0, extra=ex))), ("file", lambda: flame.Machine(io.BytesIO(t0.encode()), extra=ex))):
                keep = dict(ex); s, e = attempt(f); pvh.count("routes"); pvh.count("extras")
                if ex != keep: pvh.violation("extra", "the dict of definitions is changed", ident)
                if (s is None) != (want is None): pvh.violation("extra", "%s with extra definitions: %r; with the definitions in front of the text: %r" % (rn, e or "works", we or "works"), ident)
                elif s is not None:
                    df = s.diff(want)
                    if df: pvh.violation("extra", "%s with extra definitions and with them in front of the text: %s" % (rn, df), ident)
            # definitions do not survive into the next parse
            s, e = attempt(lambda: flame.Machine(t0)); w, _ = attempt(lambda: flame.Machine(t0))
            if (s is None) != (w is None) or (s is not None and s.diff(w)): pvh.violation("extra", "definitions survive into the next parse", ident)

# ------------------------------------------------------------------ E: asking changes nothing; what is returned is independent
def scribble(v):
    if isinstance(v, np.ndarray):
        if v.size: v[...] = 99
    elif isinstance(v, dict):
        for x in list(v.values()): scribble(x)
        v.clear(); v["zzz"] = 1
    elif isinstance(v, list):
        for x in v: scribble(x)
        del v[:]
ASK = [("conf()", lambda m: m.conf()), ("base conf()", lambda m: I.Machine.conf(m)), ("conf(0)", lambda m: m.conf(0)), ("conf(last)", lambda m: m.conf(len(m) - 1)), ("allocState", lambda m: m.allocState()), ("allocState own", lambda m: m.allocState({"IonEk": 1.0}, inherit=True)), ("allocState {}", lambda m: m.allocState({})), ("str", str), ("find", lambda m: m.find()), ("print", lambda m: flame.GLPSPrinter(m.conf())), ("rebuild", lambda m: flame.Machine(m.conf()))]
MACH = [Lat([("sim_type", "Vector"), ("K", .3), ("v", np.array([1., 2.])), ("s", "x")], [("d", "drift", [("L", 1.0), ("v", np.array([3.]))]), ("q", "quadrupole", [("L", .2)])], [0, 1, 0]),
        Lat(BEAM + [("sim_type", "MomentMatrix"), ("skipcache", 0.0)], [SRC, ("q", "quadrupole", [("L", .2), ("B2", 5.0)])], [0, 1])]
for mi, lat in enumerate(MACH):
    for depth in (1, 2, 3) if pvh.thorough() else (1, 2):
        for seq in itertools.product(ASK, repeat=depth):
            ident = "ask %d %s" % (mi, " ".join(x[0] for x in seq))
            if not pvh.turn(ident): continue
            d = lat.dict(); keep = canon(d)
            m = flame.Machine(d); ref = Snap(m)
            if canon(d) != keep: pvh.violation("argument", "the dictionary a machine is made from is changed", ident)
            scribble(d)
            for n, f in seq:
                r = f(m); pvh.count("asked")
                if not isinstance(r, (str, flame.Machine)) and not isinstance(r, I.State): scribble(r)
                elif isinstance(r, I.State):
                    for a in r:
                        try: setattr(r, a, getattr(r, a) * 0 + 5)
                        except Exception: pass
            df = Snap(m).diff(ref)
            if df: pvh.violation("asking", "the machine is changed: %s" % df, ident)

# ------------------------------------------------------------------ F: where relative names are looked up
tmp = tempfile.mkdtemp(dir=pvh.directory)
tmp = os.path.realpath(tmp)
old = os.getcwd()
try:
    for sub in ("a", "b", "a/c", "\u00e9 x"):
        os.mkdir(os.path.join(tmp, sub))
        for f in ("data.txt", "x.lat"):
            with open(os.path.join(tmp, sub, f), "w") as F: F.write('sim_type="Vector"; f=file("data.txt"); u=dir("."); d: drift, L=1, g=file("./data.txt"); l: LINE=(d);')
    NAMED = [("abs", lambda s: os.path.join(tmp, s, "x.lat")), ("rel", lambda s: os.path.relpath(os.path.join(tmp, s, "x.lat"))), ("bytes", lambda s: os.fsencode(os.path.join(tmp, s, "x.lat"))), ("rel bytes", lambda s: os.fsencode(os.path.relpath(os.path.join(tmp, s, "x.lat"))))]
    txt = open(os.path.join(tmp, "a/x.lat"), "rb").read()
    def verify(m, where, ident):
        w = os.path.join(tmp, where)
        got = m.conf()["f"], m.conf()["u"], m.conf(0)["g"], m.conf(0)["f"]
        want = (w + "/data.txt", w, w + "/data.txt", w + "/data.txt")
        pvh.count("paths")
        if got != want: pvh.violation("path", "names are expanded to %s instead of %s" % (got, want), ident)
    for cwd in ("a", "b", "a/c", "\u00e9 x"):
        os.chdir(os.path.join(tmp, cwd))
        for where in ("a", "b", "a/c", "\u00e9 x"):
            for nm, f in NAMED:
                for prs in (lambda F, **k: flame.Machine(F, **k), lambda F, **k: flame.Machine(P.parse(F, **k))):
                    ident = "path %s %s %s" % (cwd, where, nm)
                    if not pvh.turn(ident): continue
                    try:
                        with open(f(where), "rb") as F: verify(prs(F), where, ident)
                        with open(f(where), "rb") as F: verify(prs(F, path=os.path.join(tmp, "b")), "b", ident + " path given")
                        with open(f(where), "rb") as F: verify(prs(F.read(), path=os.path.join(tmp, where)), where, ident + " bytes with path")
                        verify(prs(txt, path=os.path.relpath(os.path.join(tmp, where))), where, ident + " relative path")
                    except Exception as e: pvh.violation("path", "%r" % e, ident)
        for nm, f in (("bytes", lambda: txt), ("str", lambda: txt.decode()), ("BytesIO", lambda: io.BytesIO(txt)), ("unnamed", lambda: io.FileIO(os.open(os.path.join(tmp, "b", "x.lat"), os.O_RDONLY)))):
            ident = "path %s no name %s" % (cwd, nm)
            if not pvh.turn(ident): continue
            try: verify(flame.Machine(f()), cwd, ident)
            except Exception as e: pvh.violation("path", "%r" % e, ident)
    os.chdir(old)
    # nested lattices: same through text and data, at every depth
    with open(os.path.join(tmp, "inner.lat"), "w") as F: F.write('k=3; v=[1,2]; s="t"; i: drift, L=k; il: LINE=(i,i);')
    with open(os.path.join(tmp, "outer.lat"), "w") as F: F.write('n=parse("inner.lat"); o: drift, L=2; ol: LINE=(o);')
    for nm in ("inner", "outer"):
        for var in ("a", "z"):
            ident = "nested %s %s" % (nm, var)
            if not pvh.turn(ident): continue
            t = '%s=parse("%s.lat"); sim_type="Vector"; d: drift, L=1; l: LINE=(d,d);' % (var, nm)
            m = flame.Machine(t, path=tmp); ref = Snap(m)
            def alldict(v): return [alldict(x) if isinstance(x, dict) else "not a dict" for x in v] if isinstance(v, list) else OrderedDict((k, alldict(x)) for k, x in v.items()) if isinstance(v, dict) else v
            if canon(alldict(ref.conf)) != canon(ref.conf): pvh.violation("nested", "nested configurations are not dictionaries at every depth: %s" % show(ref.conf), ident)
            for rn, f in (("parsed", lambda: flame.Machine(P.parse(t, path=tmp))), ("conf", lambda: flame.Machine(m.conf()))):
                s, e = attempt(f); pvh.count("routes")
                if s is None: pvh.violation("nested", "route %s: %r" % (rn, e), ident)
                else:
                    df = s.diff(ref)
                    if df: pvh.violation("nested", "route %s: %s" % (rn, df), ident)
finally:
    os.chdir(old)
    shutil.rmtree(tmp)

# ------------------------------------------------------------------ G: reconfigure and allocState with dictionaries
NEW = [("L", 2.0), ("L", 3), ("v", np.array([5., 6.])), ("v", "str"), ("s", 4.0), ("new", "n"), ("K", .75), ("name", "other"), ("L", "bad"), ("type", "drift"), ("list", [{"a": 1.0}])]
for r1 in range(len(NEW)):
    for r2 in range(len(NEW)):
        for which in (0, 1):
            ident = "reconfigure %d %d %d" % (r1, r2, which)
            if not pvh.turn(ident): continue
            lat = MACH[0]; m = flame.Machine(lat.dict()); conf = [dict(c) for c in lat.want()[1]]; top = canon(m.conf())
            for r in (r1, r2):
                k, v = NEW[r]
                try: m.reconfigure(which, {k: v}); ok = True
                except Exception: ok = False
                pvh.count("reconfigured")
                if ok: conf[which][k] = v if isinstance(v, (str, list)) else Lat.norm(v)
                for i in range(len(m)):
                    w = canon(OrderedDict(sorted(conf[i].items())))
                    if canon(m.conf(i)) != w: pvh.violation("reconfigure", "conf(%d) is %s instead of %s" % (i, show(m.conf(i)), show(conf[i])), ident); break
                if canon(m.conf()) != top: pvh.violation("reconfigure", "conf() changes", ident)
AS = [("IonEk", 1e6), ("cstate", 0), ("cstate", 1), ("moment00", np.array([0., 0, 0, 0, 0, 0, 1])), ("IonChargeStates", np.array([.2, .3])), ("NCharge", np.array([3., 4.]))]
for n in range(len(AS) + 1 if pvh.thorough() else 4):
    for sel in itertools.permutations(range(len(AS)), n):
        if 1 in sel and 2 in sel: continue
        ident = "allocState %s" % (sel,)
        if not pvh.turn(ident): continue
        m = flame.Machine(dict(BEAM, sim_type="MomentMatrix", vector_variable="moment0", matrix_variable="initial", elements=[]))
        upd = OrderedDict(AS[i] for i in sel)
        whole = dict(BEAM, vector_variable="moment0", matrix_variable="initial"); whole.update(upd)
        def al(f):
            try: return state(f())
            except Exception as e: return type(e).__name__
        a = al(lambda: m.allocState(upd, inherit=True)); b = al(lambda: m.allocState(whole)); c = al(lambda: flame.Machine(dict(whole, sim_type="MomentMatrix", elements=[])).allocState())
        pvh.count("allocated")
        if not a == b == c: pvh.violation("allocState", "a state with inherited settings, one with all settings given, and one of a machine with these settings differ", ident)
pvh.sample("globals K=0.25, skipcache=1, z=[1,2]; quadrupoles with and without own values, 22 routes")
pvh.finish()
sys.stdout.flush()
