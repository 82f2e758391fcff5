"""C17: every call of the Python API over an alphabet of arguments, then pairs of calls.
Each call must return or raise an ordinary exception, leave the objects usable, and (leak mode) not leak."""
import pvh, sys, gc, weakref, copy, pickle, io, math, os, threading, logging, ctypes
import numpy as np
import flame
from flame import _internal as I

pvh.init()
DATA = pvh.opts["data"]
LEAK = pvh.opts.get("mode") == "leak"
logging.getLogger(flame.getLoggerName()).addHandler(logging.NullHandler())
logging.getLogger(flame.getLoggerName()).propagate = False

# ------------------------------------------------------------------ machines and states
BEAM = dict(IonEs=931494320.0, IonEk=500000.0, IonChargeStates=np.array([33 / 238., 34 / 238.]), NCharge=np.array([100., 70.]),
            moment00=np.array([1., 1e-3, -1., 1e-3, 1e-3, 1e-3, 1.]), moment01=np.array([.5, 1e-3, -1., 1e-3, 1e-3, 1e-3, 1.]),
            initial0=np.eye(7).ravel(), initial1=np.eye(7).ravel())
def conf(kind):
    if kind == "moment":
        return dict(BEAM, sim_type="MomentMatrix", elements=[
            dict(name="src", type="source", vector_variable="moment0", matrix_variable="initial"),
            dict(name="d", type="drift", L=0.2), dict(name="q", type="quadrupole", L=0.1, B2=2.0), dict(name="d", type="drift", L=0.3)])
    if kind == "stripper":
        return dict(BEAM, sim_type="MomentMatrix", elements=[
            dict(name="src", type="source", vector_variable="moment0", matrix_variable="initial"),
            dict(name="s", type="stripper", IonChargeStates=np.array([76 / 238., 77 / 238., 78 / 238.]), NCharge=np.array([1., 2., 3.])),
            dict(name="d", type="drift", L=0.2)])
    if kind == "vector":
        return dict(sim_type="Vector", initial=np.arange(6.), elements=[dict(name="d", type="drift", L=1.0), dict(name="q", type="quadrupole", L=1.0, K=0.1)])
    if kind == "matrix":
        return dict(sim_type="TransferMatrix", initial=np.eye(6).ravel(), elements=[dict(name="d", type="drift", L=1.0)])
    if kind == "empty":
        return dict(sim_type="MomentMatrix", elements=[])
MK = ["moment", "stripper", "vector", "matrix", "empty"]
def machine(kind):
    if kind == "new": return flame.Machine.__new__(flame.Machine)
    if kind == "basenew": return I.Machine.__new__(I.Machine)
    return flame.Machine(conf(kind))
def state(kind):
    m = flame.Machine(conf(kind.split("+")[0]))
    s = m.allocState({} if kind.endswith("+bare") else None)
    if kind.endswith("+run"): m.propagate(s)
    if kind.endswith("+seen"):
        r = m.propagate(s, observe=range(len(m)))
        if r: s = r[-1][1]
    if kind.endswith("+clone"): s = s.clone()
    return s
SK = [k + x for k in MK for x in ("", "+run", "+bare", "+seen", "+clone")]
def snap(s):
    r = []
    for n in s:
        v = getattr(s, n)
        r.append((n, v.tobytes() + str(v.shape).encode() if isinstance(v, np.ndarray) else repr(v)))
    return r
def result(m):
    s = m.allocState()
    m.propagate(s)
    return str(m), repr(m.conf()), [repr(m.conf(i)) for i in range(len(m))], snap(s)
REF = {k: result(machine(k)) for k in MK}

# ------------------------------------------------------------------ arguments
class Boom(Exception):
    made = 0
    def __init__(self, *a): Boom.made += 1
def boom(*a, **k): raise Boom()
ctx = {}    # the machine and state of the current case, for arguments that call back
class BadIndex: __index__ = boom
class BadFloat: __float__ = boom
class BadInt: __int__ = boom
class BadBool: __bool__ = boom
class BadIter: __iter__ = boom
class BadLen:
    __len__ = boom
    def __getitem__(self, i): return {}
class NegLen:
    def __len__(self): return -5
    def __getitem__(self, i): return {}
class HugeLen:
    def __len__(self): return 2**62
    def __getitem__(self, i): raise IndexError
class BadItems(dict):
    items = boom
class OddItems(dict):
    def items(self): return [1, 2]
class BadStr(str): pass
class MyInt(int): pass
class MyFloat(float): pass
class IndexOnly:
    def __index__(self): return 1
class FloatOnly:
    def __float__(self): return 1.5
class BadArray:
    def __array__(self, *a, **k): raise Boom()
class BadNext:
    def __iter__(self): return self
    def __next__(self): raise Boom()
def gen(*vals, end=None):
    for v in vals: yield v
    if end: raise end() if isinstance(end, type) else end
class IterList(list):
    """iterating raises, at the start or after all items"""
    def __init__(self, v, late=False): list.__init__(self, v); self.late = late
    def __iter__(self):
        if not self.late: raise Boom()
        return gen(*[self[i] for i in range(len(self))], end=Boom)
class GetList(list):
    def __getitem__(self, i): raise Boom()
class ItemsDict(dict):
    def __init__(self, v, late): dict.__init__(self, v); self.late = late
    def items(self): return IterList([("L", 2.0)], self.late)
def items(v, **k): return IterList(list(v.items()), **k)
class Reenter:
    """converting this uses the machine and state being worked on"""
    def __init__(self, what): self.what = what
    def go(self):
        m, s = ctx.get("m"), ctx.get("s")
        try:
            if self.what == "init" and m is not None: m.__init__(conf("stripper"))
            elif self.what == "run" and m is not None and s is not None: m.propagate(s)
            elif self.what == "strip" and s is not None: flame.Machine(conf("stripper")).propagate(s)
            elif self.what == "reconf" and m is not None: m.reconfigure(0, {"L": 0.1})
            elif self.what == "gc": gc.collect()
            elif self.what == "dict": ctx["dict"].clear()
        except Boom: raise
        except Exception: pass
    def __index__(self): self.go(); return 1
    def __float__(self): self.go(); return 1.0
    def __bool__(self): self.go(); return True
    def __iter__(self): self.go(); return iter([0])
    def __array__(self, *a, **k): self.go(); return np.ones(2)
def selfdict():
    d = {}; ctx["dict"] = d; d["a"] = Reenter("dict"); d["b"] = 1e300; return d
def loop():
    l = []; l.append(("a", l)); return l
def dloop():
    d = {}; d["a"] = [d]; return d
def deep(n):
    d = {"x": 1}
    for _ in range(n): d = {"a": [d]}
    return d
class File:
    def __init__(self, data, **k):
        self.data = data; self.__dict__.update(k)
    def read(self):
        if isinstance(self.data, Exception): raise self.data
        return self.data
class FileBadName(File):
    @property
    def name(self): raise Boom()
LAT = b'sim_type="Vector"; initial=[0,0,0,0,0,0]; d: drift, L=1; l: LINE=(d,d); USE: l;'
# name -> factory, in a fixed order
ARGS = {
 "None": lambda: None, "0": lambda: 0, "1": lambda: 1, "-1": lambda: -1, "3": lambda: 3, "10**6": lambda: 10**6, "2**31": lambda: 2**31, "2**32": lambda: 2**32,
 "2**63-1": lambda: 2**63 - 1, "2**63": lambda: 2**63, "2**64": lambda: 2**64, "-2**63": lambda: -2**63, "-2**31": lambda: -2**31, "10**400": lambda: 10**400,
 "True": lambda: True, "1.5": lambda: 1.5, "-1.5": lambda: -1.5, "nan": lambda: math.nan, "inf": lambda: math.inf, "1e30": lambda: 1e30, "1j": lambda: 1j,
 "''": lambda: "", "'d'": lambda: "d", "'x\\0y'": lambda: "x\0y", "surrogate": lambda: "\ud800", "unicode": lambda: "\u00e9\U0001f600", "longstr": lambda: "x" * 100000,
 "b''": lambda: b"", "b'd'": lambda: b"d", "b'\\xff'": lambda: b"\xff\x00", "lattice": lambda: LAT, "lattice str": lambda: LAT.decode(), "bad lattice": lambda: b"x=;", "bytearray": lambda: bytearray(LAT),
 "memoryview": lambda: memoryview(LAT), "strided view": lambda: memoryview(LAT)[::2], "float view": lambda: memoryview(np.ones(3)),
 "[]": lambda: [], "()": lambda: (), "{}": lambda: {}, "[1]": lambda: [1], "[()]": lambda: [()], "[('a',)]": lambda: [("a",)], "[('a',1)]": lambda: [("a", 1)],
 "[('a',1,2)]": lambda: [("a", 1, 2)], "[(1,2)]": lambda: [(1, 2)], "[['a',1]]": lambda: [["a", 1]], "[0,1,2]": lambda: [0, 1, 2], "[0,0]": lambda: [0, 0], "[99]": lambda: [99], "[-1]": lambda: [-1], "['0']": lambda: ["0"], "[None]": lambda: [None],
 "{'a':1}": lambda: {"a": 1}, "{'L':2}": lambda: {"L": 2.0}, "{'L':'x'}": lambda: {"L": "x"}, "{'type':'marker'}": lambda: {"type": "marker"}, "{'name':'z'}": lambda: {"name": "z"}, "{1:2}": lambda: {1: 2}, "{'a':[1]}": lambda: {"a": [1]}, "{'a':None}": lambda: {"a": None}, "{'a':{}}": lambda: {"a": {}},
 "{'a':'s'}": lambda: {"a": "s"}, "{'a\\0':1}": lambda: {"a\0b": 1}, "{surrogate}": lambda: {"\ud800": 1}, "{:surrogate}": lambda: {"a": "\ud800"}, "{'a':1j}": lambda: {"a": 1j}, "{'a':10**400}": lambda: {"a": 10**400}, "{'':1}": lambda: {"": 1},
 "{'a':array}": lambda: {"a": np.ones(3)}, "{'a':array3}": lambda: {"a": np.ones((2, 2, 2))}, "{'a':cplx}": lambda: {"a": np.ones(2, complex)}, "{'a':strs}": lambda: {"a": np.array(["x"])}, "{'a':objs}": lambda: {"a": np.array([BadFloat()], dtype=object)}, "{'a':b}": lambda: {"a": b"xyz"},
 "{'a':bad}": lambda: {"a": BadFloat()}, "{'a':badlen}": lambda: {"a": BadLen()}, "{'a':neglen}": lambda: {"a": NegLen()}, "{'a':hugelen}": lambda: {"a": HugeLen()},
 "deep3": lambda: deep(3), "deep4": lambda: deep(4), "deep9": lambda: deep(9), "loop": loop, "dloop": dloop, "selfdict": selfdict,
 "array": lambda: np.arange(2.), "array7": lambda: np.arange(7.), "array77": lambda: np.arange(49.).reshape(7, 7), "array772": lambda: np.arange(98.).reshape(7, 7, 2), "array72": lambda: np.arange(14.).reshape(7, 2), "array27": lambda: np.arange(14.).reshape(2, 7).T, "array66": lambda: np.eye(6), "array6": lambda: np.arange(6), "array0": lambda: np.array(3.), "empty array": lambda: np.zeros(0), "array 0x7": lambda: np.zeros((7, 0)), "4d": lambda: np.ones((1, 1, 1, 1)), "objarray": lambda: np.array([None, 1], dtype=object), "strarray": lambda: np.array(["a", "b"]), "cplxarray": lambda: np.ones(2, complex), "int8": lambda: np.ones(2, np.int8), "bigendian": lambda: np.arange(2, dtype=">f8"), "bools": lambda: np.array([True, False]), "lists": lambda: [[1, 2], [3]], "float32": lambda: np.float32(1), "float64": lambda: np.float64(1), "int64": lambda: np.int64(1), "nested": lambda: [[float(i * 7 + j) for j in range(7)] for i in range(7)],
 "object": lambda: object(), "type": lambda: type("T", (), {}), "State type": lambda: I.State, "Machine type": lambda: flame.Machine, "lambda": lambda: (lambda: 0), "module": lambda: sys, "Ellipsis": lambda: Ellipsis, "set": lambda: {1, 2}, "range": lambda: range(3), "bigrange": lambda: range(2**40),
 "gen": lambda: gen(0, 1), "gen raising": lambda: gen(0, end=Boom()), "gen bad": lambda: gen("x"), "BadIndex": BadIndex, "BadFloat": BadFloat, "BadInt": BadInt, "BadBool": BadBool, "BadIter": BadIter, "BadLen": BadLen, "NegLen": NegLen, "BadNext": BadNext, "BadArray": BadArray, "BadItems": lambda: BadItems(a=1), "OddItems": lambda: OddItems(a=1), "BadStr": lambda: BadStr("d"), "MyInt": lambda: MyInt(1), "MyFloat": lambda: MyFloat(1.5), "IndexOnly": IndexOnly, "FloatOnly": FloatOnly,
 "iterlist": lambda: IterList([("L", 2.0)]), "iterlist late": lambda: IterList([("L", 2.0)], late=True), "iterlist elements": lambda: {"a": [IterList([("x", 1.0)], late=True)]}, "items dict": lambda: ItemsDict({}, False), "items dict late": lambda: ItemsDict({}, True), "getlist": lambda: {"a": GetList([{}])},
 "conf late": lambda: items(conf("vector"), late=True), "conf element late": lambda: dict(conf("vector"), elements=[items({"name": "d", "type": "drift", "L": 1.0}, late=True)]), "conf elements get": lambda: dict(conf("vector"), elements=GetList([{"name": "d", "type": "drift", "L": 1.0}])),
 "R init": lambda: Reenter("init"), "R run": lambda: Reenter("run"), "R strip": lambda: Reenter("strip"), "R reconf": lambda: Reenter("reconf"), "R gc": lambda: Reenter("gc"), "[R init]": lambda: [Reenter("init")], "[R run]": lambda: [Reenter("run")], "{L:R init}": lambda: {"L": Reenter("init")}, "{a:R strip}": lambda: {"a": Reenter("strip")},
 "file": lambda: File(LAT), "file str": lambda: File(LAT.decode()), "file None": lambda: File(None), "file raises": lambda: File(Boom()), "file name": lambda: File(LAT, name=os.path.join(DATA, "x.lat")), "file name 3": lambda: File(LAT, name=3), "file name None": lambda: File(LAT, name=None), "file name bytes": lambda: File(LAT, name=b"/tmp/x"), "file bad name": lambda: FileBadName(LAT), "file no dir": lambda: File(LAT, name="/nonexistent/x"), "file cwd": lambda: File(LAT, name="x.lat"),
 "BytesIO": lambda: io.BytesIO(LAT), "StringIO": lambda: io.StringIO(LAT.decode()),
 "moment conf": lambda: conf("moment"), "vector conf": lambda: conf("vector"), "items": lambda: list(conf("vector").items()), "no sim_type": lambda: {"elements": []}, "no elements": lambda: {"sim_type": "Vector"}, "bad sim_type": lambda: {"sim_type": "nope", "elements": []}, "bad element": lambda: {"sim_type": "Vector", "elements": [{"name": "x", "type": "nope"}]}, "no name": lambda: {"sim_type": "Vector", "elements": [{"type": "drift"}]}, "elements 1": lambda: {"sim_type": "Vector", "elements": 1}, "sim_type 1": lambda: {"sim_type": 1, "elements": []}, "L str": lambda: {"sim_type": "Vector", "elements": [{"name": "x", "type": "drift", "L": "x"}]},
 "this machine": lambda: ctx.get("m"), "this state": lambda: ctx.get("s"), "other state": lambda: state("vector"), "moment state": lambda: state("moment"), "matrix state": lambda: state("matrix"), "new machine": lambda: machine("new"),
}
CORE = ["None", "0", "1", "-1", "2**31", "2**64", "1.5", "nan", "'d'", "surrogate", "b''", "lattice", "[]", "{}", "[1]", "[('a',1)]", "[0,1,2]", "{'L':2}", "{'a':[1]}", "array", "array7", "array772", "object", "gen raising", "BadIndex", "BadBool", "BadItems", "R init", "[R init]", "this state", "other state", "vector conf"]
if pvh.thorough(): CORE = CORE + ["True", "inf", "''", "b'\\xff'", "file name", "deep4", "loop", "strided view", "BadIter", "BadLen", "R strip", "R run", "range", "moment conf", "float64", "{'type':'marker'}"]

OK_EXC = Exception
def call(fn, ident, raising):
    """run fn; True if it raised"""
    try:
        fn()
    except SystemError as e:
        pvh.violation("systemerror", "a call breaks the interpreter's rules: %s" % e, ident); return True
    except Exception as e:
        pvh.count("raised"); raising.append(e); return True
    except BaseException as e:
        pvh.violation("exception", "a call raises %s" % type(e), ident); return True
    return False

class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
if LEAK:
    libc = ctypes.CDLL(None); libc.mallinfo2.restype = Mallinfo
    def used():
        sys._clear_type_cache()  # holds attribute names
        i = libc.mallinfo2(); return i.uordblks + i.hblkhd
else:
    def used(): return 0

def leaktest(fn, ident, objs):
    """fn makes its own objects and drops them"""
    def once():
        try: fn()
        except Exception: pass
    for _ in range(3): once()
    worst = None
    # the interpreter keeps some freed objects, up to a few hundred: only growth which goes on is a leak
    for attempt, N in enumerate((12, 12, 300, 100, 300)):
        before = used(), [sys.getrefcount(o) for o in objs]
        for _ in range(N): once()
        if attempt: gc.collect()
        after = used(), [sys.getrefcount(o) for o in objs]
        grow = after[0] - before[0]
        refs = [b - a for a, b in zip(before[1], after[1])]
        if grow < N * 16 and all(abs(r) < N for r in refs): return
        if attempt == 0: gc.collect()
        worst = grow, refs
    pvh.violation("leak", "%d bytes leaked by %d calls, reference counts changed by %s" % (worst[0], N, worst[1]), ident)

def tail_ok(m, mk, s, ident, changed_ok=True):
    """machine and state must remain usable"""
    try:
        if m is not None:
            len(m), str(m), m.conf(), m.find()
            t = m.allocState(); m.propagate(t)
            if not changed_ok and mk in REF and result(m) != REF[mk]:
                pvh.violation("changed", "a refused call changed the machine", ident)
        if s is not None:
            str(s), len(s), s.clone(), s.show(2)
            snap(s)
    except Exception as e:
        pvh.violation("unusable", "the object is unusable afterwards: %r" % e, ident)

# ------------------------------------------------------------------ calls: name -> (needs, fn(m, s, args))
def m1(name): return lambda m, s, a: getattr(m, name)(*a)
CALLS1 = {  # one argument
 "Machine(a)": lambda m, s, a: flame.Machine(a), "Machine(a,'/')": lambda m, s, a: flame.Machine(a, path="/"), "Machine(LAT,path=a)": lambda m, s, a: flame.Machine(LAT, path=a), "Machine(LAT,extra=a)": lambda m, s, a: flame.Machine(LAT, extra=a), "Machine(LAT,bogus=a)": lambda m, s, a: flame.Machine(LAT, bogus=a),
 "parse(a)": lambda m, s, a: flame.GLPSParser().parse(a), "parse(LAT,extra=a)": lambda m, s, a: flame.GLPSParser().parse(LAT, extra=a), "parse(LAT,path=a)": lambda m, s, a: flame.GLPSParser().parse(LAT, path=a),
 "GLPSPrinter(a)": lambda m, s, a: flame.GLPSPrinter(a), "_GLPSParse(a)": lambda m, s, a: I._GLPSParse(a), "getLoggerName(a)": lambda m, s, a: I.getLoggerName(a),
 "m.__init__(a)": lambda m, s, a: m.__init__(a), "m.conf(a)": lambda m, s, a: m.conf(a), "m.conf(index=a)": lambda m, s, a: m.conf(index=a), "base conf(a)": lambda m, s, a: I.Machine.conf(m, a),
 "m.allocState(a)": lambda m, s, a: m.allocState(a), "m.allocState({},a)": lambda m, s, a: m.allocState({}, a), "m.allocState({'a':1},inherit=a)": lambda m, s, a: m.allocState({"a": 1}, inherit=a),
 "m.propagate(a)": lambda m, s, a: m.propagate(a), "m.propagate(s,a)": lambda m, s, a: m.propagate(s, a), "m.propagate(s,max=a)": lambda m, s, a: m.propagate(s, max=a), "m.propagate(s,observe=a)": lambda m, s, a: m.propagate(s, observe=a), "m.propagate(s,len,a)": lambda m, s, a: m.propagate(s, 1, a),
 "m.reconfigure(a,{})": lambda m, s, a: m.reconfigure(a, {"L": 1.0}), "m.reconfigure(0,a)": lambda m, s, a: m.reconfigure(0, a), "m.reconfigure(1,a)": lambda m, s, a: m.reconfigure(1, a), "m.reconfigure(0,a,True)": lambda m, s, a: m.reconfigure(0, a, True), "m.reconfigure(0,{},replace=a)": lambda m, s, a: m.reconfigure(0, {"name": "d", "type": "drift", "L": 1.0}, replace=a),
 "m.find(a)": lambda m, s, a: m.find(a), "m.find(type=a)": lambda m, s, a: m.find(type=a), "m.find(a,'x')": lambda m, s, a: m.find(a, "x"),
 "m.x=a": lambda m, s, a: setattr(m, "x", a), "m==a": lambda m, s, a: m == a, "m[a]": lambda m, s, a: m[a], "a in m": lambda m, s, a: a in m, "super init": lambda m, s, a: I.Machine.__init__(m, a), "Machine.__init__(a)": lambda m, s, a: I.Machine.__init__(a, LAT), "State.clone(a)": lambda m, s, a: I.State.clone(a), "Machine.conf(a)": lambda m, s, a: I.Machine.conf(a),
 "s.show(a)": lambda m, s, a: s.show(a), "s.clone(a)": lambda m, s, a: s.clone(a), "s.own=a": lambda m, s, a: setattr(s, "own", a), "s==a": lambda m, s, a: s == a, "s[a]": lambda m, s, a: s[a], "a in s": lambda m, s, a: a in s, "getattr(s,a)": lambda m, s, a: getattr(s, a), "setattr(s,a,1)": lambda m, s, a: setattr(s, a, 1), "delattr(s,a)": lambda m, s, a: delattr(s, a), "s.__class__=a": lambda m, s, a: setattr(s, "__class__", a), "s.__dict__=a": lambda m, s, a: setattr(s, "__dict__", a), "State(a)": lambda m, s, a: I.State(a), "sub State(a)": lambda m, s, a: type("S", (I.State,), {})(a),
}
CALLS0 = {
 "len(m)": lambda m, s: len(m), "str(m)": lambda m, s: str(m), "repr(m)": lambda m, s: repr(m), "m.conf()": lambda m, s: m.conf(), "m.allocState()": lambda m, s: m.allocState(), "m.find()": lambda m, s: m.find(), "m.propagate()": lambda m, s: m.propagate(), "m.propagate(s)": lambda m, s: m.propagate(s), "m.propagate(s,observe=range)": lambda m, s: m.propagate(s, observe=range(len(m))), "m.propagate back": lambda m, s: m.propagate(s, len(m) - 1, -2) if len(m) else None, "m.reconfigure()": lambda m, s: m.reconfigure(), "m.__init__()": lambda m, s: m.__init__(), "dir(m)": lambda m, s: dir(m), "iter(m)": lambda m, s: list(m), "copy m": lambda m, s: copy.copy(m), "deepcopy m": lambda m, s: copy.deepcopy(m), "pickle m": lambda m, s: pickle.dumps(m), "bool(m)": lambda m, s: bool(m), "hash(m)": lambda m, s: hash(m), "weak m": lambda m, s: weakref.ref(m)(), "m.__sizeof__": lambda m, s: m.__sizeof__(),
 "len(s)": lambda m, s: len(s), "str(s)": lambda m, s: str(s), "repr(s)": lambda m, s: repr(s), "iter(s)": lambda m, s: list(s), "s.clone()": lambda m, s: s.clone(), "s.show()": lambda m, s: s.show(), "dir(s)": lambda m, s: dir(s), "copy s": lambda m, s: copy.copy(s), "deepcopy s": lambda m, s: copy.deepcopy(s), "pickle s": lambda m, s: pickle.dumps(s), "hash(s)": lambda m, s: hash(s), "weak s": lambda m, s: weakref.ref(s)(), "bool(s)": lambda m, s: bool(s), "cycle s": lambda m, s: setattr(s, "me", s), "getattrs": lambda m, s: [getattr(s, n) for n in s], "vars(s)": lambda m, s: vars(s),
 "GLPSPrinter()": lambda m, s: flame.GLPSPrinter(), "parse()": lambda m, s: flame.GLPSParser().parse(), "Machine()": lambda m, s: flame.Machine(), "getLoggerName": lambda m, s: flame.getLoggerName(), "setLogLevel": lambda m, s: flame.setLogLevel(30), "Machine.__new__()": lambda m, s: flame.Machine.__new__(), "State()": lambda m, s: I.State(),
}
HARMLESS = ("m.__init__", "super init", "Machine.__init__", "m.reconfigure")  # refused calls of these must leave the machine as it was
def evaluate(cn, an, mk, sk):
    """one call on fresh objects"""
    ident = "call %s | %s | %s | %s" % (cn, an, mk, sk)
    if not pvh.turn(ident): return
    pvh.count("calls")
    reenters = an is not None and ("R " in an or an == "selfdict")
    def setup():
        m, s = machine(mk), state(sk)
        ctx["m"], ctx["s"] = m, s
        return m, s
    if LEAK:
        if reenters or an in ("type",) or "sub State" in cn: return
        m, s = setup()
        const = {}
        def fn():
            if an is None: CALLS0[cn](m, s)
            else: CALLS1[cn](m, s, ARGS[an]())
        # objects that live on would be kept by these calls on purpose
        if cn in ("m.x=a", "s.own=a", "cycle s", "s.__dict__=a", "setattr(s,a,1)"): return
        leaktest(fn, ident, [m, s, type(m), I.State, np.ndarray, object, int, float])
        ctx.clear(); return
    m, s = setup()
    before = snap(s)
    exc = []
    if an is None: raised = call(lambda: CALLS0[cn](m, s), ident, exc)
    else:
        a = ARGS[an]()
        made = Boom.made
        raised = call(lambda: CALLS1[cn](m, s, a), ident, exc)
        if not raised and Boom.made != made: pvh.violation("swallowed", "an exception raised by the argument is lost and the call succeeds", ident)
    if raised and not reenters:
        if cn.startswith(HARMLESS) and mk in REF:
            if result(m) != REF[mk]: pvh.violation("changed", "a refused call changed the machine", ident)
        if "propagate" not in cn and snap(s) != before: pvh.violation("changed", "a refused call changed the state", ident)
        if cn.startswith("m.propagate(s,") and not isinstance(exc[:1] and exc[0], RuntimeError) and snap(s) != before and sk.split("+")[0] == mk:
            # arguments are refused before anything is propagated
            pvh.violation("changed", "propagate() with refused arguments changed the state", ident)
    a = None; exc = None
    if mk in REF: tail_ok(m, mk, s, ident, changed_ok=True)
    else: tail_ok(None, mk, s, ident)
    # every object dies here, in both orders
    ctx.clear()
    if pvh._unit % 2: del m; del s
    else: del s; del m

def setter(sk, attr, an):
    ident = "set %s.%s = %s" % (sk, attr, an)
    if not pvh.turn(ident): return
    pvh.count("sets")
    if LEAK:
        if "R " in an or an in ("type",): return
        s = state(sk); ctx["s"] = s; ctx["m"] = None
        leaktest(lambda: setattr(s, attr, ARGS[an]()), ident, [s, I.State, np.ndarray]); ctx.clear(); return
    s = state(sk); ctx["m"], ctx["s"] = machine(sk.split("+")[0]), s
    before = dict(snap(s)); a = ARGS[an]()
    exc = []
    raised = call(lambda: setattr(s, attr, a), ident, exc)
    after = dict(snap(s))
    if "R " not in an:
        if raised and before != after: pvh.violation("changed", "a refused assignment changed %s" % [k for k in after if after[k] != before.get(k)], ident)
        if not raised:
            got = getattr(s, attr)
            try:
                want = np.asarray(a, dtype=float) if isinstance(got, np.ndarray) else float(a)
                same = np.array_equal(np.asarray(got, dtype=float), want, equal_nan=True) if isinstance(got, np.ndarray) else (float(got) == want or (want != want and got != got) or (isinstance(got, int) and got == int(a)))
            except Exception: same = True
            if not same: pvh.violation("value", "an accepted assignment gives %r" % (got,), ident)
    exc = None; a = None
    tail_ok(None, None, s, ident)
    ctx.clear()

def pairs():
    """sequences of two calls on the same machine and state"""
    seq = [(c, None) for c in CALLS0 if not c.startswith("dir")]
    c1 = ["m.__init__(a)", "m.conf(a)", "m.allocState(a)", "m.propagate(a)", "m.propagate(s,a)", "m.propagate(s,max=a)", "m.propagate(s,observe=a)", "m.reconfigure(a,{})", "m.reconfigure(0,a)", "m.find(a)", "s.show(a)", "s.own=a"]
    seq += [(c, a) for c in c1 for a in (CORE if pvh.thorough() else ["None", "1", "-1", "2**64", "1.5", "'d'", "[0,1,2]", "[99]", "{'L':2}", "{'a':[1]}", "gen raising", "vector conf", "no elements", "this state", "other state", "R init", "[R init]"])]
    for mk, sk in (("moment", "moment"), ("stripper", "stripper+run"), ("vector", "vector"), ("moment", "vector"), ("new", "moment")):
        if not pvh.thorough() and mk in ("vector",): continue
        for x in seq:
            ident = "pair %s %s then all | %s %s" % (x[0], x[1], mk, sk)
            if not pvh.turn(ident): continue
            for y in seq:
                pvh.crumb(ident + " " + repr(y))
                m, s = machine(mk), state(sk)
                ctx["m"], ctx["s"] = m, s
                for cn, an in (x, y):
                    a = ARGS[an]() if an else None
                    call((lambda: CALLS1[cn](m, s, a)) if an else (lambda: CALLS0[cn](m, s)), ident + " " + repr(y), [])
                pvh.count("pairs")
                try: str(s), s.clone(), snap(s), m.__init__(conf("moment")), m.propagate(m.allocState())
                except Exception as e: pvh.violation("unusable", "unusable after %r: %r" % ((x, y), e), ident + " " + repr(y))
                ctx.clear()

# ------------------------------------------------------------------ special situations
def special():
    def sp(name):
        def deco(fn):
            ident = "special " + name
            if pvh.turn(ident):
                pvh.count("special")
                try: fn()
                except SystemError as e: pvh.violation("systemerror", "%s: %s" % (name, e), ident)
                except Exception as e: pvh.violation("special", "%s: %r" % (name, e), ident)
            return fn
        return deco
    for sk in SK:
        @sp("gc while freeing " + sk)
        def _():
            class D:
                def __del__(self): gc.collect()
            for _ in range(5):
                s = state(sk); s.x = D(); del s
                s = state(sk); s.x = D(); s.me = s; del s; gc.collect()
        @sp("weakref callback " + sk)
        def _():
            hits = []
            s = state(sk); w = weakref.ref(s, lambda r: (hits.append(1), gc.collect()))
            del s; gc.collect()
            if w() is not None or hits != [1]: raise AssertionError("weak reference is not cleared")
            s = state(sk); s.me = s; w = weakref.ref(s, lambda r: (hits.append(1), gc.collect())); del s; gc.collect()
            if w() is not None: raise AssertionError("a cycle is not collected")
        @sp("iterator outlives " + sk)
        def _():
            s = state(sk); it = iter(s); n = next(it); del s; gc.collect(); list(it)
        @sp("arrays are copies " + sk)
        def _():
            s = state(sk); v = {n: getattr(s, n) for n in s}; b = snap(s)
            for a in v.values():
                if isinstance(a, np.ndarray): a[...] = 77
            if snap(s) != b: raise AssertionError("writing to a returned array changes the state")
            del s; gc.collect(); [str(a) for a in v.values()]
    for mk in MK:
        @sp("weakref to machine " + mk)
        def _():
            m = machine(mk); w = weakref.ref(m); m.__init__(conf(mk)); del m; gc.collect()
            if w() is not None: raise AssertionError("machine is not freed")
        @sp("states outlive machine " + mk)
        def _():
            m = machine(mk); s = m.allocState(); r = m.propagate(s, observe=range(len(m))); del m; gc.collect()
            str(s), snap(s), s.clone(); [(str(x), snap(x)) for _, x in r]; machine(mk).propagate(s)
        @sp("recursion in observe " + mk)
        def _():
            m = machine(mk); s = m.allocState()
            if not len(m): return
            def g():
                yield 0
                m.propagate(m.allocState(), observe=range(len(m)))
                m.reconfigure(0, {})
                yield len(m) - 1
            r = m.propagate(s, observe=g())
            want = sorted({0, len(m) - 1})
            if sorted({i for i, _ in r}) != want: raise AssertionError("observed %s instead of %s" % ([i for i, _ in r], want))
        for what in ("raise in filter", "raise in emit", "not utf8", "reenter", "propagates"):
            @sp("logging %s %s" % (what, mk))
            def _():
                log = logging.getLogger(flame.getLoggerName()); seen = []
                hook = sys.unraisablehook; sys.unraisablehook = lambda a: None
                class H(logging.Handler):
                    def emit(self, r):
                        seen.append(r.getMessage())
                        if what == "raise in emit": raise Boom()
                        if what == "reenter" and len(seen) < 3: flame.Machine(conf(mk))
                class F(logging.Filter):
                    def filter(self, r):
                        if what == "raise in filter": raise Boom()
                        return True
                h, f = H(), F(); log.addHandler(h); log.addFilter(f); old = logging.raiseExceptions; logging.raiseExceptions = False
                lvl = log.level; log.setLevel(1)
                try:
                    I.setLogLevel(1)
                    try: m = flame.Machine(conf(mk))
                    except Boom: m = flame.Machine(conf(mk))
                    if what == "not utf8":
                        try: flame.Machine({"sim_type": "\u00e9", "elements": []})
                        except KeyError: pass
                        try: flame.Machine(b'sim_type="\xff\xfe"; d: drift; l: LINE=(d); USE: l;')
                        except (KeyError, UnicodeDecodeError): pass
                    m.propagate(m.allocState())
                    if what == "propagates" and not any(x.endswith("'") and "sim_type='" in x for x in seen): raise AssertionError("messages are cut: %r" % seen)
                    if what != "raise in filter" and not seen: raise AssertionError("no message arrives")
                finally:
                    I.setLogLevel(30); log.removeHandler(h); log.removeFilter(f); logging.raiseExceptions = old; log.setLevel(lvl); sys.unraisablehook = hook
    @sp("threads")
    def _():
        log = logging.getLogger(flame.getLoggerName()); errs = []
        class H(logging.Handler):
            def emit(self, r): os.sched_yield()
        h = H(); log.addHandler(h); lvl = log.level; log.setLevel(1); I.setLogLevel(1)
        def work(k):
            try:
                for _ in range(30):
                    if result(machine(k)) != REF[k]: errs.append("wrong result")
            except Exception as e: errs.append(repr(e))
        t = [threading.Thread(target=work, args=(k,)) for k in MK for _ in range(2)]
        [x.start() for x in t]; [x.join() for x in t]
        I.setLogLevel(30); log.removeHandler(h); log.setLevel(lvl)
        if errs: raise AssertionError(errs[0])
    @sp("subclasses")
    def _():
        class M(flame.Machine):
            def __init__(self): pass
        m = M()
        for f in (lambda: len(m), lambda: str(m), lambda: m.conf(), lambda: m.propagate(state("vector")), lambda: m.find(), lambda: m.allocState(), lambda: m.reconfigure(0, {})):
            try: f()
            except Exception: continue
            raise AssertionError("a machine without __init__ does something")
        class M2(flame.Machine): __slots__ = ("a",)
        M2(conf("vector")).a = 1
        class M3(I.Machine):
            def __del__(self): self.propagate(self.allocState())
        x = M3(conf("vector")); del x
        class M4(I.Machine):
            def __del__(self): ctx["saved"] = self
        x = M4(conf("vector")); del x; y = ctx.pop("saved"); y.propagate(y.allocState())
    @sp("replaced machine is freed")
    def _():
        m = machine("moment")
        for _ in range(50): m.__init__(conf("moment"))

states_for = {"moment": ["moment", "moment+run", "vector"], "stripper": ["stripper"], "vector": ["vector", "moment"], "matrix": ["matrix", "moment+clone"], "empty": ["empty", "vector+bare"], "new": ["moment"], "basenew": ["vector"]}
if LEAK: states_for = {"moment": ["moment"], "vector": ["vector"]}
for mk in states_for:
    for sk in states_for[mk]:
        for cn in CALLS0: evaluate(cn, None, mk, sk)
        for cn in CALLS1:
            for an in ARGS:
                # calls which concern neither need only one pair of objects
                if cn.split("(")[0] in ("Machine", "parse", "GLPSPrinter", "_GLPSParse", "getLoggerName", "State", "sub State") and (mk, sk) != ("moment", "moment"): continue
                if cn.startswith(("s.", "s=", "s[", "a in s", "getattr", "setattr", "delattr")) and sk not in ("moment", "vector", "matrix", "empty"): continue
                if "observe" in cn and an == "bigrange": continue  # 2**40 indices take 2**40 steps
                evaluate(cn, an, mk, sk)
for sk in (SK if not LEAK else ["moment", "vector", "matrix"]):
    for attr in list(state(sk)):
        if not pvh.thorough() and sk.endswith(("+seen", "+clone")): continue
        for an in ARGS: setter(sk, attr, an)
        ident = "del %s.%s" % (sk, attr)
        if pvh.turn(ident):
            s = state(sk); b = snap(s)
            if not call(lambda: delattr(s, attr), ident, []): pvh.violation("delete", "an attribute can be deleted", ident)
            if snap(s) != b: pvh.violation("changed", "a refused deletion changed the state", ident)
            pvh.count("deletes")
if not LEAK:
    special()
    pairs()
pvh.finish()
sys.stdout.flush()
