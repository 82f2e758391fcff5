"""C20: every allocation of the interpreter fails, alone or with all later ones, during every call of the Python API."""
import pvh, sys, gc, os, logging, ctypes
import numpy as np
import flame
from flame import _internal as I
import vpoom

pvh.init()
LEAK = pvh.opts.get("mode") == "leak"
logging.getLogger(flame.getLoggerName()).addHandler(logging.NullHandler())
logging.getLogger(flame.getLoggerName()).propagate = False

BEAM = dict(IonEs=931494320.0, IonEk=500000.0, IonChargeStates=np.array([33 / 238., 34 / 238.]), NCharge=np.array([100., 70.]),
            moment00=np.array([1., 1e-3, -1., 1e-3, 1e-3, 1e-3, 1.]), moment01=np.array([.5, 1e-3, -1., 1e-3, 1e-3, 1e-3, 1.]),
            initial0=np.eye(7).ravel(), initial1=np.eye(7).ravel())
def conf(kind):
    if kind == "moment":
        return dict(BEAM, sim_type="MomentMatrix", elements=[
            dict(name="src", type="source", vector_variable="moment0", matrix_variable="initial"),
            dict(name="d", type="drift", L=0.2), dict(name="q", type="quadrupole", L=0.1, B2=2.0), dict(name="d", type="drift", L=0.3)])
    if kind == "stripper":
        return dict(BEAM, sim_type="MomentMatrix", elements=[
            dict(name="src", type="source", vector_variable="moment0", matrix_variable="initial"),
            dict(name="s", type="stripper", IonChargeStates=np.array([76 / 238., 77 / 238., 78 / 238.]), NCharge=np.array([1., 2., 3.])),
            dict(name="d", type="drift", L=0.2)])
    if kind == "vector":
        return dict(sim_type="Vector", initial=np.arange(6.), elements=[dict(name="d", type="drift", L=1.0), dict(name="q", type="quadrupole", L=1.0, K=0.1)])
    if kind == "matrix":
        return dict(sim_type="TransferMatrix", initial=np.eye(6).ravel(), elements=[dict(name="d", type="drift", L=1.0)])
    if kind == "long":  # indices beyond the interpreter's own small numbers
        return dict(sim_type="Vector", initial=np.arange(6.), elements=[dict(name="d", type="drift", L=0.01)] * 270)
MK = ["moment", "stripper", "vector", "matrix"]
def snap(s): return [(n, v.tobytes() + str(v.shape).encode() if isinstance(v, np.ndarray) else repr(v)) for n in s for v in [getattr(s, n)]]
def result(m):
    s = m.allocState()
    m.propagate(s)
    return str(m), repr(m.conf()), [repr(m.conf(i)) for i in range(len(m))], snap(s), m.find()
def norm(r):
    """a value which compares equal only for equal results"""
    if isinstance(r, I.Machine): return ("machine", result(r))
    if isinstance(r, I.State): return ("state", snap(r), r.show(3))
    if isinstance(r, np.ndarray): return ("array", r.tobytes(), r.shape, str(r.dtype))
    if isinstance(r, (list, tuple)): return (type(r).__name__, [norm(x) for x in r])
    if isinstance(r, dict): return ("dict", [(norm(k), norm(v)) for k, v in r.items()])
    return (type(r).__name__, repr(r))

os.makedirs("sub", exist_ok=True)
open("data.txt", "w").write("x"); open("sub/data.txt", "w").write("y")
TEXT = open(os.path.join("sub", "lat.lat"), "w+b")
TEXT.write(flame.GLPSPrinter(conf("vector")).replace("sim_type", 'f = file("data.txt");\nsim_type', 1).encode()); TEXT.flush()

class STATE: pass
def scenarios():
    """name, make() -> (callable, args, kws, objects watched, may it change them)"""
    for k in MK:
        c = conf(k)
        txt = flame.GLPSPrinter(c)
        pairs = I._GLPSParse(txt)
        yield "Machine(bytes) " + k, lambda: (I.Machine, (txt.encode(),), {}, [], 0)
        yield "Machine(str) " + k, lambda: (I.Machine, (txt,), {}, [], 0)
        yield "Machine(list) " + k, lambda: (I.Machine, (pairs,), {}, [], 0)
        yield "Machine(dict) " + k, lambda: (I.Machine, (c,), {}, [], 0)
        yield "Machine(extra) " + k, lambda: (I.Machine, (txt,), {"extra": {"one": 1.5, "two": "x" * 40, "three": 12345678901}}, [], 0)
        yield "Machine(path) " + k, lambda: (I.Machine, (txt,), {"path": os.getcwd()}, [], 0)
        yield "parse " + k, lambda: (I._GLPSParse, (txt,), {}, [], 0)
        yield "parse extra " + k, lambda: (I._GLPSParse, (txt, None, {"one": 1.5, "two": "x" * 40}), {}, [], 0)
        yield "print list " + k, lambda: (I.GLPSPrinter, (pairs,), {}, [], 0)
        yield "print dict " + k, lambda: (I.GLPSPrinter, (c,), {}, [], 0)
        def m(): return I.Machine(c)
        def ms():
            x = m(); s = x.allocState(); x.propagate(s, 0, 1); return x, s
        def again():
            x = m(); return (x.__init__, (conf("long"),), {}, [x], 1)
        yield "m.__init__ " + k, again
        def on(name, *a, may=0, **kw):
            def f():
                x, s = ms()
                aa = tuple(s if v is STATE else v for v in a)
                return (getattr(x, name), aa, kw, [x] if STATE in a and may else [x, s], 0)
            return f
        yield "m.allocState() " + k, on("allocState")
        yield "m.allocState({}) " + k, on("allocState", {})
        yield "m.allocState(conf) " + k, on("allocState", {kk: v for kk, v in c.items() if kk != "elements"})
        yield "m.allocState(inherit) " + k, on("allocState", {"IonEk": 6e5, "s": "abc", "v": np.ones(3)}, inherit=True)
        yield "m.conf() " + k, on("conf")
        yield "m.conf(0) " + k, on("conf", 0)
        yield "m.conf(-) " + k, on("conf", len(c["elements"]) - 1)
        yield "m.conf(bad) " + k, on("conf", 1000)
        yield "m.find() " + k, on("find")
        yield "m.find(d) " + k, on("find", "d")
        yield "m.find(type) " + k, on("find", type="drift")
        yield "m.find(both) " + k, on("find", "a", "b")
        yield "m.propagate " + k, on("propagate", STATE, 0, 10, range(len(c["elements"])), may=1)
        yield "m.propagate list " + k, on("propagate", STATE, 0, 10, [0], may=1)
        yield "m.propagate none " + k, on("propagate", STATE, 0, 10, may=1)
        yield "m.propagate kw " + k, on("propagate", STATE, start=0, max=None, may=1)
        yield "m.propagate bad " + k, on("propagate", STATE, 0, 10, [1000], may=1)
        yield "m.propagate badmax " + k, on("propagate", STATE, 0, "x", may=1)
        yield "m.propagate nostate " + k, on("propagate", None)
        yield "str(m) " + k, lambda: (lambda x: (x.__str__, (), {}, [x], 0))(m())
        yield "len(m) " + k, lambda: (lambda x: (x.__len__, (), {}, [x], 0))(m())
        last = len(c["elements"]) - 1
        def rec(idx, cfg, *a):
            def f():
                x = m(); return (x.reconfigure, (idx, cfg) + a, {}, [x], 1)
            return f
        yield "m.reconfigure " + k, rec(last, {"L": 0.77})
        yield "m.reconfigure name " + k, rec(last, {"name": "elsewhere"})
        yield "m.reconfigure all " + k, rec(last, {"L": 0.77, "v": np.arange(5.), "s": "x" * 50, "n": 5})
        yield "m.reconfigure replace " + k, rec(last, {"name": "rr", "type": c["elements"][last]["type"], "L": 0.5, "K": 0.1, "B2": 1.0}, True)
        yield "m.reconfigure refused " + k, rec(last, {"type": "nonesuch"})
        yield "m.reconfigure index " + k, rec(1000, {})
        def st(fn):
            def f():
                x, s = ms(); return fn(s)
            return f
        s0 = ms()[1]
        for a in s0:
            yield "get %s %s" % (a, k), st(lambda s, a=a: (s.__getattribute__, (a,), {}, [s], 0))
            v = getattr(s0, a)
            if isinstance(v, np.ndarray):
                yield "set %s %s" % (a, k), st(lambda s, a=a, v=v: (s.__setattr__, (a, (v + 1)), {}, [s], 1))
                yield "set list %s %s" % (a, k), st(lambda s, a=a, v=v: (s.__setattr__, (a, (v + 1).tolist()), {}, [s], 1))
                yield "set int %s %s" % (a, k), st(lambda s, a=a, v=v: (s.__setattr__, (a, np.ones(v.shape, dtype="i4")), {}, [s], 1))
                yield "set bad %s %s" % (a, k), st(lambda s, a=a, v=v: (s.__setattr__, (a, np.ones(3)), {}, [s], 1))
            else:
                yield "set %s %s" % (a, k), st(lambda s, a=a: (s.__setattr__, (a, 12), {}, [s], 1))
                yield "set bad %s %s" % (a, k), st(lambda s, a=a: (s.__setattr__, (a, "x"), {}, [s], 1))
        yield "set own " + k, st(lambda s: (s.__setattr__, ("own", 12345), {}, [s], 1))
        yield "get none " + k, st(lambda s: (s.__getattribute__, ("none",), {}, [s], 0))
        yield "clone " + k, st(lambda s: (s.clone, (), {}, [s], 0))
        yield "str(s) " + k, st(lambda s: (s.__str__, (), {}, [s], 0))
        yield "show " + k, st(lambda s: (s.show, (), {"level": 3}, [s], 0))
        yield "iter " + k, st(lambda s: (s.__iter__, (), {}, [s], 0))
    yield "observe far", lambda: (lambda x: (x.propagate, (x.allocState(), 265, 3, [265, 266, 267]), {}, [x], 0))(I.Machine(conf("long")))
    yield "find far", lambda: (lambda x: (x.find, (), {}, [x], 0))(I.Machine(conf("long")))
    def fil(fn, **kw):
        def f():
            F = open("sub/lat.lat", "rb"); return (fn, (F,), kw, [], 0)
        return f
    yield "Machine(file)", fil(I.Machine)
    yield "parse file", fil(I._GLPSParse)
    yield "parse file path", fil(I._GLPSParse, path=".")
    yield "syntax error", lambda: (I._GLPSParse, ("a = ;",), {}, [], 0)
    yield "no lattice", lambda: (I._GLPSParse, ("a = 1;",), {}, [], 0)
    yield "Machine(nonesuch)", lambda: (I.Machine, ({"sim_type": "nonesuch", "elements": []},), {}, [], 0)
    yield "Machine(bad element)", lambda: (I.Machine, ({"sim_type": "Vector", "elements": [{"name": "a", "type": "nonesuch"}]},), {}, [], 0)
    yield "Machine(deep)", lambda: (I.Machine, ({"sim_type": "Vector", "elements": [{"name": "a", "type": "drift", "x": [{"y": [{"z": [{"w": [{}]}]}]}]}]},), {}, [], 0)
    yield "Machine(None)", lambda: (I.Machine, (None,), {}, [], 0)
    yield "Machine(extra list)", lambda: (I.Machine, ("a=1;",), {"extra": []}, [], 0)
    yield "Machine(extra bad)", lambda: (I.Machine, ("a=1;",), {"extra": {"a": [1]}}, [], 0)
    yield "getLoggerName", lambda: (I.getLoggerName, (), {}, [], 0)
    yield "setLogLevel", lambda: (I.setLogLevel, (30,), {}, [], 0)

class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
libc = ctypes.CDLL(None); libc.mallinfo2.restype = Mallinfo
def used():
    gc.collect(); sys._clear_type_cache()
    i = libc.mallinfo2(); return i.uordblks + i.hblkhd

def watch(objs): return [result(o) if isinstance(o, I.Machine) else (snap(o), getattr(o, "own", None)) for o in objs]

def outcome(t):
    r, e = t[0], t[1]
    if e is not None: return "raise", type(e)
    if type(r).__name__ == "dict_keyiterator": r = list(r)
    return "return", norm(r)

for name, make in scenarios():
    if LEAK and not pvh.thorough() and name.split()[-1] in MK[1:]: continue
    if not pvh.turn(name): continue
    pvh.count("pyscenarios")
    f, a, k, objs, may = make()
    before = watch(objs)
    t = vpoom.call(1 << 40, -1, f, a, k)
    normal = outcome(t); after = watch(objs)
    del f, a, k, objs, t
    for single in (0, 1):
        n = 0
        while True:
            pvh.crumb(name)
            what = "allocation %d%s of the interpreter fails" % (n, "" if single else " and all later ones")
            f, a, k, objs, may = make()
            t = vpoom.call(n, n + 1 if single else -1, f, a, k)
            r, e, total, failed, ok = t
            if not failed: break
            pvh.count("pyfailures")
            if not ok or isinstance(e, SystemError) or (e is not None and not isinstance(e, Exception)):
                pvh.violation("systemerror", "%s: the call breaks the interpreter's rules: %r" % (what, e), name); break
            if LEAK:
                del f, a, k, objs, r, e, t
                def once():
                    f, a, k, objs, may = make()
                    vpoom.call(n, n + 1 if single else -1, f, a, k)
                for _ in range(2): once()
                for N in (4, 6, 40, 100):
                    u = used()
                    for _ in range(N): once()
                    grow = used() - u
                    if grow < N * 16: break
                else:
                    pvh.violation("leak", "%s: %d bytes leaked by %d calls" % (what, grow, N), name); break
                n += 1
                continue
            got = outcome(t)
            if got[0] == "return":
                pvh.count("pytolerated")
                if got != normal:
                    pvh.violation("result", "%s: the call returns another result, %s not %s" % (what, str(got)[:300], str(normal)[:300]), name); break
            else: pvh.count("pyreported")
            now = watch(objs)
            if may:
                if now != (after if got[0] == "return" else before) and not (got[0] != "return" and now == after):
                    pvh.violation("changed", "%s: the objects hold neither the old nor the new values" % what, name); break
            elif now != after and now != before:
                pvh.violation("changed", "%s: the call changed its objects" % what, name); break
            try:
                g, b, h, objs2, _ = make()
                if outcome(vpoom.call(1 << 40, -1, g, b, h)) != normal:
                    pvh.violation("repeat", "%s: the repeated call gives another result" % what, name); break
                if may == 0 or got[0] == "return" or now == before:
                    if not name.startswith("m.propagate") and not name.startswith("observe"):
                        again = outcome(vpoom.call(1 << 40, -1, f, a, k))
                        if again != normal and not name.startswith(("Machine(file)", "parse file")):
                            pvh.violation("repeat", "%s: the call repeated on the same objects gives another result" % what, name); break
                del g, b, h, objs2
            except Exception as x:
                pvh.violation("repeat", "%s: afterwards %r" % (what, x), name); break
            n += 1
            if n > 20000: pvh.violation("endless", "more than 20000 allocations", name); break
pvh.finish()
