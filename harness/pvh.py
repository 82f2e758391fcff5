"""Common part of the Python harnesses: sharding, counters, crumbs, violations (as vh.h)."""
import json, mmap, os, signal, sys, time

tier, directory, shard, nshards, replay = "quick", ".", 0, 1, None
opts, counts, samples, viols = {}, {}, [], []
_crumb = None
_unit = 0
_last = 0
CRUMBSZ = 65536
limit = 100

def init():
    global tier, directory, shard, nshards, replay, _crumb, limit
    a = sys.argv[1:]
    while a:
        k, v = a.pop(0), a.pop(0)
        if k == "--tier": tier = v
        elif k == "--dir": directory = v
        elif k == "--shard": shard = int(v)
        elif k == "--nshards": nshards = int(v)
        elif k == "--replay": replay = open(v).read()
        else: opts[k[2:]] = v
    f = open(os.path.join(directory, "crumb"), "w+b")
    f.truncate(CRUMBSZ)
    _crumb = mmap.mmap(f.fileno(), CRUMBSZ)
    f.close()
    limit = int(opts.get("caselimit", 1200 if tier == "thorough" else 100))
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    arm()

def arm():
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, limit * 5)

def thorough(): return tier == "thorough"

def crumb(s):
    global _last
    b = s.encode("utf8", "backslashreplace")[:CRUMBSZ - 1] + b"\0"
    _crumb[:len(b)] = b
    t = int(time.time())
    if t != _last:
        _last = t
        arm()

def turn(ident):
    """is this case ours?"""
    global _unit
    u = _unit
    _unit += 1
    if replay is not None:
        if ident != replay: return False
    elif u % nshards != shard: return False
    crumb(ident)
    return True

def count(k, n=1): counts[k] = counts.get(k, 0) + n

def sample(s):
    if len(samples) < 2: samples.append(s)

def violation(key, text, case):
    sys.stderr.write("violation [%s] %s\n   case: %s\n" % (key, ascii(text), ascii(case)))
    viols.append({"key": key, "text": ascii(text)[1:-1], "case": case})
    if len(viols) >= 20:
        finish()
        os._exit(0)

def finish():
    with open(os.path.join(directory, "result.json"), "w") as F:
        json.dump({"counts": counts, "samples": samples, "violations": viols}, F)
