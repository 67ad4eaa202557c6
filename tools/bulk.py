#!/usr/bin/env python3
"""run the engine over many functions (8 processes); print problems.  bulk.py [-t SECONDS] [-a] PATTERN..."""
import sys, os, time, signal, traceback, collections, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "an"))
sys.setrecursionlimit(100000)
from facts import Program
import models, engine, sem
from values import *
P_ = Program(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "build", "facts.json"))
class TO(Exception): pass
def h(*a): raise TO()
def one(k):
    f = P_.fns[k]
    signal.signal(signal.SIGALRM, h)
    t0 = time.time()
    I = engine.sem_interp(P_)
    signal.alarm(TIME)
    tag = "ok"; res = ""
    try:
        vals, r = engine.run(I, f)
        if r is None: tag = "diverges"
        else:
            v, st = r
            bad = has_opq(v) or any(isinstance(x, Ref) and x.cell in st.mem and has_opq(st.mem[x.cell]) for x in vals)
            if bad: tag = "opaque"
            if ALL: res = "\n     ret " + vshow(v)[:700] + "".join("\n     %s = %s" % (x.cell[1], vshow(st.mem[x.cell])[:700]) for x in vals if isinstance(x, Ref))
    except TO: tag = "timeout"
    except RecursionError: tag = "recursion"
    except Exception as e:
        tag = "exc %s %s" % (type(e).__name__, str(e)[:80]); 
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]; tag += " @%s:%d" % (os.path.basename(tb.filename), tb.lineno)
    signal.alarm(0)
    return tag, time.time() - t0, f.name, dict(I.unmodelled), I.notes, res
if __name__ == "__main__":
    a = sys.argv[1:]
    ALL = "-a" in a; a = [x for x in a if x != "-a"]
    TIME = 20
    if "-t" in a: i = a.index("-t"); TIME = int(a[i+1]); del a[i:i+2]
    ks = [k for k, f in sorted(P_.fns.items(), key=lambda x: x[1].name) if f.crate in ("algebra","lattice","fhe_core","zkfhe") and "{closure" not in f.name and "fmt::" not in f.name and (not a or any(p in f.name for p in a))]
    un = collections.Counter(); stats = collections.Counter(); tot = 0
    with multiprocessing.Pool(8, maxtasksperchild=20) as pool:
        for tag, t, nm, u, notes, res in pool.imap(one, ks):
            stats[tag.split()[0]] += 1; tot += t
            for x in u: un[x] += 1
            if ALL or tag != "ok" or u: print("%-9s %5.1fs %s %s %s%s" % (tag, t, nm[:150], list(u)[:3], notes[:2], res))
    print(stats, "%.0fs" % tot)
    for u, n in un.most_common(60): print(n, u)
