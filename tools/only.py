#!/usr/bin/env python3
"""only.py CHECK REGEX [-t SEC]: development aid; run a check on the functions whose name matches, one line each"""
import os, re, sys, time, importlib, signal
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(V, "an"), os.path.join(V, "tools")]
sys.setrecursionlimit(100000)
import extract, common
from facts import Program
prog = Program(extract.facts_path())
rx = re.compile(sys.argv[2])
t = int(sys.argv[sys.argv.index("-t") + 1]) if "-t" in sys.argv else 60
mod = importlib.import_module("checks." + sys.argv[1])
allf = list(prog.wsfns)
class TO(Exception): pass
def al(*a): raise TO()
signal.signal(signal.SIGALRM, al)
def fin(self, *a, **k):
    return self
common.Report.finish = fin
for f in allf:
    if not rx.search(f.name): continue
    prog.wsfns = [f]
    t0 = time.time()
    signal.alarm(t)
    try:
        rep = mod.run(prog, sys.argv[1].upper())
    except TO:
        print("TIMEOUT", f.name); continue
    finally:
        signal.alarm(0)
    n = len(rep.obl)
    if n or "-a" in sys.argv:
        print("%-6s %d/%d %.1fs %s" % ("VIOL" if rep.viol else "ok" if not rep.undecided else "UNDEC", sum(1 for o in rep.obl if o[1]=="discharged" or o[1]=="ok"), n, time.time()-t0, f.name))
        for u in rep.undecided: print("     ", u[1][:600])
        for u in rep.viol.items(): print("     ", str(u)[:600])
