#!/usr/bin/env python3
"""debugging aid: abstract result of a function on symbolic arguments"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "an"))
sys.setrecursionlimit(100000)
from facts import Program
import models, engine
from values import *
from interp import St
import term
P_ = Program(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "build", "facts.json"))
subs = [a for a in sys.argv[1:] if not a.startswith("-")]
icpt = []
if "-m" in sys.argv:
    import sem
    icpt = sem.INTERCEPTS
n = 0
for k, f in P_.fns.items():
    if all(s in f.name for s in subs) and "{closure" not in f.name:
        n += 1
        if n > int(os.environ.get("N", "3")): break
        t0 = time.time()
        I = engine.sem_interp(P_) if "-m" in sys.argv else engine.new_interp(P_)
        print("==", f.name)
        vals, r = engine.run(I, f)
        if r is None: print("   diverges")
        else:
            v, st = r
            print("   ret:", vshow(v))
            for x in vals:
                if isinstance(x, Ref):
                    print("   ", x.cell[1], "=", vshow(st.mem[x.cell]))
            print("   facts:", [show_cond(c) for c in st.ctx.facts])
        for p in I.panics: print("   panic:", P_.fns[p[0]].name.split("::")[-1] if p[0] else None, p[1], [show_cond(c) for c in p[2].facts], p[3])
        und = [o for o in I.obls if o[3].decide(o[2]) is not True]
        print("   obligations %d undecided %d" % (len(I.obls), len(und)))
        if "-v" in sys.argv:
            for o in und: print("      ", o[1], show_cond(o[2]), "| under", [show_cond(c) for c in o[3].facts])
        print("   unmodelled", I.unmodelled, I.notes, "steps", I.steps, "%.2fs" % (time.time() - t0))
