#!/usr/bin/env python3
"""Pretty-print the MIR facts of functions whose name contains the given text."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "an"))
from facts import Program
P = Program(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "build", "facts.json"))
def pl(f, p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "d": s = "(*%s)" % s
        elif e[0] == "f": s += ".%d" % e[1]
        elif e[0] == "i": s += "[_%d]" % e[1]
        elif e[0] == "v": s += " as v%d" % e[1]
        else: s += str(e)
    return s
def cst(c):
    t = P.types[c["ty"]]
    if "a" in c:
        b = c["a"]["b"]
        if t["k"] in ("int", "bool") and "_" not in b:
            return "%d_%s" % (int.from_bytes(bytes.fromhex(b), "little"), t["name"])
        if c["a"]["p"]:
            return "const %s -> %s" % (t["name"], [P.allocs[str(x[1])] if len(str(P.allocs[str(x[1])]))<120 else x[1] for x in c["a"]["p"]])
        return "const %s %s" % (t["name"], b)
    return "const " + t["name"]
def op(f, o):
    if o[0] == "k": return cst(o[1])
    if o[0] == "rc": return o[1]
    return ("move " if o[0] == "m" else "") + pl(f, o[1])
def rv(f, r):
    k = r[0]
    if k == "use": return op(f, r[1])
    if k in ("bin", "cbin"): return "%s%s(%s, %s)" % (r[1], "?" if k == "cbin" else "", op(f, r[2]), op(f, r[3]))
    if k == "un": return "%s(%s)" % (r[1], op(f, r[2]))
    if k in ("ref", "addr", "reborrow"): return "&%s%s" % ("mut " if r[1] else "", pl(f, r[2]))
    if k == "cast": return "%s as %s (%s)" % (op(f, r[2]), P.tyname(r[3]), r[1])
    if k in ("len", "discr"): return "%s(%s)" % (k, pl(f, r[1]))
    if k == "agg": return "%s %s {%s}" % (r[1], P.tyname(r[3]) + " v%d" % r[4] if r[1] == "adt" else "", ", ".join(op(f, o) for o in r[2]))
    return str(r)
def show(f):
    print("fn", f.name, "|", f.path, "|", f.where())
    for i, l in enumerate(f.locals):
        print("   _%d: %s %s%s" % (i, P.tyname(l), f.local_name(i), " (arg)" if 0 < i <= f.argc else ""))
    for i in f.rpo():
        print(" bb%d:" % i)
        for s in f.blocks[i]["s"]:
            if s[0] == "=": print("    %s = %s   // %s" % (pl(f, s[1]), rv(f, s[2]), s[3]))
            elif s[0] == "sd": print("    discr(%s) = %s" % (pl(f, s[1]), s[2]))
            elif s[0] in ("assume","cpy"): print("   ", s)
        t = f.blocks[i]["t"]
        if t[0] == "call":
            c = t[1]
            n = P.insts[c["inst"]]["name"] if c.get("inst") in P.insts else str(c)
            print("    %s = %s(%s) -> bb%s  // %s" % (pl(f, t[3]), n, ", ".join(op(f, o) for o in t[2]), t[4], t[6]))
        elif t[0] == "sw": print("    switch %s %s else bb%s" % (op(f, t[1]), ["%s:bb%d" % tuple(x) for x in t[2]], t[3]))
        elif t[0] == "assert": print("    assert %s==%s %s -> bb%s" % (op(f, t[1]), t[2], t[3][0], t[4]))
        elif t[0] == "drop": print("    drop %s -> bb%s" % (pl(f, t[1]), t[2]))
        else: print("   ", t)
if __name__ == "__main__":
    n = 0
    for f in P.fns.values():
        if all(a in f.name or a in f.path for a in sys.argv[1:]):
            show(f); n += 1
    print(n, "functions")
