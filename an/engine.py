"""Convenience layer: run a workspace function on symbolic arguments."""
import interp, models
from values import *
from interp import Interp, St
import term

FIELDQ = {"F8": 17, "F16": 12289, "F32": 132120577, "F64": 1152921504606830593}


def new_interp(prog, intercepts=()):
    I = Interp(prog, models.M, intercepts)
    return I


def sem_interp(prog):
    """interpreter with the arithmetic, transform and sampling operators of sem.py"""
    import sem
    I = Interp(prog, models.M, sem.INTERCEPTS)
    I.symtype = sem.symtype
    I.fieldq = dict(FIELDQ)
    return I


def args_for(I, st, fn, over=None, names=None):
    """symbolic argument values; over: {argument position: value}"""
    vals = []
    for i in range(fn.argc):
        nm = (names or {}).get(i) or fn.local_name(i + 1) or "arg%d" % i
        if over and i in over:
            vals.append(over[i])
            continue
        ty = fn.locals[i + 1]
        t = I.p.types[ty]
        if t["k"] in ("ref",):
            c = I.newcell(st, I.symval(t["to"], nm, (), st), nm, t["to"])
            vals.append(Ref(c))
        else:
            vals.append(I.symval(ty, nm, (), st))
    return vals


def run(I, fn, st=None, vals=None, facts=()):
    st = st or St({}, term.EMPTY)
    if facts:
        st.ctx = st.ctx.add(*facts)
    if vals is None:
        vals = args_for(I, st, fn)
    r = I.exec_fn(fn, vals, st)
    return vals, r
