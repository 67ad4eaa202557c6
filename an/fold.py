"""Loop-carried computations without a closed form: the transfer of one generic iteration is compared with the
specification, together with the initial value, the trip count and the value returned; large intermediate operands
of separately analysed operators are replaced by symbols ("cuts") whose definitions are compared as well."""
import term, loops
from spec import *
from ring import f0, seqof


def freshen(I, v, name, st, idxs=()):
    """a symbol of the shape of v"""
    v = prune(v, st.ctx)
    while isinstance(v, Ch):
        v = v.a
    if isinstance(v, Agg):
        t = I.p.types[v.ty] if isinstance(v.ty, int) else None
        if t is not None and (t["name"] in I.fieldq or t.get("path", "").endswith(("Basis", "PowOf2Modulus"))):
            return v
        return Agg(v.ty, v.var, [freshen(I, x, "%s.%d" % (name, i), st, idxs) for i, x in enumerate(v.f)])
    if isinstance(v, Seq) and isinstance(v.n, Poly):
        x = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
        e = prune(v.read(P(x), st.ctx), st.ctx)
        while isinstance(e, Ch):
            e = e.a
        if v.ety is not None and not isinstance(e, Seq) and (not isinstance(e, Agg) or I.p.types[v.ety]["name"] in I.fieldq):
            return SLam(v.n, x, I.symval(v.ety, name, idxs + (P(x),), st), v.ety)
        return SLam(v.n, x, freshen(I, e, name, st, idxs + (P(x),)), v.ety)
    return v


class Cuts:
    """operands of selected operators are replaced by symbols; definitions: name -> (value, context)"""
    def __init__(self, I, items):
        self.items, self.defs = items, {}
        I.intercepts.insert(0, self.hook)
        I.cuts = self

    def hook(self, I, fr, st, inst, info, path, a):
        if info is None or info["item"] not in self.items or info["crate"] not in ("lattice", "algebra", "fhe_core") and info["item"] not in ("chunks_exact",):
            return NotImplemented
        fn = I.p.fns.get(inst)
        for p in self.items[info["item"]]:
            if not isinstance(a[p], Ref):
                continue
            v = prune(I.load(st, a[p]), st.ctx)
            if isinstance(v, Ref) or has_opq(v):
                continue
            for nm, (w, cx) in self.defs.items():
                if nm.startswith("cut:%s:%d#" % (info["item"], p)) and loops.alike(w, v, st.ctx):
                    break
            else:
                nm = "cut:%s:%d#%d" % (info["item"], p, len(self.defs))
                self.defs[nm] = (v, st.ctx)
            s = freshen(I, v, nm, st)
            if fn is not None and I.p.types[fn.locals[p + 1]].get("mut"):
                I.store(st, a[p], s)
            else:
                a[p] = Ref(I.newcell(st, s), ())
        return NotImplemented

    def definition(self, symbol):
        """definition of the symbol an array name belongs to"""
        nm = symbol.split(".")[0]
        return self.defs.get(nm)


class Rec:
    def __init__(self, loop, lf, nv, ctx, sol):
        self.loop, self.v0, self.sym, self.next, self.ctx, self.sol, self.K = loop, lf.v0, lf.sym, nv, ctx, sol, loop.K


class Log:
    """locations of loops without a closed form: opaque symbol -> the iteration that defines it"""
    def __init__(self, I):
        self.recs = {}
        I.loop_log = self.log

    def log(self, lp, lf, nv, ctx, sol):
        r = Rec(lp, lf, nv, ctx, sol)
        for a in vdeps(sol):
            A = term.atom_by_id(a)
            if A.kind == "opq":
                self.recs.setdefault(A.args[0], r)

    def of(self, v):
        """(record, trip count, indices) of an opaque value"""
        A = term.single_atom(v) if isinstance(v, Poly) else None
        if A is None or A.kind != "opq" or A.args[0] not in self.recs:
            return None
        return self.recs[A.args[0]], A.args[1], list(A.args[2:])
