"""Loop summaries.  The body is interpreted a fixed number of times with a symbolic iteration number K
(never unrolled); the locations it modifies are found by comparison, replaced by recurrence symbols,
and the recurrences are solved in closed form (linear, geometric, memoryless, sums modulo q,
index-determined writes); anything else becomes an opaque term."""
import re
from values import *
from term import Fraction
import term

_lid = [0]


class HV:
    """element of an array of unknown shape"""
    __slots__ = ("name", "idx")

    def __init__(self, name, idx):
        self.name, self.idx = name, idx

    def __repr__(self):
        return "hv(%s)" % self.name


def opq_poly(tag, args=(), lo=None, hi=None):
    _lid[0] += 1
    return P(term.mk_atom("opq", ("%s#%d" % (tag, _lid[0]),) + tuple(args), lo, hi))


# ---------------------------------------------------------------- modified leaves
def diff(a, b, path, out, ctx):
    """leaves (path) at which b differs from a; a, b pruned"""
    if a is b:
        return
    a = prune(a, ctx)
    b = prune(b, ctx)
    if same(a, b):
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.f) == len(b.f):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            diff(x, y, path + (("f", i),), out, ctx)
        return
    if small_seq(a) and small_seq(b) and a.n == b.n and isinstance(a, SLit):
        for i in range(a.n.cval()):
            diff(a.read(const(i), ctx), b.read(const(i), ctx), path + (("e", i),), out, ctx)
        return
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and len(a.path) == len(b.path) and \
            all(p[0] == q[0] for p, q in zip(a.path, b.path)):
        for i, (p, q) in enumerate(zip(a.path, b.path)):
            for j in range(1, len(p)):
                if isinstance(p[j], Poly) and isinstance(q[j], Poly):
                    if p[j] != q[j]:
                        out.append(path + (("rp", i, j),))
                elif p[j] != q[j]:
                    out.append(path)
                    return
        return
    out.append(path)


def alike(a, b, ctx):
    """the same structured value, element by element"""
    a, b = prune(a, ctx), prune(b, ctx)
    if same(a, b) or (isinstance(a, HV) and isinstance(b, HV) and repr(a) == repr(b)):
        return True
    if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.f) == len(b.f):
        return all(alike(x, y, ctx) for x, y in zip(a.f, b.f))
    if isinstance(a, Seq) and isinstance(b, Seq) and isinstance(a.n, Poly) and isinstance(b.n, Poly) and ctx.decide(eq(a.n, b.n)) is True:
        x = P(mk_atom("var", ("ix%d" % next_ix(),), 0))
        cx = ctx.add(lt(x, a.n))
        return alike(a.read(x, cx), b.read(x, cx), cx)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return same(unchanged(b, a, [], ctx), a)
    return False


def small_seq(a):
    """arrays of a few words (multi-word numbers) are followed element by element"""
    return isinstance(a, Seq) and a.n.is_const() and 0 < a.n.cval() <= 4


def get_leaf(v, path, ctx=EMPTY):
    for p in path:
        v = prune(v, ctx)
        if p[0] == "e":
            if not small_seq(v):
                return Opq("leaf")
            v = v.read(const(p[1]), ctx)
            continue
        if p[0] == "f":
            if not isinstance(v, Agg) or p[1] >= len(v.f):
                return Opq("leaf")
            v = v.f[p[1]]
        elif p[0] == "rp":
            if not isinstance(v, Ref) or p[1] >= len(v.path):
                return Opq("leaf")
            v = v.path[p[1]][p[2]]
    return v


def set_leaf(v, path, new, ctx=EMPTY):
    if not path:
        return new
    v = prune(v, ctx)
    p = path[0]
    if p[0] == "e":
        if not small_seq(v):
            return Opq("leaf")
        f = [v.read(const(i), ctx) for i in range(v.n.cval())]
        f[p[1]] = set_leaf(f[p[1]], path[1:], new, ctx)
        return SLit(f, v.ety)
    if p[0] == "f":
        if not isinstance(v, Agg):
            return Opq("leaf")
        f = list(v.f)
        f[p[1]] = set_leaf(f[p[1]], path[1:], new, ctx)
        return Agg(v.ty, v.var, f)
    if p[0] == "rp":
        if not isinstance(v, Ref) or not isinstance(new, Poly):
            return Opq("leaf")
        pp = [list(x) for x in v.path]
        pp[p[1]][p[2]] = new
        return Ref(v.cell, tuple(tuple(x) for x in pp))
    return Opq("leaf")


def leaf_type(I, cell, path, v):
    """type index of a leaf or None"""
    ty = None
    if cell[0] == "l":
        fn = I.frames.get(cell[1])
        if fn is not None:
            ty = fn.locals[cell[2]]
    else:
        ty = I.cellty.get(cell)
    for p in path:
        if p[0] == "rp":
            return "usize"
        if p[0] == "e":
            ty = v.ety if isinstance(v, Seq) else I.p.types[ty].get("elem") if ty is not None else None
            v = v.read(const(p[1]), EMPTY) if small_seq(v) else None
            continue
        if isinstance(v, Agg) and isinstance(v.ty, int):
            ty = v.ty
        if ty is not None:
            ty = I.field_ty(I.p.types[ty], p[1], (v.var or 0) if isinstance(v, Agg) else 0)
        v = v.f[p[1]] if isinstance(v, Agg) and p[1] < len(v.f) else None
    return ty


class Leaf:
    __slots__ = ("cell", "path", "v0", "mode", "d", "sym", "sol", "ty", "tries", "grow")

    def __init__(self):
        self.grow, self.mode, self.sym = ZERO, "new", None

    def key(self):
        return (self.cell, self.path)


USZ = (0, (1 << 64) - 1)


def int_bounds(I, ty):
    if ty == "usize":
        return USZ
    if ty is None:
        return (None, None)
    t = I.p.types[ty]
    if "_w" in t:
        w, s = t["_w"]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    return (None, None)


class Loop:
    def __init__(self, I, st, run, name, bound=None):
        """run(st) -> (next_state | None, exits [(target, st)], rets)"""
        self.I, self.st0, self.run, self.name = I, st, run, name
        _lid[0] += 1
        self.id = _lid[0]
        self.K = term.mk_atom("var", ("K%d" % self.id,), 0)
        self.leaves = {}
        self.bound = bound

    # state at the head of iteration K
    def head(self):
        st = self.st0.copy()
        if self.bound is not None:
            st.ctx = st.ctx.add(lt(P(self.K), self.bound))
        for lf in self.leaves.values():
            if lf.mode == "lin":
                v = self.at(lf)
            elif lf.mode == "sig":
                v = lf.sym
            else:
                v = lf.sol
            st.mem[lf.cell] = set_leaf(st.mem[lf.cell], lf.path, v, st.ctx)
        return st

    def at(self, lf):
        k = P(self.K)
        if isinstance(lf.v0, It):
            return It(lf.v0.n, lf.v0.elem, lf.v0.pos + lf.d * k, lf.v0.tag)
        if isinstance(lf.v0, Rng):
            return Rng(lf.v0.name, lf.v0.pos + lf.d * k)
        return lf.v0 + lf.d * k

    def havoc(self, lf):
        I = self.I
        v0 = lf.v0
        self.nsym = getattr(self, "nsym", 0) + 1
        nm = "s%d_%d" % (self.id, self.nsym)
        lf.mode = "sig"
        lo, hi = int_bounds(I, lf.ty)
        if isinstance(v0, Poly) or (isinstance(v0, Ch) and isinstance(leafof(v0), Poly)):
            lf.sym = term.var("g" + nm, lo, hi)
        elif isinstance(v0, It):
            lf.sym = It(v0.n, v0.elem, term.var("g" + nm, 0), v0.tag)
        elif isinstance(v0, Rng):
            lf.sym = Rng(v0.name, term.var("g" + nm, 0))
        elif is_bool(v0):
            lf.sym = ob("sym", term.var("g" + nm, 0))
        elif isinstance(v0, Seq):
            lf.sym = self.havoc_seq(v0, "g" + nm, (), self.length(lf, "len:" + nm))
        else:
            lf.sym = Opq("loop")

    def havoc_seq(self, v0, nm, idxs, n):
        I = self.I
        ety = v0.ety

        def mk(ety, name, ix):
            # shape taken from the entry value
            x = ix[-1]
            e0 = v0.read(x, EMPTY)
            return self.shape(e0, ety, name, ix)
        return SBase(nm, idxs, n, ety, mk)

    def shape(self, e0, ety, name, ix):
        I = self.I
        e0l = leafof(e0)
        if isinstance(e0l, Poly):
            lo, hi = int_bounds(I, ety)
            if lo is None and I.p.types[ety]["k"] == "adt" if ety is not None else False:
                pass
            if lo is not None:
                term.set_sel_domain(name, const(lo), const(hi))
            else:
                b = seq_dom(e0)
                if b is not None:
                    term.set_sel_domain(name, *b)
            return mk_sel(name, ix)
        if isinstance(e0l, Agg):
            fs = []
            for i, f in enumerate(e0l.f):
                fty = None
                q = None
                t = I.p.types[ety] if ety is not None else (I.p.types[e0l.ty] if isinstance(e0l.ty, int) else None)
                if t is not None:
                    fty = I.field_ty(t, i, e0l.var or 0)
                    q = I.fieldq.get(t["name"])
                nm = "%s.%d" % (name, i)
                if q is not None:
                    term.set_sel_domain(nm, const(0), const(q - 1))
                    fs.append(mk_sel(nm, ix))
                else:
                    fs.append(self.shape(f, fty, nm, ix))
            if isinstance(e0, Ch) and e0l.var is not None:
                return HV(name, ix)
            return Agg(e0l.ty, e0l.var, fs)
        if isinstance(e0l, Seq):
            inner = e0l

            def mk(ety2, name2, ix2):
                return self.shape(inner.read(ix2[-1], EMPTY), ety2, name2, ix2)
            return SBase(name, ix, inner.n, inner.ety, mk)
        if ety is not None and e0l is UNDEF:
            return I.symval(ety, name, ix)
        if is_bool(e0l):
            return ob("sym", mk_sel(name, ix))
        return HV(name, ix)

    # ------------------------------------------------------------ main
    def solve(self):
        I = self.I
        rec = I.record
        I.record = False
        try:
            for rnd in range(9):
                st = self.head()
                nxt, exits, rets = self.run(st.copy())
                if nxt is None:
                    break
                changed = self.discover(st, nxt)
                if changed:
                    continue
                if self.solve_leaves(nxt):
                    continue
                break
            else:
                for lf in self.leaves.values():
                    if lf.mode == "sig":
                        self.give_up(lf)
            # anything still symbolic becomes opaque
            again = False
            for lf in self.leaves.values():
                if lf.mode == "sig":
                    self.give_up(lf)
                    again = True
        finally:
            I.record = rec
        if rec or again:
            nxt, exits, rets = self.run(self.head())
        fin = getattr(I, "loop_final", None)
        if fin is not None and nxt is not None:
            fin(self, nxt)
        return nxt, exits, rets

    def discover(self, st, nxt):
        changed = False
        old = list(self.leaves.values())
        for c, v in st.mem.items():
            w = nxt.mem.get(c)
            if w is None or w is v:
                continue
            out = []
            diff(v, w, (), out, nxt.ctx)
            for path in out:
                if self.covered(c, path):
                    continue
                # drop leaves below
                for k in [k for k in self.leaves if k[0] == c and k[1][:len(path)] == path and k[1] != path]:
                    del self.leaves[k]
                lf = Leaf()
                lf.cell, lf.path = c, path
                lf.tries = 0
                lf.v0 = prune(get_leaf(self.st0.mem[c], path, self.st0.ctx), self.st0.ctx)
                lf.ty = leaf_type(self.I, c, path, self.st0.mem[c])
                nv = prune(get_leaf(w, path, nxt.ctx), nxt.ctx)
                d = self.delta(lf.v0, get_leaf(v, path, st.ctx), nv)
                self.leaves[lf.key()] = lf
                if d is not None:
                    lf.mode, lf.d = "lin", d
                else:
                    lf.grow = self.growth(get_leaf(v, path, st.ctx), nv, nxt.ctx)
                    self.havoc(lf)
                changed = True
        # verify linear guesses
        for lf in list(self.leaves.values()):
            if lf.mode != "lin" or lf not in old:
                continue
            cur = self.at(lf)
            nv = prune(get_leaf(nxt.mem[lf.cell], lf.path, nxt.ctx), nxt.ctx)
            d = self.delta(lf.v0, cur, nv)
            if d is None or nxt.ctx.decide(eq(d, lf.d)) is not True:
                self.havoc(lf)
                changed = True
        # verify the guessed lengths
        for lf in list(self.leaves.values()):
            if lf.mode != "sig" or lf not in old or lf.grow is None or not isinstance(lf.sym, Seq):
                continue
            g = self.growth(lf.sym, prune(get_leaf(nxt.mem[lf.cell], lf.path, nxt.ctx), nxt.ctx), nxt.ctx)
            if g is None or g != lf.grow and nxt.ctx.decide(eq(g, lf.grow)) is not True:
                lf.grow = None
                self.havoc(lf)
                changed = True
        return changed

    def growth(self, cur, nv, ctx):
        """change of the length of a sequence over one iteration (None: not the same in every iteration)"""
        if not isinstance(cur, Seq) or not isinstance(leafof(nv), Seq):
            return ZERO
        n0, n1 = self.I.seqlen(cur), self.I.seqlen(nv)
        if not (isinstance(n0, Poly) and isinstance(n1, Poly)):
            return None
        d = n1 - n0
        if d == ZERO or ctx.decide(eq(d)) is True:
            return ZERO
        return d if self.invariant(d) else None

    def length(self, lf, tag):
        if lf.grow is None:
            return opq_poly(tag, (P(self.K),), 0)
        n0 = self.I.seqlen(lf.v0)
        return n0 if lf.grow == ZERO else n0 + lf.grow * P(self.K)

    def covered(self, c, path):
        return any(k[0] == c and path[:len(k[1])] == k[1] for k in self.leaves)

    def delta(self, v0, cur, nv):
        if isinstance(v0, Poly) and isinstance(cur, Poly) and isinstance(nv, Poly):
            d = nv - cur
        elif isinstance(v0, It) and isinstance(nv, It) and nv.elem is v0.elem and nv.n == v0.n and isinstance(cur, It):
            d = nv.pos - cur.pos
        elif isinstance(v0, Rng) and isinstance(nv, Rng) and isinstance(cur, Rng):
            d = nv.pos - cur.pos
        else:
            return None
        if self.invariant(d):
            return d
        return None

    def varying(self):
        """atom ids / array names that change from one iteration to the next"""
        ids = {self.K.id}
        names = set()
        for lf in self.leaves.values():
            if lf.mode != "sig":
                continue
            s = lf.sym
            if isinstance(s, Poly):
                ids |= {a for a in s.atoms()}
            elif isinstance(s, (It, Rng)):
                ids |= set(s.pos.atoms())
            elif is_bool(s):
                ids |= set(s[2].atoms())
            elif isinstance(s, SBase):
                names.add(s.name)
        return ids, names

    def dep_on(self, v, ids, names):
        try:
            d = vdeps(v)
        except Exception:
            return True
        if d & ids:
            return True
        if names:
            for a in d:
                A = term.atom_by_id(a)
                if A.kind == "sel" and base_name(A.args[0]) in names:
                    return True
        cuts = getattr(self.I, "cuts", None)
        if cuts is not None:
            # a symbol that abbreviates a value depends on what the value depends on
            for nm in {term.atom_by_id(a).args[0].split(".")[0] for a in d if term.atom_by_id(a).kind == "sel" and str(term.atom_by_id(a).args[0]).startswith("cut:")}:
                w = cuts.defs.get(nm)
                if w is None or self.dep_on(w[0], ids, names):
                    return True
        if has_hv(v):
            return True
        return False

    def invariant(self, v):
        ids, names = self.varying()
        return not self.dep_on(v, ids, names)

    # ------------------------------------------------------------ solving
    def solve_leaves(self, nxt):
        done = False
        I = self.I
        self._nxt = {lf.key(): prune(get_leaf(nxt.mem[lf.cell], lf.path, nxt.ctx), nxt.ctx)
                     for lf in self.leaves.values() if lf.mode == "sig"}
        ids, names = self.varying()
        ids = ids - {self.K.id}
        todo = [lf for lf in self.leaves.values() if lf.mode == "sig"]
        # locations whose next value depends on their own previous value only come first
        alone = [lf for lf in todo if self.own_only(lf, ids, names)]
        if alone and len(alone) < len(todo):
            todo = alone
        for lf in todo:
            nv = prune(get_leaf(nxt.mem[lf.cell], lf.path, nxt.ctx), nxt.ctx)
            ctx = nxt.ctx
            try:
                if isinstance(lf.sym, SBase) and I.opaque is not None and I.opaque(lf):
                    continue
                if isinstance(lf.sym, (It, Rng)):
                    if type(nv) is type(lf.sym) and (not isinstance(nv, It) or (nv.elem is lf.v0.elem and nv.n == lf.v0.n)):
                        s = self.scalar(nv.pos, lf.sym.pos, lf.v0.pos, ctx, ids, names)
                        if isinstance(s, Poly):
                            lf.sol = It(lf.v0.n, lf.v0.elem, s, lf.v0.tag) if isinstance(nv, It) else Rng(lf.v0.name, s)
                            lf.mode = "sol"
                            done = True
                    continue
                if isinstance(lf.sym, Opq):
                    # an unknown or unmodelled value: memoryless or nothing
                    if not isinstance(nv, (Opq, Undef_)) and not self.dep_on(nv, ids, names) and not has_opq(nv):
                        lf.sol = self.memoryless(nv, lf.v0)
                        lf.mode = "sol"
                        done = True
                    continue
                s = self.value(nv, lf.sym, lf.v0, ctx, ids, names, [])
            except Unsolved:
                continue
            lf.sol = s
            log = getattr(self.I, "loop_log", None)
            if log is not None and has_opq(s) and not has_opq(nv):
                log(self, lf, nv, ctx, s)
            lf.mode = "sol"
            done = True
        return done

    def own_only(self, lf, ids, names):
        nv = self._nxt[lf.key()]
        s = lf.sym
        own, nm = set(), None
        if isinstance(s, Poly):
            own = set(s.atoms())
        elif isinstance(s, (It, Rng)):
            own = set(s.pos.atoms())
        elif is_bool(s):
            own = set(s[2].atoms())
        elif isinstance(s, SBase):
            nm = s.name
        try:
            d = vdeps(nv)
        except Exception:
            return False
        if d & (ids - own):
            return False
        for a in d:
            A = term.atom_by_id(a)
            if A.kind == "sel":
                b = base_name(A.args[0])
                if b in names and b != nm:
                    return False
        return True

    def memoryless(self, nv, v0):
        k = P(self.K)
        prev = vsubst(nv, {self.K.id: k - 1})
        if same(vsubst(nv, {self.K.id: ZERO}), v0):
            return prev
        return choose(eq(k), v0, prev)

    def give_up(self, lf):
        lf.mode = "sol"
        k = P(self.K)
        if isinstance(lf.sym, Poly):
            lo, hi = int_bounds(self.I, lf.ty)
            lf.sol = opq_poly("loop:" + self.name, (k,), lo, hi)
        elif isinstance(lf.sym, It):
            lf.sol = It(lf.v0.n, lf.v0.elem, opq_poly("loopit", (k,), 0), lf.v0.tag)
        elif isinstance(lf.sym, Rng):
            lf.sol = Rng(lf.v0.name, opq_poly("looprng", (k,), 0))
        elif is_bool(lf.sym):
            lf.sol = ob("opq", opq_poly("loopb", (k,)))
        elif isinstance(lf.sym, SBase):
            _lid[0] += 1
            lf.sol = self.havoc_seq(lf.v0, "opq:loop:%s#%d" % (self.name, _lid[0]), (k,), self.length(lf, "len:%s#%d" % (self.name, _lid[0])))
        else:
            lf.sol = Opq("loop")

    def opaque_like(self, cur, ctx):
        if isinstance(cur, Poly):
            a = term.single_atom(cur)
            return opq_poly("loop:" + self.name, (P(self.K),) + (tuple(a.args[1:]) if a is not None and a.kind == "sel" else ()), a.lo if a else None, a.hi if a else None)
        if is_bool(cur):
            return ob("opq", opq_poly("loopb", (P(self.K),)))
        return Opq("loop")

    def value(self, nv, cur, v0, ctx, ids, names, idxs):
        """closed form of one (possibly structured) location"""
        if isinstance(cur, Agg) and isinstance(nv, Agg) and isinstance(leafof(v0), Agg) and nv.var == cur.var:
            out = []
            for i in range(len(cur.f)):
                a0 = field_of(v0, i, ctx)
                out.append(self.value(nv.f[i], cur.f[i], a0, ctx, ids, names, idxs))
            return Agg(nv.ty if nv.ty is not None else cur.ty, nv.var, out)
        if isinstance(cur, Agg) and isinstance(nv, Ch):
            # push the choice into the fields
            out = []
            for i in range(len(cur.f)):
                out.append(self.value(field_of(nv, i, ctx), cur.f[i], field_of(v0, i, ctx), ctx, ids, names, idxs))
            return Agg(cur.ty, cur.var, out)
        if isinstance(cur, Seq) and isinstance(leafof(nv), Seq) and isinstance(leafof(v0), Seq):
            nseq, v0s = nv, v0
            n0 = self.I.seqlen(v0s)
            n1 = self.I.seqlen(nseq)
            ncur = cur.n
            growth = None
            if not (isinstance(n0, Poly) and isinstance(n1, Poly)):
                raise Unsolved()
            if n1 != ncur and ctx.decide(eq(n1, ncur)) is not True:
                growth = n1 - ncur
                if self.dep_on(growth, ids | {self.K.id}, names):
                    raise Unsolved()
            x = mk_atom("var", ("ix%d" % next_ix(),), 0)
            X = P(x)
            cx = ctx.add(lt(X, n1))
            e1 = rd_any(nseq, X, cx)
            ec = cur.read(X, cx)
            e0 = rd_any(v0s, X, cx)
            if growth is not None:
                if growth != ONE:
                    raise Unsolved()
                # one push per iteration: the element at n0 + K is written by iteration K
                K = P(self.K)
                cp = ctx.add(eq(X, ncur))
                el = prune(vsubst(rd_any(nseq, ncur, ctx), {}), ctx)
                co = ctx.add(lt(X, ncur))
                kept = alike(cur.read(X, co), rd_any(nseq, X, co), co)
                if not kept:
                    # the elements pushed earlier are rewritten as well
                    raise Unsolved()
                if self.dep_on(el, ids, names) or has_hv(el):
                    raise Unsolved()
                k = X - n0
                inn = vsubst(el, {self.K.id: k})
                val = choose(lt(X, n0), rd_any(v0s, X, ctx.add(lt(X, n0))), inn, ctx) if n0 != ZERO else inn
                return SLam(n0 + K, x, val, cur.ety if cur.ety is not None else getattr(nseq, "ety", None))
            s = self.value(prune(e1, cx), ec, prune(e0, cx), cx, ids, names, idxs + [X])
            n = n0 if growth is None else n0 + growth * P(self.K)
            r = SLam(n, x, s, cur.ety if cur.ety is not None else getattr(nseq, "ety", None))
            return r
        return self.scalar(nv, cur, v0, ctx, ids, names)

    def scalar(self, nv, cur, v0, ctx, ids, names):
        nv = unchanged(prune(nv, ctx), cur, [], ctx)
        if same(nv, cur) or (isinstance(nv, HV) and isinstance(cur, HV)):
            return v0
        K = P(self.K)
        if not self.dep_on(nv, ids, names):
            if not has_k(nv, self.K) or not isinstance(nv, Ch):
                return self.memoryless(nv, v0)
            return self.memoryless(nv, v0)
        # gather guarded cases
        cases = []
        flatten(nv, [], ctx, cases)
        cases = [(cs, unchanged(v, cur, cs, ctx)) for cs, v in cases]
        if len(cases) > 24:
            return self.opaque_like(cur, ctx)
        # conditions that do not vary can be split off first
        inv = self.invariant_cond(cases, ctx)
        if inv is not None:
            a = self.scalar(prune(nv, ctx.add(inv)), cur, v0, ctx.add(inv), ids, names)
            b = self.scalar(prune(nv, ctx.add(neg(inv))), cur, v0, ctx.add(neg(inv)), ids, names)
            return choose(inv, a, b, ctx)
        if len(cases) == 1:
            return self.recurrence(cases[0][1], cur, v0, ctx, ids, names)
        if any(self.dep_on(c, ids, names) for cs, v in cases for c in cs):
            w = self.single_write(nv, cases, cur, v0, ctx, ids, names)
            return w if w is not None else self.opaque_like(cur, ctx)
        # all conditions depend on K only
        w = self.unique_writes(cases, cur, v0, ctx, ids, names)
        if w is not None:
            return w
        s = self.guarded_sum(cases, cur, v0, ctx, ids, names)
        if has_opq(s):
            p = self.prefix(cases, cur, v0, ctx, ids, names)
            if p is not None:
                return p
        return s

    def prefix(self, cases, cur, v0, ctx, ids, names):
        """one recurrence in the first t iterations, no change afterwards"""
        work = [(cs, v) for cs, v in cases if not same(v, cur)]
        if len(work) != 1:
            return None
        cs, v = work[0]
        kc = [c for c in cs if self.K.id in cond_deps(c)]
        if len(kc) != 1 or len(cs) != 1 or kc[0][0] != "ge":
            return None
        s = lin_in(kc[0][1], self.K.id)
        if s is None or not s[0].is_const() or s[0].cval() not in (1, -1) or self.dep_on(s[1], ids | {self.K.id}, names):
            return None
        if s[0].cval() == 1:
            # no change in the first t iterations, one recurrence afterwards
            K = P(self.K)
            t = -s[1]
            if not ctx.ge0(t):
                return None
            r = self.recurrence(vsubst(v, {self.K.id: K + t}), cur, v0, ctx_without(ctx, self.K), ids, names)
            if has_opq(r):
                return None
            return choose(le(K, t), v0, vsubst(r, {self.K.id: K - t}), ctx)
        t = s[1] + 1
        r = self.recurrence(v, cur, v0, ctx, ids, names)
        if has_opq(r):
            return None
        K = P(self.K)
        end = vsubst(r, {self.K.id: t})
        if not ctx.ge0(t):
            end = choose(ge(t), end, v0, ctx)
        return choose(le(K, t), r, end, ctx)

    def invariant_cond(self, cases, ctx):
        ids, names = self.varying()
        for cs, v in cases:
            for c in cs:
                if not self.dep_on(c, ids, names) and ctx.decide(c) is None and ctx.add(c).decide(c) is True and ctx.add(neg(c)).decide(c) is False:
                    return c
        return None

    def single_write(self, nv, cases, cur, v0, ctx, ids, names):
        """the location is modified in one iteration only, in a way that may depend on its old value"""
        K = P(self.K)
        found = None
        kcs = None
        for cs, v in cases:
            if same(v, cur):
                continue
            kc = [c for c in cs if not self.dep_on(c, ids, names)]
            ks = self.solve_k(kc, ctx)
            if ks is None or (found is not None and ks[0] != found[0]):
                return None
            found = ks
            kcs = kc if kcs is None else [c for c in kcs if c in kc]
        if found is None:
            return None
        k, ex = found
        m = {self.K.id: k}
        c = conj([ex, ge(k), lt(k, K)] + [subst_cond(x, m) for x in kcs])
        if ctx.decide(c) is False:
            return v0
        cx = ctx_without(ctx, self.K).add(c)
        val = self.resolve(prune(vsubst(nv, m), cx), k, cur, v0, cx, ids, names, None)
        if val is None:
            return None
        return choose(c, val, v0, ctx)

    def unique_writes(self, cases, cur, v0, ctx, ids, names):
        K = P(self.K)
        writes = []
        for cs, v in cases:
            if same(v, cur) or (isinstance(v, HV) and isinstance(cur, HV)):
                continue
            ks = self.solve_k(cs, ctx)
            if ks is None:
                return None
            writes.append((cs, v) + ks)
        out = v0
        conds = []
        for cs, v, k, ex in writes:
            m = {self.K.id: k}
            c = conj([ex, ge(k), lt(k, K)] + [subst_cond(x, m) for x in cs])
            if ctx.decide(c) is False:
                continue
            for c2 in conds:
                if ctx.add(c).decide(c2) is not False and not ctx.add(c, c2).infeasible():
                    return None
            conds.append(c)
            cx = ctx_without(ctx, self.K).add(c)
            val = vsubst(v, m)
            val = self.resolve(val, k, cur, v0, cx, ids, names, writes)
            if val is None:
                return None
            out = choose(c, val, out, ctx)
        return out

    def resolve(self, val, k, cur, v0, ctx, ids, names, writes):
        """replace recurrence symbols in a value written at iteration k (each location written once)"""
        if not self.dep_on(val, ids, names):
            return val
        ca = term.single_atom(cur) if isinstance(cur, Poly) else None
        # the location's own old value
        m = {}
        for a in vdeps(val):
            A = term.atom_by_id(a)
            if ca is not None and a == ca.id and isinstance(v0, (Poly, Ch)):
                m[a] = v0
                continue
            if A.kind == "sel" and base_name(A.args[0]) in names:
                o = self.old_value(A, k, ctx, names)
                if o is None:
                    return None
                m[a] = o
            elif a in ids:
                return None
        if any(isinstance(x, Ch) for x in m.values()):
            r = subst_choice(val, m, ctx)
        else:
            r = vsubst(val, m)
        if self.dep_on(r, ids, names):
            return None
        return r

    def old_value(self, A, k, ctx, names):
        """value of another element of a recurrence array at iteration k: its entry value, when it
        has provably not been written before iteration k"""
        nm = base_name(A.args[0])
        lf = next((l for l in self.leaves.values() if isinstance(l.sym, SBase) and l.mode == "sig" and l.sym.name == nm), None)
        if lf is None or len(A.args) != 2 + 0 and len(A.args) < 2:
            return None
        idx = A.args[1:]
        if A.args[0] != nm:
            # structured element
            v = lf.v0
            cv = lf.sym
            nvx = self._nxt_of(lf)
            for i in idx:
                v = rd_any(v, i, ctx) if isinstance(leafof(v), Seq) else v
        nx = self._nxt_of(lf)
        if nx is None:
            return None
        cell_old = read_path(lf.v0, A, nm, idx, ctx)
        cur = read_path(lf.sym, A, nm, idx, ctx)
        nv = read_path(nx, A, nm, idx, ctx)
        if cell_old is None or nv is None:
            return None
        cases = []
        flatten(prune(nv, ctx), [], ctx, cases)
        K = P(self.K)
        for cs, v in cases:
            v = unchanged(v, cur, cs, ctx)
            if same(v, cur):
                continue
            ks = self.solve_k(cs, ctx)
            if ks is None:
                return None
            k2, ex = ks
            c = conj([ex, ge(k2), lt(k2, k)] + [subst_cond(x, {self.K.id: k2}) for x in cs])
            if ctx.decide(c) is not False and not ctx.add(c).infeasible():
                return None
        return cell_old

    def _nxt_of(self, lf):
        return self._nxt.get(lf.key()) if hasattr(self, "_nxt") else None

    def solve_k(self, cs, ctx):
        """unique K satisfying the conditions: (K, exactness condition)"""
        kid = self.K.id
        for c in cs:
            if c[0] == "eq":
                s = lin_in(c[1], kid)
                if s is None:
                    continue
                a, b = s
                if a.is_const() and a.cval() in (1, -1):
                    return (-b).scale(a.cval()), T
                # a K + b = 0, a > 0
                if a.bounds()[1] is not None and a.bounds()[1] < 0:
                    a, b = -a, -b
                if a.bounds()[0] is not None and a.bounds()[0] > 0:
                    k = mk_quo(-b, a, ctx)
                    return k, eq(a * k + b)
        ges = []
        for c in cs:
            if c[0] == "ge":
                s = lin_in(c[1], kid)
                if s is not None and s[0] != ZERO:
                    ges.append(s)
        for a, b in ges:
            # a K + b >= 0 with a > 0 : lower bound on K ; -a' K + b' >= 0: upper bound
            for a2, b2 in ges:
                if a2 != -a:
                    continue
                for (p, u), (_, v) in (((a, b), (a2, b2)),):
                    if p.bounds()[0] is None or p.bounds()[0] <= 0:
                        continue
                    # -u <= p K <= v, unique when u+v < p
                    if ctx.ge0(p - 1 - (u + v)):
                        # any number from v to p - 1 - u lies in the same block
                        w = p - 1 - u
                        k = mk_quo(w if v.cval() != 0 and w.cval() == 0 else v, p, ctx)
                        return k, T
        # bounds on K known from the context complete a single inequality
        return None

    def guarded_sum(self, cases, cur, v0, ctx, ids, names):
        """every case adds to the old value (maybe modulo q, maybe lazily reduced)"""
        q = None
        lazy = False
        terms = []
        ca = term.single_atom(cur) if isinstance(cur, Poly) else None
        if ca is None or not isinstance(v0, Poly):
            return self.opaque_like(cur, ctx)
        for cs, v in cases:
            if same(v, cur):
                continue
            if not isinstance(v, Poly):
                return self.opaque_like(cur, ctx)
            at = term.single_atom(v)
            body = v
            lz = lazy_parts(v)
            if lz is not None:
                at, lazy = lz, True
            if at is not None and at.kind == "rem" and not self.dep_on(at.args[1], ids | {self.K.id}, names):
                if q is not None and q != at.args[1]:
                    return self.opaque_like(cur, ctx)
                q = at.args[1]
                body = at.args[0]
            elif q is not None:
                return self.opaque_like(cur, ctx)
            g = body - cur
            if self.dep_on(g, ids | {ca.id}, names):
                return self.opaque_like(cur, ctx)
            terms.append((conj(cs), g))
        tot = ZERO
        for c, g in terms:
            tot = tot + indicator(c) * g
        s = term.mk_sum(tot, self.K, P(self.K))
        if q is None:
            return v0 + s
        r = mk_rem(v0 + s, q, ctx)
        if lazy:
            r = r + q * term.mk_fn("lazybit", ("acc%d" % self.id, P(self.K)) + tuple(x for x in ca.args if isinstance(x, Poly)), 0, 1)
            # until the first case applies the old value is kept, canonical or not
            return choose(eq(P(self.K)), v0, r, ctx) if term.in_range(v0, q, ctx) else self.opaque_like(cur, ctx)
        if term.in_range(v0, q, ctx):
            return r
        return choose(eq(P(self.K)), v0, r, ctx)

    def recurrence(self, e, cur, v0, ctx, ids, names):
        K = P(self.K)
        if same(e, cur):
            return v0
        ca = term.single_atom(cur) if isinstance(cur, Poly) else None
        if ca is None or not isinstance(e, Poly):
            if is_bool(cur) and is_bool(e):
                return self.opaque_like(cur, ctx)
            return self.opaque_like(cur, ctx) if not isinstance(cur, HV) else Opq("loop")
        others = (ids - {ca.id})
        nm = {base_name(ca.args[0])} if ca.kind == "sel" else set()

        def clean(g):
            # free of every recurrence symbol (K allowed)
            return not self.dep_on(g, ids | {ca.id}, names)

        if isinstance(v0, Ch):
            return choose(v0.c, self.recurrence(e, cur, v0.a, ctx.add(v0.c), ids, names),
                          self.recurrence(e, cur, v0.b, ctx.add(neg(v0.c)), ids, names), ctx)
        if not isinstance(v0, Poly):
            return self.opaque_like(cur, ctx)
        g = e - cur
        if clean(g):
            return v0 + term.mk_sum(g, self.K, K)
        at = term.single_atom(e)
        if at is not None and at.kind == "rem" and clean(at.args[1]) and not has_k(at.args[1], self.K):
            q, body = at.args[1], at.args[0]
            # coefficients may have been reduced: look for cur with coefficient 1 modulo q
            g = body - cur
            if clean(g):
                r = mk_rem(v0 + term.mk_sum(g, self.K, K), q, ctx)
                return r if term.in_range(v0, q, ctx) else choose(eq(K), v0, r, ctx)
            s = lin_in(body, ca.id)
            if s is not None and s[1] == ZERO and clean(s[0]) and not has_k(s[0], self.K):
                r = mk_rem(v0 * mk_pow(s[0], K), q, ctx)
                return r if term.in_range(v0, q, ctx) else choose(eq(K), v0, r, ctx)
            return self.opaque_like(cur, ctx)
        # lazily reduced accumulator: congruent to the sum, below 2 q
        if len(e.d) == 2:
            rm = lazy_parts(e)
            if rm is not None:
                q = rm.args[1]
                g = rm.args[0] - cur
                if clean(g):
                    r = mk_rem(v0 + term.mk_sum(g, self.K, K), q, ctx) + q * term.mk_fn("lazybit", ("acc%d" % self.id, K) + tuple(x for x in ca.args if isinstance(x, Poly)), 0, 1)
                    return choose(eq(K), v0, r, ctx)
        s = lin_in(e, ca.id)
        if s is not None and s[1] == ZERO and clean(s[0]) and not has_k(s[0], self.K):
            return v0 * mk_pow(s[0], K)
        # one word of a multi-word sum: ((X + m cur) mod m c - (X mod m)) / m
        if len(e.d) == 2:
            r = self.upper_word(e, cur, v0, ctx, clean)
            if r is not None:
                return r
        # quotient by a constant
        if e.d and len(e.d) == 2:
            c = e.d.get((ca.id,))
            if isinstance(c, Fraction) and c.numerator == 1:
                d = c.denominator
                if e == mk_quo(cur, const(d)):
                    return mk_quo(v0, mk_pow(const(d), K), ctx)
        if at is not None and at.kind == "quo" and at.args[0] == cur and clean(at.args[1]) and not has_k(at.args[1], self.K):
            return mk_quo(v0, mk_pow(at.args[1], K), ctx)
        return self.opaque_like(cur, ctx)


    def upper_word(self, e, cur, v0, ctx, clean):
        K = P(self.K)
        for mm, k in e.d.items():
            A = term.atom_by_id(mm[0]) if len(mm) == 1 else None
            if A is None or A.kind != "rem" or not A.args[1].is_const() or not isinstance(k, Fraction) or k.numerator != 1:
                continue
            m = k.denominator
            if A.args[1].cval() % m:
                continue
            q = A.args[1].cval() // m
            X = A.args[0] - cur * m
            if not clean(X) or e - P(A).scale(k) != -mk_rem(X, const(m)).scale(k):
                continue
            r = mk_rem(v0 + term.mk_sum((X - mk_rem(X, const(m))).scale(k), self.K, K), const(q), ctx)
            return r if term.in_range(v0, const(q), ctx) else choose(eq(K), v0, r, ctx)
        return None

def lazy_parts(e):
    """the remainder atom r of a lazily reduced value r + q*bit"""
    if not isinstance(e, Poly) or len(e.d) != 2:
        return None
    ats = [(term.atom_by_id(mm[0]), c) for mm, c in e.d.items() if len(mm) == 1]
    rm = [A for A, c in ats if A.kind == "rem" and c == 1]
    lz = [(A, c) for A, c in ats if A.kind == "fn" and A.args[0] == "lazybit"]
    return rm[0] if len(rm) == 1 and len(lz) == 1 and rm[0].args[1] == const(lz[0][1]) else None


def unchanged(v, cur, cs, ctx):
    """the value of a case, with the array elements that the equalities of the case identify with the current
    element written as the current element"""
    if same(v, cur) or not (isinstance(v, Poly) and isinstance(cur, Poly)):
        return v
    ca = term.single_atom(cur)
    if ca is None or ca.kind != "sel":
        return v
    cx = ctx.add(*cs) if cs else ctx
    sub = cx.eqsub()
    if not sub:
        return v
    m = {}
    for a in v.deps():
        A = term.atom_by_id(a)
        if A.kind == "sel" and a != ca.id and A.args[0] == ca.args[0] and len(A.args) == len(ca.args) and \
                all(term.subst(x - y, sub) == ZERO for x, y in zip(A.args[1:], ca.args[1:])):
            m[a] = cur
    return term.subst(v, m) if m else v


class Unsolved(Exception):
    pass


def base_name(n):
    """array name of a possibly structured element name (g<id>.0.1)"""
    m = re.match(r"(gs\d+_\d+)", n)
    return m.group(1) if m else n


def read_path(v, A, nm, idx, ctx):
    """follow an atom sel(nm.f.., idx..) through a value"""
    rest = A.args[0][len(nm):]
    fields = [int(x) for x in rest.split(".") if x != ""]
    idx = list(idx)
    # interleave: descend Seq with indices, Agg with fields
    n = 0
    while n < 12:
        n += 1
        l = leafof(v)
        if isinstance(l, Seq):
            if not idx:
                return None
            v = rd_any(v, idx.pop(0), ctx)
        elif isinstance(l, Agg):
            if not fields:
                return None
            v = field_of(v, fields.pop(0), ctx)
        else:
            return v if not idx and not fields else None
    return None


def rd_any(v, i, ctx):
    if isinstance(v, Ch):
        r = ctx.decide(v.c)
        if r is True:
            return rd_any(v.a, i, ctx)
        if r is False:
            return rd_any(v.b, i, ctx)
        return choose(v.c, rd_any(v.a, i, ctx.add(v.c)), rd_any(v.b, i, ctx.add(neg(v.c))), ctx)
    if isinstance(v, Seq):
        return rd(v, i, ctx)
    return Opq("read")


def field_of(v, i, ctx):
    if isinstance(v, Ch):
        return choose(v.c, field_of(v.a, i, ctx), field_of(v.b, i, ctx), ctx)
    if isinstance(v, Agg) and i < len(v.f):
        return v.f[i]
    if v is UNDEF:
        return UNDEF
    return Opq("field")


def leafof(v):
    while isinstance(v, Ch):
        v = v.a
    return v


def seq_dom(e0):
    """bounds valid for every value in a choice of polynomials, when they are plain array reads"""
    a = term.single_atom(leafof(e0)) if not isinstance(e0, Ch) else None
    return None


def has_k(v, K):
    try:
        return K.id in vdeps(v)
    except Exception:
        return True


def has_hv(v, d=0):
    if isinstance(v, HV):
        return True
    if isinstance(v, Agg):
        return any(has_hv(x) for x in v.f)
    if isinstance(v, Ch):
        return has_hv(v.a) or has_hv(v.b)
    if isinstance(v, Seq):
        if isinstance(v, SBase):
            return False
        return has_hv(v.templ()[1])
    return False


def flatten(v, cs, ctx, out):
    if isinstance(v, Ch):
        r = ctx.decide(v.c)
        if r is not False:
            c2 = ctx.add(v.c)
            if not c2.infeasible():
                for alt in alts(v.c):
                    flatten(v.a, cs + alt, ctx.add(*alt), out)
        if r is not True:
            n = neg(v.c)
            c2 = ctx.add(n)
            if not c2.infeasible():
                for alt in alts(n):
                    flatten(v.b, cs + alt, ctx.add(*alt), out)
        return
    out.append((cs, v))


def alts(c):
    """disjoint alternatives of a condition, each a list of literals"""
    if c[0] == "and":
        res = [[]]
        for x in c[1]:
            res = [r + a for r in res for a in alts(x)]
        return res
    if c[0] == "or":
        res = []
        prev = []
        for x in c[1]:
            for a in alts(x):
                res.append(prev + a)
            nx = neg(x)
            if nx[0] == "or":
                # keep it simple: negation of a conjunction stays one literal
                prev = prev + [nx]
            else:
                prev = prev + (list(nx[1]) if nx[0] == "and" else [nx])
        return res
    if c[0] in ("eq",) :
        return [[c]]
    return [[c]]


def lin_in(p, aid):
    """p = a * atom + b with a, b free of the atom at top level; None if not linear"""
    a, b = {}, {}
    for m, c in p.d.items():
        n = m.count(aid)
        if n == 0:
            b[m] = c
        elif n == 1:
            r = list(m)
            r.remove(aid)
            a[tuple(r)] = c
        else:
            return None
    A, B = Poly(a), Poly(b)
    if aid in A.deps() or aid in B.deps():
        return None
    return A, B


def subst_choice(v, m, ctx):
    """substitute atoms by values that may be choices"""
    for a, x in m.items():
        if isinstance(x, Ch):
            m1 = dict(m)
            m1[a] = x.a
            m2 = dict(m)
            m2[a] = x.b
            return choose(x.c, subst_choice(v, m1, ctx.add(x.c)), subst_choice(v, m2, ctx.add(neg(x.c))), ctx)
    if any(not isinstance(x, Poly) for x in m.values()):
        return Opq("subst")
    return vsubst(v, m, ctx)


def ctx_without(ctx, K):
    from interp import Ctx_of
    if not any(K.id in cond_deps(c) for c in ctx.facts):
        return ctx
    return Ctx_of([c for c in ctx.facts if K.id not in cond_deps(c)])


# ---------------------------------------------------------------- entry points
def subst_state(st, m, base):
    """replace atoms in every cell that differs from the base state, and in the facts"""
    from interp import Ctx_of, St
    facts = [subst_cond(c, m) if any(k in cond_deps(c) for k in m) else c for c in st.ctx.facts]
    ctx = Ctx_of([f for f in facts if f != T])
    mem = {}
    for c, v in st.mem.items():
        if base.mem.get(c) is v:
            mem[c] = v
            continue
        try:
            mem[c] = vsubst(v, m, ctx) if any(k in vdeps(v) for k in m) else v
        except Exception as e:
            mem[c] = Opq("subst: %r" % (e,))
    return St(mem, ctx)


def trip(loop, ctx0, facts):
    """iteration number at which an exit with these extra facts is taken; None if unknown"""
    K = loop.K
    cand = [c for c in facts if K.id in cond_deps(c)]
    if len(cand) != 1:
        # prefer a single defining inequality; others may be consequences
        lin = [c for c in cand if c[0] in ("ge", "eq")]
        if len(lin) != 1 or len(cand) != len(lin):
            return None
        cand = lin
    c = cand[0]
    if c[0] == "eq":
        s = lin_in(c[1], K.id)
        if s is None or not s[0].is_const() or s[0].cval() not in (1, -1):
            return None
        n = (-s[1]).scale(s[0].cval())
        return n
    if c[0] != "ge":
        return None
    s = lin_in(c[1], K.id)
    if s is None:
        return None
    a, b = s
    if a.bounds()[0] is None or a.bounds()[0] <= 0:
        return None
    # a K + b >= 0  <=>  K >= ceil(-b / a)
    n = -b if a == ONE else mk_quo(-b + a - 1, a, ctx0)
    if ctx0.ge0(n):
        return n
    return mk_max(n, ZERO, ctx0)


def bounded_by(c, K, n, ctx):
    """does c hold for every K < n"""
    return ctx.add(ge(n - P(K) - 1)).decide(c) is True


def unrolled(I, fr, header, body, st):
    """follow the iterations one by one (used where the number of iterations is fixed by the analysis)"""
    exits, rets = [], []
    for _ in range(I.unroll[1] + 1):
        e, r, nexts = I.run_region(fr, header, st.copy(), body, header)
        exits += e
        rets += r
        nexts = [s for s in nexts if not s.ctx.infeasible()]
        if not nexts:
            return [x for x in exits if not x[1].ctx.infeasible()], rets
        st = I.merge(nexts)
    return None


def cfg_loop(I, fr, header, body, st):
    if I.unroll is not None and I.unroll[0](fr):
        r = unrolled(I, fr, header, body, st)
        if r is not None:
            return r
    def run(s):
        exits, rets, nexts = I.run_region(fr, header, s, body, header)
        nxt = I.merge(nexts) if nexts else None
        return nxt, exits, rets
    lp = Loop(I, st, run, short(fr.fn.name))
    nxt, exits, rets = lp.solve()
    if nxt is None:
        return exits, rets
    base = set(st.ctx.facts)
    outs = [(t, s, "x") for t, s in exits] + [(None, s, "r") for s in rets]
    res_e, res_r = [], []
    n_out = len(outs)
    # the regular exit: the one whose trip count is determined
    regular = None
    trips = []
    for t, s, k in outs:
        extra = [c for c in s.ctx.facts if c not in base]
        trips.append(trip(lp, st.ctx, extra))
    known = [i for i, x in enumerate(trips) if x is not None]
    if len(known) >= 1:
        regular = known[0]
    # the iteration at which an early exit is taken: the least one satisfying its condition
    mu = None
    if regular is not None and n_out > 1:
        cs = []
        for i, (t, s, k) in enumerate(outs):
            if i != regular:
                cs.append(conj([c for c in s.ctx.facts if c not in base and not bounded_by(c, lp.K, trips[regular], st.ctx)]))
        c = disj(cs)
        if not cond_opq(c) and c not in (T, F):
            mu = term.mk_mu(term.indicator(c), lp.K, trips[regular])
    for i, (t, s, k) in enumerate(outs):
        facts = []
        if i == regular:
            n = trips[i]
            if mu is not None:
                facts = [eq(mu - n)]
        elif mu is not None:
            n = mu
            facts = [ge(trips[regular] - mu - 1)]
        else:
            n = P(term.mk_atom("opq", ("trip#%d" % lp.id, i), 0, (trips[regular] - 1) if regular is not None else None))
        s2 = subst_state(s, {lp.K.id: n}, st)
        if facts:
            s2.ctx = s2.ctx.add(*facts)
        if s2.ctx.infeasible():
            continue
        if k == "x":
            res_e.append((t, s2))
        else:
            res_r.append(s2)
    return res_e, res_r


def counted(I, fr, st, n, body, name):
    if n is None:
        I.note("unbounded iterator in " + name)
        return st
    if isinstance(n, Poly) and not st.ctx.ge0(n):
        n = mk_max(n, ZERO, st.ctx)
    if n == ZERO:
        return st
    if I.unroll is not None and n.is_const() and n.cval() <= I.unroll[1] and I.unroll[0](fr):
        for k in range(int(n.cval())):
            st = body(st, const(k))
            if st is None:
                return None
        return st

    def run(s):
        try:
            r = body(s, P(lp.K))
        except Exception as e:
            if type(e).__name__ == "Diverge":
                return None, [], []
            raise
        return r, [], []
    lp = Loop(I, st, run, short(fr.fn.name) + "/" + name if fr else name, bound=n)
    nxt, _, _ = lp.solve()
    if nxt is None:
        # the body never completes: only zero iterations survive
        s = st.copy()
        s.ctx = s.ctx.add(eq(n))
        return None if s.ctx.infeasible() else s
    # facts learnt inside an iteration do not survive; the state is the head state at K = n
    h = lp.head()
    h.ctx = st.ctx
    return subst_state(h, {lp.K.id: n}, st)


def short(n):
    return n.split("::")[-1][:30]
