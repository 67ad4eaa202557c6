"""Abstract values: integers are Poly (or Ch of Poly), booleans conditions, plus aggregates,
gated choices, references (cell, path), sequences described by a template, and iterators."""
import term
from term import *


class Undef_:
    def __repr__(self):
        return "undef"


UNDEF = Undef_()


class Opq:
    """unknown value"""
    __slots__ = ("why", "ty")

    def __init__(self, why, ty=None):
        self.why = why
        self.ty = ty

    def __repr__(self):
        return "?%s" % self.why


class Agg:
    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = tuple(f)

    def __repr__(self):
        return "%s{%s}" % ("v%s" % self.var if self.var else "", ", ".join(vshow(x) for x in self.f))


class Ch:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "if(%s){%s}else{%s}" % (show_cond(self.c), vshow(self.a), vshow(self.b))


class Ref:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return "&%s%s" % (self.cell, list(self.path))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))


class FnV:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst

    def __eq__(self, o):
        return isinstance(o, FnV) and o.inst == self.inst

    def __hash__(self):
        return hash(self.inst)


class Rng:
    """random stream: name and number of values drawn so far"""
    __slots__ = ("name", "pos")

    def __init__(self, name, pos):
        self.name, self.pos = name, pos

    def __repr__(self):
        return "rng(%s@%s)" % (self.name, show(self.pos))


class It:
    """iterator: remaining items are elem(pos), ..., elem(n-1).  n None = unbounded.
    elem(interp, st, k) -> (value, st)"""
    __slots__ = ("n", "pos", "elem", "tag")

    def __init__(self, n, elem, pos=ZERO, tag=None):
        self.n, self.elem, self.pos, self.tag = n, elem, pos, tag

    def __repr__(self):
        return "it(%s..%s)" % (show(self.pos), show(self.n) if self.n is not None else "inf")


# ---------------------------------------------------------------- sequences
class Seq:
    __slots__ = ("n", "ety", "_t")

    def read(self, i, ctx):
        raise NotImplementedError

    def templ(self):
        t = getattr(self, "_t", None)
        if t is None:
            x = mk_atom("var", ("ix%d" % next_ix(),), 0)
            t = (x, self.read(P(x), EMPTY))
            self._t = t
        return t

    def __repr__(self):
        return seq_show(self)


_ix = [0]


def next_ix():
    _ix[0] += 1
    return _ix[0]


class SBase(Seq):
    __slots__ = ("name", "idxs", "mk")

    def __init__(self, name, idxs, n, ety, mk):
        self.name, self.idxs, self.n, self.ety, self.mk = name, tuple(idxs), n, ety, mk
        self._t = None

    def read(self, i, ctx):
        return self.mk(self.ety, self.name, self.idxs + (i,))


class SLam(Seq):
    __slots__ = ("v", "val")

    def __init__(self, n, v, val, ety=None):
        self.n, self.v, self.val, self.ety = n, v, val, ety
        self._t = None

    def read(self, i, ctx):
        return vsubst(self.val, {self.v.id: i}, ctx)

    def templ(self):
        return (self.v, self.val)


class SConst(Seq):
    __slots__ = ("val",)

    def __init__(self, n, val, ety=None):
        self.n, self.val, self.ety = n, val, ety
        self._t = None

    def read(self, i, ctx):
        return self.val


class SLit(Seq):
    """literal list of values"""
    __slots__ = ("vals",)

    def __init__(self, vals, ety=None):
        self.vals = list(vals)
        self.n = const(len(self.vals))
        self.ety = ety
        self._t = None

    def read(self, i, ctx):
        if not isinstance(i, Poly):
            return Opq("index")
        i = ctx.simp(i)
        if i.is_const():
            k = i.cval()
            if 0 <= k < len(self.vals):
                return self.vals[k]
            return Opq("index out of literal")
        out = self.vals[-1] if self.vals else Opq("empty")
        for k in range(len(self.vals) - 2, -1, -1):
            out = choose(eq(i, const(k)), self.vals[k], out, ctx)
        return out


class SUpd(Seq):
    __slots__ = ("base", "idx", "val")

    def __init__(self, base, idx, val, n=None):
        self.base, self.idx, self.val = base, idx, val
        self.n = n if n is not None else base.n
        self.ety = base.ety
        self._t = None

    def read(self, i, ctx):
        c = eq(i, self.idx)
        r = ctx.decide(c)
        if r is True:
            return self.val
        b = self.base.read(i, ctx)
        if r is False:
            return b
        return choose(c, self.val, b, ctx)


class SSplice(Seq):
    __slots__ = ("base", "off", "src")

    def __init__(self, base, off, src, n=None):
        self.base, self.off, self.src = base, off, src
        self.n = n if n is not None else base.n
        self.ety = base.ety
        self._t = None

    def read(self, i, ctx):
        lo = le(self.off, i)
        hi = lt(i, self.off + self.src.n)
        r = ctx.decide(conj([lo, hi]))
        if r is False:
            return self.base.read(i, ctx)
        if r is True:
            return self.src.read(i - self.off, ctx)
        s = self.src.read(i - self.off, ctx.add(lo, hi))
        return choose(conj([lo, hi]), s, self.base.read(i, ctx), ctx)


class SView(Seq):
    __slots__ = ("base", "off")

    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n
        self.ety = base.ety
        self._t = None

    def read(self, i, ctx):
        return self.base.read(i + self.off, ctx)


class SCh(Seq):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b, n=None):
        self.c, self.a, self.b = c, a, b
        self.n = a.n if n is None else n
        self.ety = a.ety
        self._t = None

    def read(self, i, ctx):
        r = ctx.decide(self.c)
        if r is True:
            return self.a.read(i, ctx)
        if r is False:
            return self.b.read(i, ctx)
        return choose(self.c, self.a.read(i, ctx.add(self.c)), self.b.read(i, ctx.add(neg(self.c))), ctx)


class SPerm(Seq):
    """read(i) = base.read(perm(i, ctx))"""
    __slots__ = ("base", "perm")

    def __init__(self, base, perm, n=None):
        self.base, self.perm = base, perm
        self.n = n if n is not None else base.n
        self.ety = base.ety
        self._t = None

    def read(self, i, ctx):
        j = self.perm(i, ctx)
        return rd(self.base, j, ctx)


class SSub(Seq):
    __slots__ = ("base", "m", "tt")

    def __init__(self, base, m, ctx=None):
        self.base, self.m = base, m
        self.n = subst(base.n, m, ctx)
        self.ety = base.ety
        self._t = None
        self.tt = None

    def templ(self):
        if self.tt is None:
            x, v = self.base.templ()
            y = mk_atom("var", ("ix%d" % next_ix(),), 0)
            v = vsubst(v, {x.id: P(y)})
            self.tt = (y, vsubst(v, self.m))
        return self.tt

    def read(self, i, ctx):
        y, v = self.templ()
        return vsubst(v, {y.id: i}, ctx)


def rd(seq, j, ctx):
    """read at an index that may be a choice"""
    if isinstance(j, Ch):
        r = ctx.decide(j.c)
        if r is True:
            return rd(seq, j.a, ctx)
        if r is False:
            return rd(seq, j.b, ctx)
        return choose(j.c, rd(seq, j.a, ctx.add(j.c)), rd(seq, j.b, ctx.add(neg(j.c))), ctx)
    return seq.read(j, ctx)


def is_bool(v):
    return isinstance(v, tuple) and v and v[0] in ("T", "F", "ge", "eq", "ne", "and", "or", "ob", "nb")


def is_float(v):
    return isinstance(v, tuple) and v and v[0] == "fl"


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Poly, tuple, Ref, FnV)):
        return a == b
    if isinstance(a, Agg):
        return a.var == b.var and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Ch):
        return a.c == b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, It):
        return a.elem is b.elem and a.n == b.n and a.pos == b.pos
    if isinstance(a, Rng):
        return a.name == b.name and a.pos == b.pos
    return False


def choose(c, a, b, ctx=EMPTY):
    """value of `if c {a} else {b}`, pushed into structure"""
    if c == T:
        return a
    if c == F:
        return b
    if same(a, b):
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.f) == len(b.f) and a.var is None:
        return Agg(a.ty, a.var, [choose(c, x, y, ctx) for x, y in zip(a.f, b.f)])
    if is_bool(a) and is_bool(b):
        return disj([conj([c, a]), conj([neg(c), b])])
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.n == b.n or ctx.decide(eq(a.n, b.n)) is True:
            return SCh(c, a, b)
        if not cond_opq(c):
            if ctx.add(c).decide(eq(a.n, b.n)) is True:
                return SCh(c, a, b, b.n)
            if ctx.add(neg(c)).decide(eq(a.n, b.n)) is True:
                return SCh(c, a, b, a.n)
    if isinstance(a, Ch) and a.c == c:
        a = a.a
    if isinstance(b, Ch) and b.c == c:
        b = b.b
    if isinstance(a, Ch) and a.c == neg(c):
        a = a.b
    if isinstance(b, Ch) and b.c == neg(c):
        b = b.a
    if same(a, b):
        return a
    if isinstance(a, Ch) and same(a.b, b):
        return choose(conj([c, a.c]), a.a, b, ctx)
    return Ch(c, a, b)


def prune(v, ctx):
    """resolve choices decided by ctx"""
    while isinstance(v, Ch):
        r = ctx.decide(v.c)
        if r is True:
            v = v.a
        elif r is False:
            v = v.b
        else:
            a = prune(v.a, ctx.add(v.c))
            b = prune(v.b, ctx.add(neg(v.c)))
            if a is v.a and b is v.b:
                return v
            return choose(v.c, a, b, ctx)
    return v


def lift(f, args, ctx, depth=0):
    """apply f to args, distributing over choices; f(args, ctx)"""
    for i, a in enumerate(args):
        if isinstance(a, Ch):
            r = ctx.decide(a.c)
            if r is True:
                return lift(f, args[:i] + [a.a] + args[i + 1:], ctx, depth)
            if r is False:
                return lift(f, args[:i] + [a.b] + args[i + 1:], ctx, depth)
            if depth > 7:
                return Opq("too many cases")
            x = lift(f, args[:i] + [a.a] + args[i + 1:], ctx.add(a.c), depth + 1)
            y = lift(f, args[:i] + [a.b] + args[i + 1:], ctx.add(neg(a.c)), depth + 1)
            return choose(a.c, x, y, ctx)
    for a in args:
        if isinstance(a, Opq):
            return a
        if a is UNDEF:
            return Opq("undef")
    return f(args, ctx)


def vdeps(v):
    if isinstance(v, Poly):
        return v.deps()
    if isinstance(v, tuple):
        return cond_deps(v) if is_bool(v) else term._adeps(v)
    if isinstance(v, Agg):
        r = frozenset()
        for x in v.f:
            r |= vdeps(x)
        return r
    if isinstance(v, Ch):
        return cond_deps(v.c) | vdeps(v.a) | vdeps(v.b)
    if isinstance(v, Seq):
        x, t = v.templ()
        return vdeps(t) | v.n.deps()
    if isinstance(v, Rng):
        return v.pos.deps()
    if isinstance(v, It):
        return v.pos.deps() | (v.n.deps() if v.n is not None else frozenset())
    if isinstance(v, Ref):
        r = frozenset()
        for p in v.path:
            for x in p[1:]:
                if isinstance(x, Poly):
                    r |= x.deps()
        return r
    return frozenset()


def vsubst(v, m, ctx=None):
    if isinstance(v, Poly):
        return subst(v, m, ctx)
    if isinstance(v, tuple):
        if is_bool(v):
            return subst_cond(v, m, ctx)
        return subst(v, m, ctx)
    if isinstance(v, Agg):
        f = [vsubst(x, m, ctx) for x in v.f]
        if all(x is y for x, y in zip(f, v.f)):
            return v
        return Agg(v.ty, v.var, f)
    if isinstance(v, Ch):
        c = subst_cond(v.c, m, ctx)
        if ctx is not None:
            r = ctx.decide(c)
            if r is True:
                return vsubst(v.a, m, ctx)
            if r is False:
                return vsubst(v.b, m, ctx)
            return choose(c, vsubst(v.a, m, ctx.add(c)), vsubst(v.b, m, ctx.add(neg(c))))
        if c == T:
            return vsubst(v.a, m)
        if c == F:
            return vsubst(v.b, m)
        return choose(c, vsubst(v.a, m), vsubst(v.b, m))
    if isinstance(v, Seq):
        if isinstance(v, (SConst,)):
            return SConst(subst(v.n, m, ctx), vsubst(v.val, m, ctx), v.ety)
        if isinstance(v, SBase):
            if not any(k in term._adeps(v.idxs) or k in v.n.deps() for k in m):
                return v
            return SBase(v.name, subst(v.idxs, m, ctx), subst(v.n, m, ctx), v.ety, v.mk)
        return SSub(v, m, ctx)
    if isinstance(v, Rng):
        return Rng(v.name, subst(v.pos, m, ctx))
    if isinstance(v, It):
        e = v.elem
        if not any(k in vdeps(v) for k in m) and not getattr(e, "symbolic", True):
            return v
        n = subst(v.n, m, ctx) if v.n is not None else None

        def elem(I, st, k, e=e, m=m):
            x, st = e(I, st, k)
            return x, st
        return It(n, e, subst(v.pos, m, ctx), v.tag)
    if isinstance(v, Ref):
        if not any(k in vdeps(v) for k in m):
            return v
        return Ref(v.cell, tuple(tuple(subst(x, m, ctx) if isinstance(x, Poly) else x for x in p) for p in v.path))
    return v


def vshow(v, d=0):
    if isinstance(v, Poly):
        return show(v)
    if is_bool(v):
        return show_cond(v)
    if is_float(v):
        return "%s(%s)" % (v[1], ",".join(vshow(x) for x in v[2:]))
    return repr(v)


def seq_show(s):
    try:
        x, v = s.templ()
        return "[%s for %s < %s]" % (vshow(v), x, show(s.n))
    except Exception as e:  # pragma: no cover
        return "[seq %s]" % e


def has_opq(v, d=0):
    """does the value contain an unknown?"""
    if isinstance(v, (Opq, Undef_)):
        return True
    if isinstance(v, Agg):
        return any(has_opq(x) for x in v.f)
    if isinstance(v, Ch):
        return has_opq(v.a) or has_opq(v.b) or cond_opq(v.c)
    if isinstance(v, Poly):
        return poly_opq(v)
    if is_bool(v):
        return cond_opq(v)
    if isinstance(v, Seq):
        return has_opq(v.templ()[1]) or poly_opq(v.n)
    return False


_opqcache = {}


def atom_opq(A):
    r = _opqcache.get(A.id)
    if r is None:
        r = A.kind == "opq" or (A.kind == "fn" and A.args[0] in ("and", "or", "xor")) or any(x_opq(x) for x in A.args)
        if A.kind == "sel" and str(A.args[0]).startswith("opq:"):
            r = True
        _opqcache[A.id] = r
    return r


def x_opq(x):
    if isinstance(x, Poly):
        return poly_opq(x)
    if isinstance(x, Atom):
        return atom_opq(x)
    if isinstance(x, tuple):
        return any(x_opq(y) for y in x)
    return False


def poly_opq(p):
    return any(atom_opq(term.atom_by_id(a)) for a in p.atoms())


def cond_opq(c):
    if c[0] in ("and", "or"):
        return any(cond_opq(x) for x in c[1])
    if c[0] in ("ge", "eq", "ne"):
        return poly_opq(c[1])
    if c[0] in ("ob", "nb"):
        return str(c[1]).startswith("opq") or any(x_opq(x) for x in c[2:])
    return False
