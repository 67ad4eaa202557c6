"""Symbolic ring elements and ciphertexts with common dimensions, and the specification terms over them:
pointwise operators, transforms, gadget decompositions and external products."""
import engine, spec, term, sem
from spec import *
import re

N = term.var("N", 1, 1 << 24, pow2=True)
L = term.var("L", 1, 64)
B = term.var("B", 1, 27)
LB = term.var("LB", 1, 16)
LL = term.var("LL", 1, 16)
NL = term.var("n", 1, 1 << 24)
QB = term.var("logq", 1, 15)
Q = const(engine.FIELDQ["F32"])


def symtype(I, t, name, idxs, st):
    if t["k"] == "adt":
        n = t["name"]
        p = t["path"].split("::")[-1]
        if p == "Basis":
            if re.search(r"F\d+>|DefaultField", n):
                return Agg(I.tyindex(t), None, [mk_pow(const(2), B), L, mk_pow(const(2), B) - 1, B])
            return Agg(I.tyindex(t), None, [mk_pow(const(2), LB), LL, mk_pow(const(2), LB) - 1, LB])
        if p in ("GadgetRLWE", "NTTGadgetRLWE"):
            I.gadgets.add(name)
        if p == "LWE":
            I.lwes.add(name)
        if p == "PowOf2Modulus":
            return Agg(I.tyindex(t), None, [mk_pow(const(2), QB) - 1])
    return sem.symtype(I, t, name, idxs, st)


def interp(prog):
    I = engine.sem_interp(prog)
    I.gadgets, I.lwes = set(), set()
    I.symtype = symtype
    idx = {id(t): i for i, t in enumerate(prog.types)}
    I.tyindex = lambda t: idx.get(id(t))

    def lens(name, idxs):
        base, _, last = name.rpartition(".")
        if last == "len":
            base, _, last = base.rpartition(".")
        if base in I.gadgets and last == "data":
            return L
        if base in I.lwes:
            return NL
        return N
    I.lenfix = lens
    return I


def f0(v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v


def seqof(v, ctx):
    v = prune(v, ctx)
    while isinstance(v, Agg) and len(v.f) == 1:
        v = prune(v.f[0], ctx)
    return v


def coef(v, j, ctx):
    """coefficient j of a polynomial value"""
    s = seqof(v, ctx)
    if not isinstance(s, Seq):
        return Opq("not a polynomial")
    return f0(prune(s.read(j, ctx), ctx))


def getter(v, ctx):
    return lambda j, cx=None: coef(v, j, cx or ctx)


def comb(f, xs, ctx, q=Q):
    """f over choice trees, reduced modulo q"""
    return lift(lambda ts, cx: mk_rem(f(*ts), q, cx) if all(isinstance(t, Poly) for t in ts) else Opq("operand"), xs, ctx)


def lin(op, n, get, ctx, q=Q):
    """(j, ctx) -> entry j of the transform of the sequence get"""
    v = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
    cx = ctx.add(lt(P(v), n))
    t = get(P(v), cx)

    def flatp(x):
        x = f0(x)
        if isinstance(x, Ch):
            a, b = flatp(x.a), flatp(x.b)
            if v.id in cond_deps(x.c):
                i = indicator(x.c)
                return sem.comb(lambda p, r: i * p + (1 - i) * r, a, b)
            return Ch(x.c, a, b)
        return x
    t = flatp(t)
    return lambda j, cx2=None: lift(lambda xs, c: mk_rem(term.mk_lin(op, q, n, xs[0], v, j), q, c) if isinstance(xs[0], Poly) else Opq("lin"), [t], cx2 or ctx)


def digit(get, i, ctx, b=B):
    """digit i of every coefficient"""
    return lambda j, cx=None: lift(lambda xs, c: mk_rem(mk_quo(xs[0], mk_pow(const(2), b * i), c), mk_pow(const(2), b), c), [get(j, cx or ctx)], cx or ctx)


def parts(v, ctx):
    """(a, b) of a ring ciphertext"""
    v = prune(v, ctx)
    return [prune(x, ctx) for x in v.f]


def gadget_row(g, i, ctx):
    """rows of a gadget ciphertext"""
    v = prune(prune(g, ctx).f[0], ctx)
    return prune(v.read(i, ctx), ctx)


def gadget_product(g, ntt_rows, get, ctx, n=N, terms=L):
    """component -> (j, ctx) -> entry j, in transform slots, of sum_i row_i * digit_i(p)"""
    out = []
    for comp in (0, 1):
        def f(j, cx=None, comp=comp):
            cx = cx or ctx
            k = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
            c1 = cx.add(lt(P(k), terms))
            d = lin("ntt", n, digit(get, P(k), c1), c1)(j, c1)
            row = parts(gadget_row(g, P(k), c1), c1)[comp]
            r = coef(row, j, c1) if ntt_rows else lin("ntt", n, getter(row, c1), c1)(j, c1)
            return lift(lambda xs, c: mk_rem(term.mk_sum(xs[0] * xs[1], k, terms), Q, c), [d, r], cx)
        out.append(f)
    return out


def add(*fs):
    return lambda j, cx: comb(lambda *t: sum(t, ZERO), [f(j, cx) for f in fs], cx)


class Bc:
    """an operand broadcast over the outer structure of the others: read at the innermost index only"""

    def __init__(self, v):
        self.v = v


def basis_ty(I, v):
    return isinstance(v, Agg) and isinstance(v.ty, int) and I.p.types[v.ty].get("path", "").endswith("Basis")


def innermost(v, ctx):
    """is this sequence one of scalars"""
    e = f0(prune(v.templ()[1], ctx))
    while isinstance(e, Ch):
        e = f0(prune(e.a, ctx))
    return isinstance(e, Poly) or not isinstance(e, (Seq, Agg))


def walk(S, I, key, fn, what, got, ins, leaf, ctx, d=0):
    """got has the structure of the operands; every scalar leaf equals leaf(operand leaves)"""
    got = prune(got, ctx)
    ins = [x if isinstance(x, Bc) else prune(x, ctx) for x in ins]
    if basis_ty(I, got):
        return
    if isinstance(got, Agg) and len(got.f) == 1:
        return walk(S, I, key, fn, what, got.f[0], [x.f[0] if isinstance(x, Agg) and len(x.f) == 1 else x for x in ins], leaf, ctx, d)
    if isinstance(got, Agg):
        for i, g in enumerate(got.f):
            nx = []
            for x in ins:
                if isinstance(x, Bc):
                    nx.append(x)
                elif isinstance(x, Agg) and len(x.f) == len(got.f):
                    nx.append(x.f[i])
                else:
                    S.rep.unknown(key, "operand structure %s" % vshow(x)[:80])
                    return
            walk(S, I, key + "." + str(i), fn, what, g, nx, leaf, ctx, d + 1)
        return
    if isinstance(got, Seq):
        inner = innermost(got, ctx)
        n = None
        seqs = []
        for x in ins:
            if isinstance(x, Bc):
                if inner:
                    x = seqof(x.v, ctx)
                    if not isinstance(x, Seq):
                        x = Bc(x)          # scalar
                seqs.append(x)
            else:
                x = seqof(x, ctx)
                seqs.append(x)
        for x in seqs:
            if isinstance(x, Seq):
                n = x.n
                break
        if any(not isinstance(x, (Seq, Bc)) for x in seqs):
            S.rep.unknown(key, "operand is not a sequence")
            return
        if n is not None:
            st, why = S.decide(got.n, n, ctx)
            if st is not True:
                S.report(key + ":len", fn, what + " (length)", st, why)
                return
        else:
            n = got.n
        j = term.mk_atom("var", ("index %d of the result" % d,), 0)
        cj = ctx.add(lt(P(j), n))
        walk(S, I, key + "[]", fn, what, got.read(P(j), cj), [x.read(P(j), cj) if isinstance(x, Seq) else x for x in seqs], leaf, cj, d + 1)
        return
    ls = [f0(prune(x.v, ctx)) if isinstance(x, Bc) else f0(x) for x in ins]
    S.compare(key, fn, what, f0(got) if not isinstance(got, Ch) else got, leaf(ls, ctx), ctx)


def walk_want(S, key, fn, what, got, want, ctx):
    """want: ('rlwe', [fa, fb]) / ('poly', f) with f(j, ctx); got a matching value"""
    got = prune(got, ctx)
    kind, w = want
    if kind == "poly":
        S.compare_seq(key, fn, what, seqof(got, ctx), N, None, ctx) if False else compare_poly(S, key, fn, what, got, w, ctx)
    elif kind == "rlwe":
        ps = parts(got, ctx)
        for nm, g, f in zip("ab", ps, w):
            compare_poly(S, key + ":" + nm, fn, "%s, component %s" % (what, nm), g, f, ctx)


def compare_poly(S, key, fn, what, got, f, ctx, n=N):
    s = seqof(got, ctx)
    if not isinstance(s, Seq):
        S.rep.unknown(key, "%s: not a sequence: %s" % (what, vshow(s)[:120]))
        return None
    st, why = S.decide(s.n, n, ctx)
    if st is not True:
        S.report(key, fn, what + " (length)", st, why)
        return st
    j = term.mk_atom("var", ("index j of the result",), 0)
    cj = ctx.add(lt(P(j), n))
    return S.compare(key, fn, what, f0(prune(s.read(P(j), cj), cj)), f(P(j), cj), cj)
