"""Fresh encryptions: the phase of a sample and where its randomness comes from."""
import re
import term, spec, sem, ring
from spec import *
from ring import N, L, B, Q, lin, coef, comb, seqof, f0, getter


def atoms(x, out=None, seen=None):
    """every atom occurring in a value, including under binders"""
    out = {} if out is None else out
    seen = set() if seen is None else seen

    def go(y):
        if isinstance(y, Poly):
            for a in y.atoms():
                at(term.atom_by_id(a))
        elif isinstance(y, Atom):
            at(y)
        elif isinstance(y, Ch):
            go(y.c)
            go(y.a)
            go(y.b)
        elif isinstance(y, Agg):
            for z in y.f:
                go(z)
        elif isinstance(y, tuple):
            for z in y:
                go(z)

    def at(A):
        if A.id in seen:
            return
        seen.add(A.id)
        out[A.id] = A
        for y in A.args:
            go(y)
    go(x)
    return out


def draws(x):
    """(label, stream, position) of the random draws a value depends on"""
    r = {}
    for A in atoms(x).values():
        if A.kind == "sel" and str(A.args[0]).startswith("rnd:"):
            r[A.id] = (A, str(A.args[0])[4:], A.args[1], A.args[2])
        elif A.kind == "unif":
            r[A.id] = (A, "Uniform", A.args[0], A.args[1])
    return r


def is_noise(label):
    return label.startswith(("DiscreteGaussian", "FieldDiscreteGaussianSampler", "cbd"))


def is_uniform(label):
    return label in ("Uniform", "FieldUniformSampler")


def field(I, mem, v, name):
    """a named field, at any depth, of the structure behind a reference"""
    while isinstance(v, Ref):
        x = mem[v.cell]
        for p in v.path if hasattr(v, "path") else ():
            break
        v = x

    def go(x, d=0):
        if not isinstance(x, Agg) or not isinstance(x.ty, int) or d > 4:
            return None
        t = I.p.types[x.ty]
        if t["k"] != "adt":
            return None
        fs = t["variants"][x.var or 0]["fields"]
        for (n, _), y in zip(fs, x.f):
            if n == name:
                return y
        for y in x.f:
            r = go(y, d + 1)
            if r is not None:
                return r
        return None
    return go(v)


def phase(a, b, s, q, n, ctx):
    """b - <a, s> mod q"""
    a = seqof(a, ctx)
    k = term.mk_atom("var", ("ph%d" % next_ix(),), 0)
    cx = ctx.add(lt(P(k), n))
    x, y = coef(a, P(k), cx), s(P(k), cx)
    return lift(lambda v, c: mk_rem(v[0] - term.mk_sum(v[1] * v[2], k, n), q, c) if all(isinstance(z, Poly) for z in v) else Opq("phase"), [b, x, y], ctx)


def noise_of(ph, like):
    """the noise draw of a phase, or a stand-in when there is none"""
    ns = [d for d in draws(ph).values() if is_noise(d[1])]
    return ns


def lwe(S, key, f, I, st, ct, s, msg, q, n, std, fresh_mask=True):
    cx = st.ctx
    ct = prune(ct, cx)
    a, b = ct.f
    sa = seqof(a, cx)
    if not isinstance(sa, Seq):
        S.rep.unknown(key, "mask is not a sequence")
        return
    stt, why = S.decide(sa.n, n, cx)
    if stt is not True:
        S.report(key + ":dimension", f, "mask dimension", stt, why)
        return
    ph = phase(a, b, s, q, n, cx)
    ns = noise_of(ph, None)
    e = P(ns[0][0]) if ns else term.var("a noise draw", 0, 1)
    w = lambda sign: lift(lambda v, c: mk_rem(v[0] + e * sign, q, c), [msg], cx)
    if ns and S.decide(ph, w(-1), cx)[0] is True:
        S.rep.ok(key, "phase = message - noise")
    else:
        S.compare(key, f, "phase = message + one noise draw", ph, w(1), cx)


# ---------------------------------------------------------------- ring samples
def one_noise(ph, j=None):
    """position of the noise draws of a ring phase at index j: (label, stream, position as a function of the index)"""
    out = []
    for A in atoms(ph).values():
        if A.kind == "sel" and str(A.args[0]).startswith("rnd:") and is_noise(str(A.args[0])[4:]):
            out.append(A)
    return out


def ring_phase(ct, s_ntt, ntt, ctx):
    """(j, cx) -> b - a s, coefficients (or transform slots)"""
    a, b = ring.parts(ct, ctx)
    ga, gb = getter(a, ctx), getter(b, ctx)
    if ntt:
        return lambda j, cx: comb(lambda x, y, z: x - y * z, [gb(j, cx), ga(j, cx), s_ntt(j, cx)], cx)
    na = lin("ntt", N, ga, ctx)
    prod = lambda j, cx=None: comb(lambda x, y: x * y, [na(j, cx or ctx), s_ntt(j, cx or ctx)], cx or ctx)
    ip = lin("intt", N, prod, ctx)
    return lambda j, cx: comb(lambda x, y: x - y, [gb(j, cx), ip(j, cx)], cx)


def const_poly(v, ntt):
    """(j, cx) -> the constant polynomial v"""
    if ntt:
        return lambda j, cx: v
    return lambda j, cx: Ch(eq(j), v, ZERO)


def secret_poly(s_ntt, factor, ntt, ctx):
    """(j, cx) -> factor * s"""
    if ntt:
        return lambda j, cx: comb(lambda x: x * factor, [s_ntt(j, cx)], cx)
    l = lin("intt", N, lambda j, cx=None: s_ntt(j, cx or ctx), ctx)
    return lambda j, cx: comb(lambda x: x * factor, [l(j, cx)], cx)


def alternatives(x, cx):
    """(value, context) of every feasible alternative"""
    x = f0(prune(x, cx))
    if isinstance(x, Ch):
        out = []
        for c, y in ((x.c, x.a), (neg(x.c), x.b)):
            c2 = cx.add(c)
            if not c2.infeasible():
                out += alternatives(y, c2)
        return out
    return [(x, cx)]


def under(A):
    """bound indices that the position of a draw depends on"""
    return [term.atom_by_id(k) for k in A.args[2].atoms() if term.atom_by_id(k).kind == "bound"]


def ring_sample(S, key, f, ct, s_ntt, msg, ntt, ctx, fam, what="phase = message + one noise draw per coefficient"):
    """phase check; fam collects the families of draws used, for the freshness check.
    msg: (j, cx) -> message in the sample's own representation"""
    ph = ring_phase(ct, s_ntt, ntt, ctx)
    j = term.mk_atom("var", ("index j of the result",), 0)
    cj = ctx.add(lt(P(j), N))
    res, n = None, 0
    for x, cx in alternatives(ph(P(j), cj), cj):
        n += 1
        if has_opq(x):
            res = res or (None, "abstract result is unknown: %s" % vshow(x)[:160])
            continue
        ns = one_noise(x)
        noises = [term.var("a noise draw", 0, 1)]
        if ns:
            # one draw per coefficient: in transform slots the draws sit under the transform of a sequence
            A = ns[0]
            name, stream, pos = A.args
            bs = under(A)
            if len(bs) > (1 if ntt else 0):
                res = res or (None, "noise draws under a sum")
                continue
            if ntt:
                at = (lambda i, pos=pos, bs=bs: subst(pos, {bs[0].id: i})) if bs else (lambda i, pos=pos: pos)
                e = f0(lin("ntt", N, lambda i, c=None: mk_sel(name, (stream, at(i))), ctx)(P(j), cx))
            else:
                at = lambda i, pos=pos: subst(pos, {j.id: i})
                e = P(A)
            noises = [e, -e]
            fam.append(Fam("noise", str(name)[4:], stream, at, cx, j))
        r = None
        for e in noises:
            want = comb(lambda a, b: a + b, [msg(P(j), cx), e], cx)
            r2 = S.decide(x, want, cx)
            r = r2 if r is None or r2[0] is True else r
            if r[0] is True:
                break
        if r[0] is not True and (res is None or res[0] is not False):
            res = r
    st, why = res or (True, "%d cases" % n)
    S.report(key, f, what, st, why)
    return st


class Fam:
    """draws of one kind: one per index (and per row), at a position that is a function of them"""
    def __init__(self, kind, label, stream, at, ctx, j, row=None):
        self.kind, self.label, self.stream, self.at, self.ctx, self.j, self.row = kind, label, stream, at, ctx, j, row


def mask_family(S, key, f, ct, ntt, ctx, fam, quiet=False):
    """the mask entry at index j is one uniform draw plus public constants"""
    a, _ = ring.parts(ct, ctx)
    s = seqof(a, ctx)
    j = term.mk_atom("var", ("index j of the mask",), 0)
    cj = ctx.add(lt(P(j), N))
    v = coef(a, P(j), cj)

    def leaves(x, cx):
        x = f0(prune(x, cx))
        if isinstance(x, Ch):
            return leaves(x.a, cx.add(x.c)) + leaves(x.b, cx.add(neg(x.c)))
        return [(x, cx)]
    for x, cx in leaves(v, cj):
        if cx.infeasible():
            continue
        ds = list(draws(x).values())
        us = [d for d in ds if is_uniform(d[1])]
        if not isinstance(x, Poly) or has_opq(x):
            S.rep.unknown(key, "mask value is unknown")
            return
        if not us:
            w = S.inhabited(cx)
            if w:
                S.rep.bad(key, "%s (%s): a mask entry contains no uniform draw: %s, e.g. %s" % (f.name, f.where(), vshow(x)[:160], w))
            else:
                S.rep.unknown(key, "mask entry without a uniform draw in a case not shown possible")
            return
        if len(us) > 1 or len(ds) > 1:
            S.rep.unknown(key, "mask entry with several draws")
            return
        u = us[0]
        y = x
        A = single_atom(x)
        if A is not None and A.kind == "rem":
            y = A.args[0]
        k = y.d.get((u[0].id,))
        lone = k in (1, -1) and u[0].id not in (y - P(u[0]).scale(k)).deps()
        bs = [term.atom_by_id(i) for i in u[3].atoms() if term.atom_by_id(i).kind == "bound"]
        if lone and not bs:
            fam.append(Fam("mask", u[1], u[2], lambda i, p=u[3]: subst(p, {j.id: i}), cx, j))
        elif len(bs) == 1 and all(B.kind == "lin" for B in map(term.atom_by_id, y.atoms()) if u[0].id in atoms(P(B))):
            fam.append(Fam("mask", u[1], u[2], lambda i, p=u[3], b=bs[0]: subst(p, {b.id: i}), cx, j))
        else:
            S.rep.unknown(key, "mask entry of an unknown form: %s" % vshow(x)[:120])
            return
    S.rep.ok(key, "mask entries are uniform draws")


# ---------------------------------------------------------------- freshness
def separate(p, q, cx):
    """p and q never coincide under cx: True, a witness string, or None"""
    d = p - q
    if cx.decide(eq(d)) is False or cx.decide(ge(d - 1)) is True or cx.decide(ge(-d - 1)) is True:
        return True
    c2 = cx.add(eq(d))
    if c2.infeasible():
        return True
    return None


def lwe_families(S, key, f, ct, ctx, fam, n):
    """mask and noise draws of an LWE sample"""
    ct = prune(ct, ctx)
    a, b = ct.f
    j = term.mk_atom("var", ("index j of the mask",), 0)
    cj = ctx.add(lt(P(j), n))
    for x, cx in alternatives(coef(seqof(a, ctx), P(j), cj), cj):
        A = single_atom(x) if isinstance(x, Poly) else None
        ds = list(draws(x).values()) if isinstance(x, Poly) else []
        if A is None or len(ds) != 1 or ds[0][0] is not A or not is_uniform(ds[0][1]):
            if isinstance(x, Poly) and not has_opq(x) and not ds:
                w = S.inhabited(cx)
                if w:
                    S.rep.bad(key + ":mask", "%s (%s): a mask entry contains no uniform draw: %s, e.g. %s" % (f.name, f.where(), vshow(x)[:160], w))
                    continue
            S.rep.unknown(key + ":mask", "mask entry of an unknown form: %s" % vshow(x)[:120])
            continue
        fam.append(Fam("mask", ds[0][1], ds[0][2], lambda i, p=ds[0][3]: subst(p, {j.id: i}), cx, j))
        if A.kind == "unif":
            yield A.args[2], cx
    for x, cx in alternatives(b, ctx):
        for A, label, stream, pos in draws(x).values():
            if is_noise(label):
                fam.append(Fam("noise", label, stream, lambda i, p=pos: p, cx, None))


def spread(F, i, row, r, tag, n):
    """position and context of the family at index i and row r (fresh variables)"""
    m = {}
    if F.j is not None:
        m[F.j.id] = i
    if row is not None:
        m[row.id] = r
    p = subst(F.at(i), {row.id: r}) if row is not None else F.at(i)
    facts = [term.subst_cond(c, m) for c in F.ctx.facts] if m else list(F.ctx.facts)
    return p, facts


def products(n, rows, row, rs):
    """consequences n*(rows-1-r) >= 0 of r < rows"""
    if row is None:
        return []
    return [ge(n * (rows - 1))] + [ge(n * (rows - 1 - r)) for r in rs] + [ge(n * r) for r in rs]


def freshness(S, key, f, fams, n, row=None, rows=ONE, base=()):
    """no draw is used twice: positions of all families differ over all (row, index), within a family and across"""
    und = None
    cnt = 0

    def var(name, hi=None):
        return P(term.mk_atom("var", (name,), 0))
    for a in range(len(fams)):
        for b in range(a, len(fams)):
            A, B_ = fams[a], fams[b]
            if A.stream != B_.stream:
                continue
            same_kind = A.kind == B_.kind and A.row == B_.row
            # orderings of (row, index)
            i, d, r, e = var("idx"), var("gap"), var("rw"), var("rgap")
            combos = []
            rws = [(r, r, [lt(r, rows)])]
            if row is not None:
                rws += [(r, r + 1 + e, [lt(r + 1 + e, rows)]), (r + 1 + e, r, [lt(r + 1 + e, rows)])]
            for k, (r1, r2, rf) in enumerate(rws):
                for i1, i2, jf in ((i, i, [lt(i, n)]), (i, i + 1 + d, [lt(i + 1 + d, n)]), (i + 1 + d, i, [lt(i + 1 + d, n)])):
                    if same_kind and k == 0 and i1 == i2:
                        continue
                    if a == b and (k == 2 or (k == 0 and i1 != i)):
                        continue            # symmetric
                    combos.append((r1, r2, i1, i2, rf + jf))
            for r1, r2, i1, i2, facts in combos:
                if A.j is None and B_.j is None and i1 != i2:
                    continue
                cx = term.EMPTY.add(*base).add(*facts).add(*products(n, rows, row, (r1, r2)))
                p1, f1 = spread(A, i1, row, r1, "l", n)
                p2, f2 = spread(B_, i2, row, r2, "r", n)
                cx = cx.add(*f1).add(*f2)
                cnt += 1
                if cx.infeasible():
                    continue
                s = separate(p1, p2, cx)
                if s is True:
                    continue
                w = S.inhabited(cx.add(eq(p1 - p2)))
                if w:
                    S.rep.bad(key, "%s (%s): the same random draw is used twice: %s at index %s%s and %s at index %s%s, e.g. %s" % (
                        f.name, f.where(), A.kind, show(i1), " row %s" % show(r1) if row is not None else "", B_.kind, show(i2),
                        " row %s" % show(r2) if row is not None else "", w))
                    return
                und = und or "cannot separate %s and %s" % (show(p1)[:120], show(p2)[:120])
    if und:
        S.rep.unknown(key, und)
    else:
        S.rep.ok(key, "%d pairs of draws never coincide" % cnt)


def consumed(S, key, f, st, vals, fams, n, row=None, rows=ONE, base=()):
    """every draw lies between the position at which the caller's generator arrived and the one it is left at"""
    rng = None
    for v in vals:
        if isinstance(v, Ref):
            x = st.mem[v.cell]
            if isinstance(x, Agg) and x.ty == sem.RNGTY:
                rng = x
    if rng is None:
        S.rep.unknown(key, "no generator argument")
        return
    end = prune(rng.f[1], st.ctx)
    und = None
    for F in fams:
        i = P(term.mk_atom("var", ("idx",), 0))
        r = P(term.mk_atom("var", ("rw",), 0))
        p, fs = spread(F, i, row, r, "c", n)
        cx = term.EMPTY.add(*base).add(*products(n, rows, row, (r,))).add(lt(i, n)).add(*([lt(r, rows)] if row is not None else [])).add(*fs)
        if cx.infeasible():
            continue
        if F.stream != rng.f[0]:
            S.rep.bad(key, "%s (%s): %s draws come from %s, not from the caller's generator" % (f.name, f.where(), F.kind, vshow(F.stream)))
            return
        for e, ce in alternatives(end, cx):
            if not isinstance(e, Poly) or has_opq(e):
                und = und or "generator position is unknown"
                continue
            c = ge(e - p - 1)
            st_ = ce.decide(c)
            if st_ is True:
                continue
            w = S.inhabited(ce.add(neg(c)))
            if w:
                S.rep.bad(key, "%s (%s): the caller's generator is not advanced past the %s draw at position %s (left at %s), e.g. %s" % (
                    f.name, f.where(), F.kind, show(p)[:100], show(e)[:100], w))
                return
            und = und or "cannot show that %s < %s" % (show(p)[:120], show(e)[:120])
    if und:
        S.rep.unknown(key, und)
    else:
        S.rep.ok(key, "all draws come from the caller's generator and are consumed")
