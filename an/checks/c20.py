"""Blind rotation, key switching and their composition: every step compared with its definition."""
import re
import engine, spec, term, sem, arith, ring, fhe, fold, loops
from common import Report, guard
from spec import *
from ring import N, L, NL, QB, Q, f0, seqof, coef, getter, parts, comb, lin, compare_poly, walk
from checks.c04 import shift, lin_of
from checks import c13

TWO = const(2)


def floorcase(S, I, f, key):
    for fn, what, cx, line in I.panics:
        w = S.inhabited(cx)
        if w and not any(cond_opq(c) for c in cx.facts):
            S.rep.bad(key + ":panic", "%s (%s): %s panics on admissible input, e.g. %s" % (f.name, f.where(line), what, w))


def fold_result(S, G, key, f, what, seq, n, trip, ctx):
    """the sequence is what a logged loop computes after `trip` rounds: (record, sequence index of the leaf)"""
    s = seqof(seq, ctx)
    if not isinstance(s, Seq):
        S.rep.unknown(key, "%s: not a sequence" % what)
        return None
    st, why = S.decide(s.n, n, ctx)
    if st is not True:
        S.report(key, f, what + " (length)", st, why)
        return None
    j = term.mk_atom("var", ("index j of the result",), 0)
    cj = ctx.add(lt(P(j), n))
    v = f0(prune(s.read(P(j), cj), cj))
    r = G.of(v)
    if r is None:
        S.rep.unknown(key, "%s: not the result of a recognised fold: %s" % (what, vshow(v)[:100]))
        return None
    rec, k, ix = r
    if ix != [P(j)]:
        if len(ix) == 1 and S.decide(ix[0], P(j), cj)[0] is False:
            S.rep.bad(key, "%s (%s): %s: coefficient j of the result is coefficient %s of the accumulator" % (f.name, f.where(), what, show(ix[0])))
        else:
            S.rep.unknown(key, "%s: read at %s" % (what, ix))
        return None
    st, why = S.decide(k, trip, cj)
    if st is not True:
        S.report(key, f, what + " (number of rounds)", st, why)
        return None
    return rec


def cut_names(v):
    out = set()
    for a in vdeps(v):
        A = term.atom_by_id(a)
        if A.kind == "sel" and str(A.args[0]).startswith("cut:"):
            out.add(A.args[0].split(".")[0])
    return out


def blind_rotate(S, prog, f, ternary):
    rep = S.rep
    key = f.path
    I = fhe.interp(prog, steps="BrKsMs")
    base = I.lenfix
    I.lenfix = lambda nm, ix: NL if nm == "self.key" and not ix else base(nm, ix)
    C = Products(I)
    G = fold.Log(I)
    I.dom["lwe.a"] = I.dom["lwe.b"] = (ZERO, N * 2 - 1)
    vals, before, res = spec.run(I, f, names={0: "self", 1: "lut", 2: "lwe", 3: "basis"}, facts=fhe.DOM)
    if res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    floorcase(S, I, f, key)
    ret, st = res
    ctx = st.ctx

    def inp(v):
        v = before[v.cell] if isinstance(v, Ref) else v
        return prune(v, ctx)
    lut = inp(vals[1])
    lwe = inp(vals[2])
    keys = seqof(prune(inp(vals[0]).f[0], ctx), ctx)
    amask, body = seqof(lwe.f[0], ctx), prune(lwe.f[1], ctx)
    acc = parts(ret, ctx)
    recs = []
    for nm, s in zip("ab", acc):
        recs.append(fold_result(S, G, key + ":fold:" + nm, f, "component %s of the accumulator" % nm, s, N, NL, ctx))
    if any(r is None for r in recs):
        return
    rep.ok(key + ":rounds", "n rounds")
    if recs[0].loop is not recs[1].loop:
        rep.unknown(key, "components are folded by different loops %s %s" % (recs[0].loop.id, recs[1].loop.id))
        return
    # initial value
    c0 = recs[0].loop.st0.ctx
    compare_poly(S, key + ":init:a", f, "initial accumulator, mask", recs[0].v0, lambda j, cx: ZERO, c0)
    for cname, facts, want in (
            ("b = 0", [eq(body)], lambda j, cx: coef(lut, j, cx)),
            ("0 < b <= N", [ge(body - 1), le(body, N)], lambda j, cx: mono(lut, N * 2 - body, "hi", j, cx)),
            ("N < b < 2N", [ge(body - N - 1), le(body, N * 2 - 1)], lambda j, cx: mono(lut, N * 2 - body, "lo", j, cx))):
        cx = c0.add(*facts)
        compare_poly(S, key + ":init:b:" + cname, f, "initial accumulator, body = table * X^-b (%s)" % cname, prune(recs[1].v0, cx), want, cx)
    # one round
    rec = recs[0]
    K = P(rec.K)
    sym = [r.sym for r in recs]
    cx = rec.ctx
    ak = prune(amask.read(K, cx), cx)
    names = set()
    for r in recs:
        names |= cut_names(r.next)
    names = {x for x in names if not ":scratch" in x}
    if len(names) != 1:
        rep.unknown(key + ":round", "no single external product in a round: %s" % sorted(names))
        return
    D, KD, dcx, E = C.products[names.pop()]
    kcx = dcx
    nz = [ge(ak - 1), le(ak, N * 2 - 1)]
    for nm, s, d in zip("ab", sym, parts(D, dcx)):
        for cname, cs, facts in (("a <= N", "lo", [ge(ak - 1), le(ak, N)]), ("N < a", "hi", [ge(ak - N - 1), le(ak, N * 2 - 1)])):
            c1 = dcx.add(*facts)
            compare_poly(S, key + ":multiplicand:%s:%s" % (nm, cname), f, "multiplicand of round i = (X^a_i - 1) * accumulator (%s), component %s" % (cname, nm), d,
                         lambda j, c2: lin_of(shift(seqof(s, c2), ak, cs, N, j, c2), -coef(s, j, c2))(c2), c1)
    kel = prune(keys.read(K, kcx), kcx)
    if ternary:
        walk_key(S, I, key + ":key", f, KD, kel.f[0], kel.f[1], ak, kcx.add(*nz))
    else:
        walk(S, I, key + ":key", f, "key of round i", KD, [kel], lambda ls, c: ls[0], kcx)
    c1 = cx.add(*nz)
    w = [getter(t, c1) for t in parts(E, c1)]
    for nm, r, s, e in zip("ab", recs, sym, w):
        nv = prune(r.next, c1)
        compare_poly(S, key + ":round:" + nm, f, "accumulator after round i, component %s" % nm, nv,
                     lambda j, c: comb(lambda x, y: x + y, [coef(s, j, c), e(j, c)], c), c1)
        c2 = cx.add(eq(ak))
        if S.inhabited(c2):
            n0 = prune(r.next, c2)
            if cut_names(coef(n0, P(term.mk_atom("var", ("some index",), 0)), c2.add(lt(P(term.mk_atom("var", ("some index",), 0)), N)))):
                # not skipped: the multiplicand is zero, the same formula holds
                compare_poly(S, key + ":skip:" + nm, f, "accumulator after a round with a_i = 0, component %s" % nm, n0,
                             lambda j, c: comb(lambda x, y: x + y, [coef(s, j, c), e(j, c)], c), c2)
            else:
                compare_poly(S, key + ":skip:" + nm, f, "accumulator after a round with a_i = 0, component %s" % nm, n0, lambda j, c: coef(s, j, c), c2)


ITEMS = ("mul_assign_ntt_rgsw", "mul_ntt_rgsw", "mul_ntt_rgsw_inplace")


class Products:
    """external products summarised: the result is a symbol that stands for (multiplicand, key), and scratch space holds
    arbitrary contents afterwards; the operators themselves are compared with the definition separately"""

    def __init__(self, I, merge=True):
        self.products, self.defs, self.events, self.merge = {}, {}, [], merge
        I.intercepts.insert(0, self.hook)
        I.cuts = self

    def hook(self, I, fr, st, inst, info, path, a):
        if info is None or info["crate"] != "lattice" or info["item"] not in ITEMS:
            return NotImplemented
        x, k = prune(I.load(st, a[0]), st.ctx), prune(I.load(st, a[1]), st.ctx)
        for nm, (x2, k2, cx, E) in self.products.items() if self.merge else ():
            if loops.alike(x2, x, st.ctx) and loops.alike(k2, k, st.ctx):
                break
        else:
            nm = "cut:product%d" % len(self.products)
            E = fold.freshen(I, x, nm, st)
            self.products[nm] = (x, k, st.ctx, E)
            self.defs[nm] = (Agg(None, None, [x, k]), st.ctx)
        self.events.append((x, k, st.ctx, E))
        for i, r in enumerate(a[2:]):
            if isinstance(r, Ref):
                sn = "%s:scratch%d" % (nm, i)
                self.defs[sn] = self.defs[nm]
                I.store(st, r, fold.freshen(I, I.load(st, r), sn, st))
        if info["item"] == "mul_ntt_rgsw":
            return E, st
        I.store(st, a[0] if info["item"] == "mul_assign_ntt_rgsw" else a[-1], E)
        return Agg(None, None, []), st


def operators(S, prog):
    """the external products as the blind rotation calls them"""
    n = 0
    for f in prog.wsfns:
        if f.info and f.info.get("item") in ITEMS and f.info["crate"] == "lattice" and c13.owner(f) == "RLWE" and not re.search(r"F(8|16|64)\b", f.name):
            with guard(S.rep, f.name):
                h = c13.special(prog, f, "RLWE", c13.names(prog, f))
                if h:
                    n += 1
                    h(S, prog, f)
    S.rep.floor("external products", n, 2)


PAIRS = [("a_1 = a_0", lambda a, b: [le(a, N), eq(a - b)], "lo", "lo"),
         ("a_1 > N >= a_0", lambda a, b: [le(a, N), ge(b - N - 1)], "lo", "hi"),
         ("a_0 > N >= a_1", lambda a, b: [le(b, N), ge(a - N - 1)], "hi", "lo")]


def two_rounds(S, prog, f, ternary, pair):
    """the first two rounds, one after the other: nothing but the accumulator may pass from one to the next (scratch
    space handed to the external product holds arbitrary contents afterwards)"""
    rep = S.rep
    cname, pfacts, *cases = pair
    key = f.path + ":two rounds:" + cname
    I = fhe.interp(prog, steps="BrKsMs")
    base = I.lenfix
    I.lenfix = lambda nm, ix: const(2) if nm in ("self.key", "lwe.a") and not ix else base(nm, ix)
    I.unroll = (lambda fr: fr.fn.crate == "fhe_core", 2)
    I.dom["lwe.a"] = I.dom["lwe.b"] = (ZERO, N * 2 - 1)
    ev = Products(I, merge=False).events
    names = {0: "self", 1: "lut", 2: "lwe", 3: "basis"}

    def over(I, st):
        vs = engine.args_for(I, st, f, None, names)
        mask = seqof(prune(prune(I.load(st, vs[2]), st.ctx).f[0] if isinstance(vs[2], Ref) else vs[2].f[0], st.ctx), st.ctx)
        a.extend(prune(mask.read(const(i), st.ctx), st.ctx) for i in range(2))
        st.ctx = st.ctx.add(*[ge(x - 1) for x in a], *pfacts(*a), *[le(x, N * 2 - 1) for x in a])
        w = prune(I.load(st, vs[2]), st.ctx) if isinstance(vs[2], Ref) else vs[2]
        st.ctx = st.ctx.add(eq(prune(w.f[1], st.ctx)))
        return dict(enumerate(vs))
    a = []
    vals, before, res = spec.run(I, f, over, names=names, facts=fhe.DOM)
    if res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    ctx = st.ctx

    def inp(v):
        v = before[v.cell] if isinstance(v, Ref) else v
        return prune(v, ctx)
    lut = inp(vals[1])
    keys = seqof(prune(inp(vals[0]).f[0], ctx), ctx)
    if len(ev) != 2:
        rep.unknown(key, "no single external product per round: %d" % len(ev))
        return
    done = []
    for r, (x, k, cx, E) in enumerate(ev):
        ak = a[r]
        old = lambda c, done=tuple(done): [lambda j, cx, c=c: comb(lambda *t: sum(t[1:], t[0]),
                                                                   ([coef(lut, j, cx)] if c else [ZERO]) + [coef(parts(e, cx)[c], j, cx) for e in done], cx)][0]
        for c, d in enumerate(parts(x, cx)):
            compare_poly(S, key + ":%d:multiplicand:%s" % (r, "ab"[c]), f, "multiplicand of round %d = (X^a_i - 1) * accumulator (%s), component %s" % (r, cname, "ab"[c]), d,
                         lambda j, c2: lin_of(shift_by(old(c), ak, cases[r], j, c2), comb(lambda t: -t, [old(c)(j, c2)], c2))(c2), cx)
        kel = prune(keys.read(const(r), cx), cx)
        if ternary:
            walk_key(S, I, key + ":%d:key" % r, f, k, kel.f[0], kel.f[1], ak, cx)
        else:
            walk(S, I, key + ":%d:key" % r, f, "key of round %d" % r, k, [kel], lambda ls, c: ls[0], cx)
        done.append(E)
    cx = ctx
    for c, g in enumerate(parts(ret, cx)):
        compare_poly(S, key + ":result:" + "ab"[c], f, "accumulator after two rounds, component %s" % "ab"[c], g,
                     lambda j, cx: comb(lambda *t: sum(t[1:], t[0]), ([coef(lut, j, cx)] if c else [ZERO]) + [coef(parts(e, cx)[c], j, cx) for e in done], cx), cx)


def shift_by(get, r, cs, j, ctx):
    """coefficient j of y * X^r, y given by its coefficients"""
    k, flip = (r, False) if cs == "lo" else (r - N, True)
    cl, ch = ctx.add(lt(j, k)), ctx.add(ge(j - k))
    s = const(-1) if flip else ONE
    return Ch(lt(j, k), comb(lambda t: -t * s, [get(j + N - k, cl)], cl), comb(lambda t: t * s, [get(j - k, ch)], ch))


def mono(y, r, cs, j, cx):
    return lin_of(shift(seqof(y, cx), r, cs, N, j, cx))(cx)


def walk_key(S, I, key, f, got, k0, k1, a, ctx):
    """k0 - X^-a k1 in transform slots"""
    def ind_at(e):
        return lambda j, cx=None: Ch(eq(j, e), ONE, ZERO)
    # -X^-a: +1 at N - a (a <= N), -1 at 2N - a (a > N)
    zero = lambda j, cx=None: ZERO
    up = zero if ctx.decide(ge(a - N - 1)) is True else lin("ntt", N, ind_at(N - a), ctx)
    dn = lin("ntt", N, ind_at(N * 2 - a), ctx)

    def go(key, g, x, y, ctx, ix=None):
        g, x, y = prune(g, ctx), prune(x, ctx), prune(y, ctx)
        if ring.basis_ty(I, g):
            return
        if isinstance(g, Agg) and not (len(g.f) == 1 and isinstance(g.f[0], Poly)) and isinstance(x, Agg) and len(x.f) == len(g.f):
            for i in range(len(g.f)):
                go(key + "." + str(i), g.f[i], x.f[i], y.f[i], ctx, ix)
            return
        if isinstance(g, Seq):
            st, why = S.decide(g.n, x.n, ctx)
            if st is not True:
                S.report(key, f, "key of round i (length)", st, why)
                return
            j = term.mk_atom("var", ("index of the key",) if ix is None else ("index of the row",), 0)
            cj = ctx.add(lt(P(j), x.n))
            go(key + "[]", g.read(P(j), cj), x.read(P(j), cj), y.read(P(j), cj), cj, P(j))
            return
        S.compare(key, f, "key of round i = key_i,0 - X^-a_i * key_i,1", f0(g) if not isinstance(g, Ch) else g,
                  comb(lambda p, r, u, d: p + r * u - r * d, [f0(x), f0(y), up(ix, ctx), dn(ix, ctx)], ctx), ctx)
    go(key, got, k0, k1, ctx)


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    S.deep = arith.deep
    n = 0
    for f in prog.wsfns:
        m = re.search(r"::(Binary|Ternary)BlindRotationKey::<[^>]*>::blind_rotate(::<[^>]*>)?$", f.name)
        if not m:
            continue
        n += 1
        for pair in PAIRS:
            with guard(rep, f.name + ":two rounds:" + pair[0]):
                two_rounds(S, prog, f, m.group(1) == "Ternary", pair)
        with guard(rep, f.name):
            blind_rotate(S, prog, f, m.group(1) == "Ternary")
    rep.floor("blind rotations", n, 2)
    operators(S, prog)
    return rep.finish(
        "the accumulator starts at (0, table * X^-b), each of the n rounds adds the external product of (X^{a_i} - 1) * accumulator with the (combined) key row i, and nothing else changes it",
        explanation="Abstract interpretation of the MIR with external products summarised by symbols (the operator is compared with the gadget definition on its own); mask, body, table, key contents, dimension, gadget length and basis width are symbols; the accumulator at a generic round is a symbol too, so the recurrence is decided for every round.")
