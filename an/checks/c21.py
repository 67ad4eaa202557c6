"""Key switching: the switched ciphertext as a function of the ciphertext and the key material."""
import engine, spec, term, sem, arith, ring, fhe, fold
from common import Report, guard
from spec import *
from ring import L, LB, LL, N, QB, Q, f0, seqof, coef, getter, parts, comb, lin, compare_poly
from checks.c20 import floorcase

TWO = const(2)


class Case:
    def __init__(self, S, prog, f, key, lens, intercept=None, cuts=None, facts=(), ring_n=N, n=None):
        self.S, self.f, self.key = S, f, key
        I = self.I = fhe.interp(prog, ring_n=ring_n, n=n)
        base = I.lenfix

        def lf(nm, ix):
            r = lens(nm, ix)
            return base(nm, ix) if r is None else r
        I.lenfix = lf
        if intercept:
            I.intercepts.insert(0, intercept)
        self.C = fold.Cuts(I, cuts) if cuts else None
        vals, before, res = spec.run(I, f, names={0: "self", 1: "ciphertext"}, facts=fhe.DOM + list(facts))
        self.before, self.vals, self.res = before, vals, res
        if res is not None:
            self.ret, self.st = res
            self.ctx = self.st.ctx
            self.init = res[1].ctx

    def arg(self, i):
        v = self.vals[i]
        return prune(self.before[v.cell] if isinstance(v, Ref) else v, self.ctx)


def dims():
    n = term.var("self.lwe_dimension", 1, 1 << 24)
    return n


def lwe_switch(S, prog, f):
    rep, key = S.rep, f.path
    n = dims()
    b = mk_pow(TWO, LB)
    q = mk_pow(TWO, QB)

    def lens(nm, ix):
        if nm == "self.key":
            return [LL, N, b - 1][len(ix)] if len(ix) < 3 else None
        if nm == "self.key.a":
            return n
        if nm == "ciphertext.a":
            return N
    c = Case(S, prog, f, key, lens, n=n)
    if c.res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    floorcase(S, c.I, f, key)
    ks = c.arg(0)
    kseq = next((seqof(x, c.ctx) for x in ks.f if isinstance(seqof(x, c.ctx), Seq)), None)
    ct = c.arg(1)
    a, body = seqof(ct.f[0], c.ctx), prune(ct.f[1], c.ctx)
    if kseq is None:
        rep.unknown(key, "no key rows")
        return

    def entry(part, k, cx):
        """sum over digits of the entry of the selected row"""
        x = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
        y = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
        c1 = cx.add(lt(P(x), LL), lt(P(y), N))
        d = mk_rem(mk_quo(f0(prune(a.read(P(y), c1), c1)), mk_pow(TWO, LB * P(x)), c1), b, c1)
        c2 = c1.add(ge(d - 1))
        row = prune(seqof(seqof(kseq.read(P(x), c2), c2).read(P(y), c2), c2).read(d - 1, c2), c2)
        v = prune(row.f[part], c2)
        if part == 0:
            v = f0(prune(seqof(v, c2).read(k, c2), c2))
        return term.mk_sum(term.mk_sum(indicator(ne(d, ZERO)) * v, y, N), x, LL)
    out = prune(c.ret, c.ctx)
    s = seqof(out.f[0], c.ctx)
    st, why = S.decide(s.n, n, c.ctx)
    if st is not True:
        S.report(key + ":a", f, "mask (length)", st, why)
        return
    k = term.mk_atom("var", ("index k of the result",), 0)
    ck = c.ctx.add(lt(P(k), n))
    S.compare(key + ":a", f, "mask of the switched ciphertext", f0(prune(s.read(P(k), ck), ck)), mk_rem(-entry(0, P(k), ck), q, ck), ck)
    S.compare(key + ":b", f, "body of the switched ciphertext", prune(out.f[1], c.ctx), mk_rem(body - entry(1, None, c.ctx), q, c.ctx), c.ctx)


def ring_switch(S, prog, f, ring_in, equal):
    rep = S.rep
    key = "%s:%s" % (f.path, "n' = N" if equal else "n' < N")
    n = dims()
    NX = mk_pow(TWO, term.var("log n'", 0, 20))
    MX = ONE if equal else mk_pow(TWO, term.var("log(N/n')", 1, 10))
    NN = NX * MX
    powers = []

    def hook(I, fr, st, inst, info, path, a):
        if info is None or info["item"] != "next_power_of_two":
            return NotImplemented
        if a[0] == n:
            return NX, st
        return NotImplemented

    def lens(nm, ix):
        if nm == "self.key" and not ix:
            return MX
        if nm.startswith("self.key"):
            return L if nm.endswith(".data") and len(ix) == 1 else NX
        if nm == "ciphertext.a" or nm.startswith("ciphertext.") and nm.endswith(".data"):
            return NN
    c = Case(S, prog, f, key, lens, hook, {"chunks_exact": [0]}, [le(n, NX), le(NX, n * 2 - 1)] + ([] if equal else [le(NX * 2, NN)]), ring_n=NN, n=n)
    if c.res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    floorcase(S, c.I, f, key)
    ct = c.arg(1)
    a = seqof(ct.f[0], c.ctx)
    b0 = coef(ct.f[1], ZERO, c.ctx) if ring_in else f0(prune(ct.f[1], c.ctx))
    defs = list(c.C.defs.items())
    if len(defs) != 1:
        rep.unknown(key, "the chunks of the mask are not cut from one slice: %s" % [d[0] for d in defs])
        return
    nm, (D, dcx) = defs[0]

    def e(j, cx):
        """coefficient of s_j in the inner product"""
        if not ring_in:
            return coef(a, j, cx)
        return Ch(eq(j), coef(a, ZERO, cx.add(eq(j))), lift(lambda v, c2: mk_rem(-v[0], Q, c2), [coef(a, NN - j, cx)], cx))
    # the chunk polynomials
    s = seqof(D, dcx)
    st, why = S.decide(s.n, NN, dcx)
    if st is not True:
        S.report(key + ":chunks", f, "mask polynomials (length)", st, why)
        return
    ch = term.mk_atom("var", ("chunk",), 0)
    k = term.mk_atom("var", ("coefficient k",), 0)
    base = dcx.add(lt(P(ch), MX), le(NX * P(ch) + NX, NN), lt(P(k), NX), ge(P(ch)))
    if equal:
        base = base.add(eq(P(ch)))
    for cn, fact, j in (("k = 0", eq(P(k)), NX * P(ch)), ("k > 0", ge(P(k) - 1), NX * P(ch) + NX - P(k))):
        cx = base.add(fact)
        pos = cn == "k = 0"
        kk = ZERO if pos else P(k)
        cc = ZERO if equal else P(ch)
        j = cx.simp(j) if equal else j
        got = f0(prune(s.read(NX * cc + kk, cx), cx))
        want = e(NX * cc if pos else NX * cc + NX - P(k), cx)
        if not pos:
            want = lift(lambda v, c2: mk_rem(-v[0], Q, c2), [want], cx)
        S.compare("%s:chunks:%s" % (key, cn), f, "coefficient k of mask polynomial number c (%s)" % cn, got, want, cx)
    # the switched ciphertext
    X = fold.freshen(c.I, D, nm, c.st)
    keyv = next((seqof(x, c.ctx) for x in c.arg(0).f if isinstance(seqof(x, c.ctx), Seq)), None)

    def acc(part, negated, ctx):
        """sum over the chunks of the gadget product with the negated polynomial (or its negation)"""
        def g(j, cx):
            x = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
            c1 = cx.add(lt(P(x), MX), le(NX * P(x) + NX, NN)) if not equal else cx.add(eq(P(x)))
            o = ZERO if equal else P(x)
            pol = lambda i, c2=None: lift(lambda v, c3: mk_rem(-v[0] if negated else v[0], Q, c3), [coef(X, NX * o + i, c2 or c1)], c2 or c1)
            row = prune(keyv.read(o, c1), c1)
            v = ring.gadget_product(row, True, pol, c1, n=NX)[part](j, c1)
            if not isinstance(v, Poly):
                return Opq("gadget product")
            tot = v if equal else term.mk_sum(v, x, MX)
            if not negated:
                tot = -tot
            if part == 1:
                tot = tot + b0
            return mk_rem(tot, Q, cx)
        return lin("intt", NX, g, ctx)
    out = prune(c.ret, c.ctx)
    ra = seqof(out.f[0], c.ctx)
    st, why = S.decide(ra.n, n, c.ctx)
    if st is not True:
        S.report(key + ":a", f, "mask (length)", st, why)
        return
    j = term.mk_atom("var", ("index j of the result",), 0)
    for part in (0, 1):
        cases = [("", ZERO, c.ctx)] if part else [(":0", ZERO, c.ctx), (":j", P(j), c.ctx.add(lt(P(j), n), ge(P(j) - 1)))]
        for cn, ix, cx in cases:
            got = f0(prune(out.f[1], cx)) if part else f0(prune(ra.read(ix, cx), cx))
            res = []
            for negated in (True, False):
                g = acc(part, negated, cx)
                w = g(ix, cx) if ix == ZERO else lift(lambda v, c2: mk_rem(-v[0], Q, c2), [g(NX - ix, cx)], cx)
                res.append((S.decide(got, w, cx)))
                if res[-1][0] is True:
                    break
            what = "%s of the switched ciphertext%s" % ("body" if part else "mask", cn)
            if any(r[0] is True for r in res):
                rep.ok(key + ":" + "ab"[part] + cn, what)
            elif all(r[0] is False for r in res):
                rep.bad(key + ":" + "ab"[part] + cn, "%s (%s): %s: %s" % (f.name, f.where(), what, res[0][1]))
            else:
                rep.unknown(key + ":" + "ab"[part] + cn, str(res[0][1]))


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    S.deep = arith.deep
    n = 0
    for f in prog.wsfns:
        item = f.info["item"]
        if item not in ("key_switch_for_lwe", "key_switch_for_rlwe") or f.info["crate"] != "fhe_core" or "{closure" in f.name:
            continue
        n += 1
        if "KeySwitchingLWEKey" in f.name:
            with guard(rep, f.name):
                lwe_switch(S, prog, f)
        elif "KeySwitchingRLWEKey" in f.name:
            for equal in (False, True):
                with guard(rep, f.name + str(equal), 200):
                    ring_switch(S, prog, f, item.endswith("rlwe"), equal)
        else:
            n -= 1
    rep.floor("key switching functions", n, 2)
    return rep.finish(
        "mask and body of the switched ciphertext at a generic index equal the gadget formula: input body minus the key entries selected by (LWE) or multiplied with (RLWE) the digits of the input mask",
        explanation="Abstract interpretation of the MIR; ciphertext and key contents, both dimensions, gadget length, basis width and modulus are symbols; the transforms are mutually inverse linear maps.")
