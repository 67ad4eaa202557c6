"""Sibling operator variants: every in-place, assigning, by-reference and lazily reducing form of a ring or ciphertext
operator computes the same function of its operands, coefficient by coefficient."""
import re
import engine, spec, term, ring
from common import Report, guard
from spec import *
from ring import *

PW = ("Polynomial", "NTTPolynomial", "RLWE", "NTTRLWE", "GadgetRLWE", "NTTGadgetRLWE", "RGSW", "NTTRGSW", "LWE")

rem = lambda t: (lambda ctx: None)


def A_(xs, ctx, q=Q):
    return comb(lambda a, b: a + b, xs, ctx, q)


def S_(xs, ctx, q=Q):
    return comb(lambda a, b: a - b, xs, ctx, q)


def N_(xs, ctx, q=Q):
    return comb(lambda a: -a, xs, ctx, q)


def M_(xs, ctx, q=Q):
    return comb(lambda a, b: a * b, xs, ctx, q)


def FMA_(xs, ctx, q=Q):
    return comb(lambda a, b, c: a + b * c, xs, ctx, q)


def ID_(xs, ctx, q=Q):
    return xs[0]


OPN = {"add": A_, "sub": S_, "mul": M_, "neg": N_}
WORD = {"add": "sum", "sub": "difference", "mul": "product", "neg": "negation"}


def owner(f):
    m = re.match(r"<&?(?:mut )?(?:\w+::)*(\w+)<[\w:]+> as ", f.name) or re.match(r"(?:\w+::)*(\w+)::<[\w:]+>::", f.name)
    return m.group(1) if m else None


def tyname(prog, f, i):
    t = prog.types[f.locals[i]]
    while t["k"] == "ref" and "to" in t:
        t = prog.types[t["to"]]
    m = re.match(r"&?(?:mut )?(?:\w+::)*(\w+)", t["name"])
    return m.group(1) if m else t["name"]


class Case:
    """one function on symbolic operands"""

    def __init__(self, S, prog, f, facts=(), over=None):
        self.S, self.f, self.prog = S, f, prog
        self.I = ring.interp(prog)
        self.key = f.name
        self.vals, self.before, self.res = spec.run(self.I, f, facts=list(facts), over=over)

    def arg(self, i):
        """value of argument i on entry"""
        v = self.vals[i]
        while isinstance(v, Ref):
            v = self.before[v.cell]
        return v

    def out(self, i):
        """value behind reference argument i at return, or the result for i = -1"""
        ret, st = self.res
        if i == -1:
            return ret
        return st.mem[self.vals[i].cell]

    @property
    def ctx(self):
        return self.res[1].ctx


def names(prog, f):
    return [tyname(prog, f, i + 1) for i in range(f.argc)]


def rule(prog, f):
    """(what, operands, leaf function, output position) for the pointwise operators, else None"""
    item = f.info["item"]
    own = owner(f)
    ts = names(prog, f)
    tr = f.info.get("trait") or f.info.get("implof") or ""
    retn = prog.types[f.locals[0]]["name"]
    if own in PW:
        m = re.search(r" as std::ops::(Add|Sub|Mul|Neg)(Assign)?(?:<|>)", f.name)
        if m:
            op, asg = m.group(1).lower(), bool(m.group(2))
            if op == "mul" and not (own == "NTTPolynomial" and ts[1] == "NTTPolynomial"):
                return None
            n = 1 if op == "neg" else 2
            return WORD[op], list(range(n)), OPN[op], 0 if asg else -1
        m = re.match(r"(add|sub|mul)_inplace$", item)
        if m and f.argc == 3 and ts[0] == ts[1] == ts[2]:
            return WORD[m.group(1)], [0, 1], OPN[m.group(1)], 2
        m = re.match(r"(add|sub)_(component|element)_wise(_ref)?$", item)
        if m and f.argc == 2 and retn != "()":
            return WORD[m.group(1)], [0, 1], OPN[m.group(1)], -1
        m = re.match(r"(add|sub)_(inplace_component_wise|assign_element_wise|element_wise_assign)$", item)
        if m and f.argc == 2:
            return WORD[m.group(1)], [0, 1], OPN[m.group(1)], 0
        if item == "neg_assign" and f.argc == 1:
            return WORD["neg"], [0], N_, 0
        if item == "copy_from" and f.argc == 2:
            return "copy", [1], ID_, 0
    if item == "ntt_add_mul_assign" and f.argc == 3:
        return "multiply-accumulate", [0, 1, 2], FMA_, 0
    if item == "ntt_add_mul_inplace" and f.argc == 4:
        return "multiply-accumulate", [0, 1, 2], FMA_, 3
    return None


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep, tries=150)
    n = 0
    seen = set()
    for f in prog.wsfns:
        with guard(rep, f.name):
            if "{closure" in f.name or not f.info or not f.info.get("item"):
                continue
            item = f.info["item"]
            if re.search(r"F(8|16|64)\b", f.name) or f.info.get("crate") not in ("algebra", "lattice"):
                continue
            if f.argc == 0:
                continue
            r = rule(prog, f)
            if r:
                n += 1
                what, ins, leaf, out = r
                c = Case(S, prog, f)
                if c.res is None:
                    rep.bad(c.key, "%s never returns" % f.name)
                    continue
                a = [c.arg(i) for i in ins]
                ref = c.out(out)
                walk(S, c.I, c.key, f, what, ref, a, leaf, c.ctx)
                continue
            h = special(prog, f, owner(f), names(prog, f))
            if h:
                n += 1
                h(S, prog, f)
    rep.floor("operator variants", n, 120)
    return rep.finish(
        rule="abstract value of every coefficient (generic index, symbolic dimensions and contents) equals the operator applied to the operands' coefficients",
        explanation="Abstract interpretation of the MIR with closed-form loop summaries; transforms are linear operators with intt(ntt(x)) = x.")


# ---------------------------------------------------------------- products, transforms, conversions
def special(prog, f, own, ts):
    item = f.info["item"]
    retn = prog.types[f.locals[0]]["name"]

    def simple(what, out, want):
        def h(S, prog, f):
            c = Case(S, prog, f)
            if c.res is None:
                S.rep.bad(c.key, "%s never returns" % f.name)
                return
            want(c, S, c.out(out))
        return h

    def poly(what, out, g):
        return simple(what, out, lambda c, S, got: compare_poly(S, c.key, f, what, got, g(c), c.ctx))

    def rl(what, out, g):
        return simple(what, out, lambda c, S, got: walk_want(S, c.key, f, what, got, ("rlwe", g(c)), c.ctx))

    def gp(c, g, p, ntt):
        return gadget_product(c.arg(g), ntt, getter(c.arg(p), c.ctx), c.ctx)

    def prt(c, i):
        return [getter(x, c.ctx) for x in parts(c.arg(i), c.ctx)]

    def get(c, i):
        return getter(c.arg(i), c.ctx)

    def inv(fs, c):
        return [lin("intt", N, g, c.ctx) for g in fs]

    def fwd(fs, c):
        return [lin("ntt", N, g, c.ctx) for g in fs]

    def plus(fs, gs):
        return [add(a, b) for a, b in zip(fs, gs)]

    def modq(fs):
        return [(lambda j, cx, g=g: comb(lambda x: x, [g(j, cx)], cx)) for g in fs]

    # ring products through the transform
    m = re.search(r" as std::ops::Mul(Assign)?(?:<|>)", f.name)
    if m and own in ("Polynomial", "NTTPolynomial"):
        out = 0 if m.group(1) else -1
        if own == "Polynomial" and ts[1] == "Polynomial":
            def g(c):
                a, b = fwd([get(c, 0)], c)[0], fwd([get(c, 1)], c)[0]
                return lin("intt", N, lambda j, cx: comb(lambda x, y: x * y, [a(j, cx), b(j, cx)], cx), c.ctx)
            return poly("product", out, g)
        if own == "Polynomial" and ts[1] == "NTTPolynomial":
            def g(c):
                a, b = fwd([get(c, 0)], c)[0], get(c, 1)
                return lin("intt", N, lambda j, cx: comb(lambda x, y: x * y, [a(j, cx), b(j, cx)], cx), c.ctx)
            return poly("product", out, g)
        if own == "NTTPolynomial" and ts[1] == "Polynomial":
            def g(c):
                a, b = get(c, 0), fwd([get(c, 1)], c)[0]
                return lambda j, cx: comb(lambda x, y: x * y, [a(j, cx), b(j, cx)], cx)
            return poly("product", out, g)
    if item in ("mul_scalar", "mul_scalar_assign") and own in ("Polynomial", "NTTPolynomial"):
        def g(c):
            s = f0(c.arg(1))
            return lambda j, cx: comb(lambda x: x * s, [coef(c.arg(0), j, cx)], cx)
        return poly("product by a scalar", 0 if item.endswith("assign") else -1, g)
    if item == "ntt_mul_assign_fast" and f.argc == 2:
        return None
    if item == "ntt_add_mul_assign_fast" and f.argc == 3:
        def h(S, prog, f):
            c = Case(S, prog, f)
            x, y, z = (get(c, i) for i in range(3))
            lazy_poly(S, c, f, "multiply-accumulate modulo q", c.out(0), lambda j, cx: comb(lambda a, b, d: a + b * d, [x(j, cx), y(j, cx), z(j, cx)], cx))
        return h
    if item == "set_zero" and own in PW:
        return simple("zero", 0, lambda c, S, got: zeros(S, c, f, got))
    if item == "zero" and own in ("Polynomial", "NTTPolynomial", "RLWE", "NTTRLWE") and f.argc == 1:
        def h(S, prog, f):
            c = Case(S, prog, f, over={0: N})
            if c.res is not None:
                walk(S, c.I, c.key, f, "zero", c.out(-1), [], lambda ls, cx: ZERO, c.ctx)
        return h
    # conversions
    m = re.match(r"<(?:\w+::)*(\w+)<[\w:]+> as std::convert::From<(.*)>>::from$", f.name)
    if m or item in ("into_ntt_polynomial", "into_native_polynomial"):
        src = re.match(r"(?:\w+::)*(\w+)", prog.types[f.locals[1]]["name"])
        src = src.group(1) if src else "tuple"
        dst = re.match(r"(?:\w+::)*(\w+)", retn).group(1)
        d = {("Polynomial", "NTTPolynomial"): "ntt", ("NTTPolynomial", "Polynomial"): "intt"}.get((src, dst))
        if d:
            return poly("transform", -1, lambda c: lin(d, N, get(c, 0), c.ctx))
        if (src, dst) == ("NTTRLWE", "RLWE"):
            return rl("transform", -1, lambda c: inv(prt(c, 0), c))
        if (src, dst) == ("RLWE", "NTTRLWE"):
            return rl("transform", -1, lambda c: fwd(prt(c, 0), c))
        if src == "tuple" and dst in ("RLWE", "NTTRLWE"):
            nt = "NTTPolynomial" in m.group(2)
            op = None if nt == (dst == "NTTRLWE") else "intt" if nt else "ntt"
            return rl("conversion", -1, lambda c: [x if op is None else lin(op, N, x, c.ctx) for x in prt(c, 0)])
        if (src, dst) in (("GadgetRLWE", "NTTGadgetRLWE"), ("RGSW", "NTTRGSW")):
            return lambda S, prog, f: rows_transform(S, prog, f)
    if item == "inverse_transform_inplace" and own == "NTTRLWE":
        return rl("inverse transform", 1, lambda c: inv(prt(c, 0), c))
    if item == "mul_ntt_polynomial_inplace" and own == "RLWE":
        def g(c):
            p = get(c, 1)
            return [(lambda j, cx, a=a: comb(lambda x, y: x * y, [a(j, cx), p(j, cx)], cx)) for a in fwd(prt(c, 0), c)]
        return rl("product in transform slots", 2, g)
    if item in ("mul_ntt_polynomial_assign", "mul_ntt_polynomial_inplace") and own in ("NTTRLWE", "NTTGadgetRLWE", "NTTRGSW"):
        out = 0 if item.endswith("assign") else 2
        return lambda S, prog, f: bc(S, prog, f, "product", [0], 1, lambda ls, cx: comb(lambda a, b: a * b, ls, cx), out)
    if re.match(r"add_ntt_(rlwe|gadget_rlwe|rgsw)_mul_ntt_polynomial_(assign|inplace)$", item):
        out = 0 if item.endswith("assign") else 3
        return lambda S, prog, f: bc(S, prog, f, "multiply-accumulate", [0, 1], 2, lambda ls, cx: comb(lambda a, b, d: a + b * d, ls, cx), out)
    if item == "add_ntt_rlwe_mul_ntt_polynomial_assign_fast":
        def h(S, prog, f):
            c = Case(S, prog, f)
            p = get(c, 2)
            for nm, x, y, got in zip("ab", prt(c, 0), prt(c, 1), parts(c.out(0), c.ctx)):
                lazy_poly(S, c, f, "multiply-accumulate modulo q", got, lambda j, cx: comb(lambda a, b, d: a + b * d, [x(j, cx), y(j, cx), p(j, cx)], cx), ":" + nm)
        return h
    # gadget products
    if own == "GadgetRLWE" and item == "mul_polynomial":
        return rl("gadget product", -1, lambda c: inv(gp(c, 0, 1, False), c))
    if own == "GadgetRLWE" and item == "mul_polynomial_add_rlwe":
        return rl("gadget product plus ciphertext", -1, lambda c: plus(inv(gp(c, 0, 1, False), c), prt(c, 2)))
    if own == "NTTGadgetRLWE" and item == "mul_polynomial":
        return rl("gadget product", -1, lambda c: gp(c, 0, 1, True))
    if own == "NTTGadgetRLWE" and item in ("mul_polynomial_inplace", "mul_polynomial_inplace_fast"):
        if item.endswith("fast"):
            return lambda S, prog, f: lazy_rl(S, prog, f, "gadget product modulo q", 4, lambda c: gp(c, 0, 1, True))
        return rl("gadget product", 4, lambda c: gp(c, 0, 1, True))
    if own == "RLWE" and item == "add_gadget_rlwe_mul_polynomial":
        return rl("ciphertext plus gadget product", -1, lambda c: plus(prt(c, 0), inv(gp(c, 1, 2, False), c)))
    if own == "NTTRLWE" and item == "add_gadget_rlwe_mul_polynomial":
        return rl("ciphertext plus gadget product", -1, lambda c: plus(prt(c, 0), gp(c, 1, 2, True)))
    if own == "NTTRLWE" and re.match(r"add_assign_gadget_rlwe_mul_polynomial(_inplace)?(_fast)?$", item):
        w = lambda c: plus(prt(c, 0), gp(c, 1, 2, True))
        if item.endswith("fast"):
            return lambda S, prog, f: lazy_rl(S, prog, f, "ciphertext plus gadget product modulo q", 0, w)
        return rl("ciphertext plus gadget product", 0, w)
    if own == "NTTRLWE" and re.match(r"sub_assign_gadget_rlwe_mul_polynomial(_inplace)?(_fast)?$", item):
        def w(c):
            x = get(c, 2)
            neg = lambda j, cx=None: comb(lambda t: -t, [x(j, cx)], cx)
            return plus(prt(c, 0), gadget_product(c.arg(1), True, neg, c.ctx))
        if item.endswith("fast"):
            return lambda S, prog, f: lazy_rl(S, prog, f, "ciphertext minus gadget product modulo q", 0, w)
        return rl("ciphertext minus gadget product", 0, w)
    if own == "RLWE" and item in ("mul_rgsw", "mul_ntt_rgsw", "mul_assign_ntt_rgsw", "mul_ntt_rgsw_inplace"):
        nt = "ntt" in item
        out = {"mul_assign_ntt_rgsw": 0, "mul_ntt_rgsw_inplace": 5}.get(item, -1)

        def w(c):
            g = [prune(x, c.ctx) for x in prune(c.arg(1), c.ctx).f]
            return external(c, g, nt, prt(c, 0))
        return rl("external product", out, w)
    if own == "RGSW" and item in ("mul_small_rgsw", "mul_small_ntt_rgsw"):
        return lambda S, prog, f: rgsw_rgsw(S, prog, f, "ntt" in item)
    # LWE over an integer modulus
    if own == "LWE":
        m = re.match(r"(add|sub)_reduce(_inplace)?_component_wise(_ref)?$", item)
        if m:
            return lambda S, prog, f: lwe_red(S, prog, f, WORD[m.group(1)], [0, 1], OPN[m.group(1)], 2, 0 if m.group(2) else -1)
        if item in ("neg_reduce", "neg_reduce_assign"):
            return lambda S, prog, f: lwe_red(S, prog, f, WORD["neg"], [0], N_, 1, 0 if item.endswith("assign") else -1)
        if item == "scalar_mul_reduce_inplace":
            return lambda S, prog, f: lwe_red(S, prog, f, "scalar product", [0], None, 2, 0, 1)
        if item == "add_assign_rhs_mul_scalar_reduce":
            return lambda S, prog, f: lwe_red(S, prog, f, "scalar multiply-accumulate", [0, 1], None, 3, 0, 2)
    return None


def external(c, g, nt, xy):
    p0 = gadget_product(g[0], nt, xy[0], c.ctx)
    p1 = gadget_product(g[1], nt, xy[1], c.ctx)
    return [lin("intt", N, add(u, v), c.ctx) for u, v in zip(p0, p1)]


def lazy_poly(S, c, f, what, got, w, suffix=""):
    """equal modulo q and below 2q"""
    s = seqof(got, c.ctx)
    if not isinstance(s, Seq):
        S.rep.unknown(c.key + suffix, "not a sequence")
        return
    j = term.mk_atom("var", ("index j of the result",), 0)
    cj = c.ctx.add(lt(P(j), N))
    g = f0(prune(s.read(P(j), cj), cj))
    S.compare(c.key + suffix, f, what, comb(lambda x: x, [g], cj), w(P(j), cj), cj)


def lazy_rl(S, prog, f, what, out, w):
    c = Case(S, prog, f)
    if c.res is None:
        S.rep.bad(c.key, "%s never returns" % f.name)
        return
    for nm, got, x in zip("ab", parts(c.out(out), c.ctx), w(c)):
        lazy_poly(S, c, f, what, got, x, ":" + nm)


def zeros(S, c, f, got):
    walk(S, c.I, c.key, f, "zero", got, [c.arg(0)], lambda ls, cx: ZERO, c.ctx)


def bc(S, prog, f, what, ins, scal, leaf, out):
    c = Case(S, prog, f)
    if c.res is None:
        S.rep.bad(c.key, "%s never returns" % f.name)
        return
    walk(S, c.I, c.key, f, what, c.out(out), [c.arg(i) for i in ins] + [Bc(c.arg(scal))], leaf, c.ctx)


def rows_transform(S, prog, f):
    c = Case(S, prog, f)
    if c.res is None:
        S.rep.bad(c.key, "%s never returns" % f.name)
        return

    def gad(key, got, src):
        k = term.mk_atom("var", ("row i",), 0)
        cx = c.ctx.add(lt(P(k), L))
        rows = prune(prune(got, cx).f[0], cx)
        st, why = S.decide(rows.n, L, cx) if isinstance(rows, Seq) else (None, "no rows")
        if st is not True:
            S.report(key, f, "row count", st, why)
            return
        r = prune(rows.read(P(k), cx), cx)
        w = [lin("ntt", N, getter(x, cx), cx) for x in parts(gadget_row(src, P(k), cx), cx)]
        walk_want(S, key, f, "transform of every row", r, ("rlwe", w), cx)
    got, src = prune(c.out(-1), c.ctx), prune(c.arg(0), c.ctx)
    if owner(f) == "NTTRGSW":
        for i in (0, 1):
            gad(c.key + ":" + "sm"[i], got.f[i], src.f[i])
    else:
        gad(c.key, got, src)


def rgsw_rgsw(S, prog, f, nt):
    c = Case(S, prog, f)
    if c.res is None:
        S.rep.bad(c.key, "%s never returns" % f.name)
        return
    got = prune(c.out(-1), c.ctx)
    x, y = prune(c.arg(0), c.ctx), prune(c.arg(1), c.ctx)
    g = [prune(z, c.ctx) for z in y.f]
    for i in (0, 1):
        k = term.mk_atom("var", ("row i",), 0)
        cx = c.ctx.add(lt(P(k), L))
        rows = prune(prune(got.f[i], cx).f[0], cx)
        if not isinstance(rows, Seq):
            S.rep.unknown(c.key, "no rows")
            continue
        st, why = S.decide(rows.n, L, cx)
        if st is not True:
            S.report(c.key, f, "row count", st, why)
            continue
        r = prune(rows.read(P(k), cx), cx)
        src = [getter(z, cx) for z in parts(gadget_row(x.f[i], P(k), cx), cx)]
        p0 = gadget_product(g[0], nt, src[0], cx)
        p1 = gadget_product(g[1], nt, src[1], cx)
        w = [lin("intt", N, add(u, v), cx) for u, v in zip(p0, p1)]
        walk_want(S, c.key + ":" + "sm"[i], f, "external product of every row", r, ("rlwe", w), cx)


def lwe_red(S, prog, f, what, ins, leaf, mpos, out, scal=None):
    q = mk_pow(const(2), QB)
    mt = prog.types[f.locals[mpos + 1]]
    over = {}
    if mt["k"] == "int":
        over[mpos] = q
    c = Case(S, prog, f, over=over)
    if c.res is None:
        S.rep.bad(c.key, "%s never returns" % f.name)
        return
    a = [c.arg(i) for i in ins]
    if scal is not None:
        s = f0(c.arg(scal))
        if len(ins) == 1:
            lf = lambda ls, cx: comb(lambda x: x * s, ls, cx, q)
        else:
            lf = lambda ls, cx: comb(lambda x, y: x + y * s, ls, cx, q)
    else:
        lf = lambda ls, cx: leaf(ls, cx, q)
    walk(S, c.I, c.key, f, what, c.out(out), a, lf, c.ctx)
