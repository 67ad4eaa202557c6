"""Gadget decomposition: basis parameters, and every digit of every form of the decomposition."""
import re
import engine, spec, term, ring
from common import Report, guard
from spec import *
from ring import *

TWO = const(2)


def digit_of(x, j, b, ctx):
    return lift(lambda xs, c: mk_rem(mk_quo(xs[0], mk_pow(TWO, b * j), c), mk_pow(TWO, b), c) if isinstance(xs[0], Poly) else Opq("digit"), [x], ctx)


def rest_of(x, j, b, ctx):
    return lift(lambda xs, c: mk_quo(xs[0], mk_pow(TWO, b * j), c) if isinstance(xs[0], Poly) else Opq("rest"), [x], ctx)


def field(f):
    m = re.search(r"\bF(8|16|32|64)\b", f.name)
    return m.group(0) if m else None


class Go:
    def __init__(self, S, prog, f, lens=None, over=None, facts=(), names=None):
        self.I = ring.interp(prog)
        if lens:
            self.I.lenfix = lens
        self.f, self.S, self.key = f, S, f.name
        self.vals, self.before, self.res = spec.run(self.I, f, over=over, facts=list(facts), names=names)
        if self.res is None:
            S.rep.bad(self.key, "%s never returns" % f.name)
            return
        self.ret, self.st = self.res
        self.ctx = self.st.ctx
        panics(S, self)

    def old(self, i):
        v = self.vals[i]
        while isinstance(v, Ref):
            v = self.before[v.cell]
        return v

    def new(self, i):
        return self.st.mem[self.vals[i].cell]


def panics(S, g):
    seen = set()
    for fn, what, cx, line in g.I.panics:
        if any(cond_opq(c) for c in cx.facts):
            continue
        w = S.inhabited(cx)
        if w and what not in seen:
            seen.add(what)
            S.rep.bad(g.key + ":panic", "%s (%s) panics (%s) on admissible input, e.g. %s" % (g.f.name, g.f.where(line), what, w))


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    items = lambda name, **k: [f for f in prog.wsfns if f.info and f.info.get("item") == name and "{closure" not in f.name]
    n = {}

    def count(k):
        n[k] = n.get(k, 0) + 1
    bits = lambda hi: term.var("bits (of %d)" % hi, 1, hi)
    # ---- basis parameters
    for f in items("new"):
        with guard(rep, f.name):
            m = re.match(r"algebra::Basis::<(.*)>::new", f.name)
            if m and field(f):
                count("Basis::new")
                q = engine.FIELDQ[field(f)]
                mb = q.bit_length()
                b = bits(mb)
                g = Go(S, prog, f, over={0: b})
                if g.res:
                    params(S, g, b, mb)
            m = re.match(r"lattice::(?:\w+::)*Basis::<(u\d+)>::new", f.name)
            if m:
                count("lattice Basis::new")
                w = int(m.group(1)[1:])
                mb = term.var("log2 modulus", 1, w - 1)
                b = term.var("bits", 1, w - 1)
                g = Go(S, prog, f, over={0: b, 1: mk_pow(TWO, mb)}, facts=[le(b, mb)])
                if g.res:
                    params(S, g, b, mb)
                # any modulus
                mod = term.var("modulus", 2, (1 << w) - 1)
                import models
                one = eq(term.mk_fn("count_ones", (const(w), mod), 0, w) - 1)
                mb = const(w) - models.lzatom(mod, w)
                for nm, fact, k in (("power of two", one, mb - 1), ("not a power of two", neg(one), mb)):
                    g = Go(S, prog, f, over={0: b, 1: mod}, facts=[fact, le(b, k), lt(b, const(w))])
                    if g.res:
                        g.key += " (modulus %s)" % nm
                        params(S, g, b, k)
    # ---- scalars
    for f in prog.wsfns:
        with guard(rep, f.name):
            if not re.search(r"as algebra::DecomposableField>::", f.name) or "{closure" in f.name or field(f) is None:
                continue
            q = engine.FIELDQ[field(f)]
            mb = q.bit_length()
            b = bits(mb)
            ln = term.var("decompose_len", 1, 64)
            base = lambda: Agg(None, None, [mk_pow(TWO, b), ln, mk_pow(TWO, b) - 1, b])
            x = term.var("value below %d" % q, 0, q - 1)
            it = f.info["item"]
            if it in ("decompose", "decompose_at"):
                count(it)
                I = ring.interp(prog)
                f1 = [le((ln - 1) * b, const(mb - 1))]       # len = ceil(mb / bits)
                over = lambda I, st: {0: Agg(f.locals[1], None, [x]), 1: retype(prog, f.locals[2], base())}
                g = Go(S, prog, f, lens=lambda nm, ix: ln, over=over, facts=f1)
                if not g.res:
                    continue
                got = g.ret if it == "decompose" else g.new(2)
                S.compare_seq(g.key, f, "digit j of the value", got, ln, lambda j: digit_of(x, j, b, g.ctx.add(lt(j, ln))), g.ctx)
            if it in ("decompose_lsb_bits", "decompose_lsb_bits_at"):
                count(it)
                at = it.endswith("_at")
                nargs = f.argc
                I0 = {nargs - 2: mk_pow(TWO, b) - 1, nargs - 1: b}
                g = Go(S, prog, f, over=I0)
                if not g.res:
                    continue
                x0 = f0(g.old(0))
                S.compare(g.key + ":digit", f, "least significant digit", f0(g.new(1) if at else g.ret), digit_of(x0, ZERO, b, g.ctx), g.ctx)
                S.compare(g.key + ":rest", f, "remaining value", f0(g.new(0)), rest_of(x0, ONE, b, g.ctx), g.ctx)
    # ---- polynomials and slices
    for f in prog.wsfns:
        with guard(rep, f.name):
            m = re.match(r"algebra::Polynomial::<roots::(F\d+)>::(decompose\w*)$", f.name)
            if m and "{closure" not in f.name:
                it = m.group(2)
                count("Polynomial::" + it)
                q = engine.FIELDQ[m.group(1)]
                fb = [le(B, const(q.bit_length())), le(B * (L - 1), const(q.bit_length() - 1))]
                if it == "decompose_inplace":
                    def lens(nm, ix):
                        return L if nm.startswith("destination") and not ix and not nm.endswith("data.len") else N
                    g = Go(S, prog, f, lens=lens, facts=fb)
                else:
                    g = Go(S, prog, f, facts=fb)
                if not g.res:
                    continue
                x0 = g.old(0)
                if it == "decompose_lsb_bits_inplace":
                    seq(S, g, g.new(2), N, lambda j, cx: digit_of(coef(x0, j, cx), ZERO, B, cx), "least significant digits", ":digit")
                    seq(S, g, g.new(0), N, lambda j, cx: rest_of(coef(x0, j, cx), ONE, B, cx), "remaining value", ":rest")
                else:
                    rows = seqof(g.ret if it == "decompose" else g.new(2), g.ctx)
                    nested(S, g, rows, L, N, lambda i, j, cx: digit_of(coef(x0, j, cx), i, B, cx), "digit i of coefficient j")
            m = re.match(r"lattice::(?:\w+::)*decompose_lsb_bits_inplace::<(u\d+)>$", f.name)
            if m:
                count("slice decompose_lsb_bits_inplace")
                g = Go(S, prog, f)
                if not g.res:
                    continue
                x0 = g.old(0)
                seq(S, g, g.new(2), N, lambda j, cx: digit_of(coef(x0, j, cx), ZERO, LB, cx), "least significant digits", ":digit")
                seq(S, g, g.new(0), N, lambda j, cx: rest_of(coef(x0, j, cx), ONE, LB, cx), "remaining value", ":rest")
    for k, least in (("Basis::new", 1), ("lattice Basis::new", 1), ("decompose", 4), ("decompose_at", 4), ("decompose_lsb_bits", 4), ("decompose_lsb_bits_at", 4),
                     ("Polynomial::decompose", 1), ("Polynomial::decompose_inplace", 1), ("Polynomial::decompose_lsb_bits_inplace", 1), ("slice decompose_lsb_bits_inplace", 1)):
        rep.floor(k, n.get(k, 0), least)
    return rep.finish(
        rule="basis parameters are (2^bits, ceil(modulus bits / bits), 2^bits - 1, bits); digit i equals (value div 2^(bits*i)) mod 2^bits at every index, the remaining value is value div 2^bits",
        explanation="Abstract interpretation of the MIR with closed-form loop summaries; value, basis width, number of digits and destination contents are symbolic. The base-weighted sum of these digits is the value by the positional number system, because 2^(bits*len) exceeds the modulus.")


def retype(prog, ty, v):
    return Agg(ty, None, v.f)


def seq(S, g, got, n, want, what, suffix):
    S.compare_seq(g.key + suffix, g.f, what, got, n, lambda j: want(j, g.ctx.add(lt(j, n))), g.ctx)


def nested(S, g, rows, n, m, want, what):
    if not isinstance(rows, Seq):
        S.rep.unknown(g.key, "not a sequence of polynomials")
        return
    st, why = S.decide(rows.n, n, g.ctx)
    if st is not True:
        S.report(g.key, g.f, what + " (number of digits)", st, why)
        return
    i = term.mk_atom("var", ("index i of the result",), 0)
    ci = g.ctx.add(lt(P(i), n))
    r = rows.read(P(i), ci)
    S.compare_seq(g.key, g.f, what, seqof(r, ci), m, lambda j: want(P(i), j, ci.add(lt(j, m))), ci)


def params(S, g, b, mb):
    v = prune(g.ret, g.ctx)
    f = g.f
    if not isinstance(v, Agg) or len(v.f) != 4:
        S.rep.unknown(g.key, "basis value has an unknown shape")
        return
    names = [x[0] for x in S.prog.types[f.locals[0]]["variants"][0]["fields"]]
    want = {"basis": mk_pow(TWO, b), "mask": mk_pow(TWO, b) - 1, "bits": b, "decompose_len": mk_quo(P(mb) + b - 1, b, g.ctx)}
    for nm, x in zip(names, v.f):
        if nm in want:
            S.compare(g.key + "." + nm, f, nm, x, want[nm], g.ctx)
        else:
            S.rep.unknown(g.key + "." + nm, "unexpected field")
