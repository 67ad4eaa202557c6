"""Fresh ring and scalar samples encrypt what they say: phase = message + one noise draw per coefficient."""
import re
import engine, spec, term, sem, arith, ring, fhe, samples
from common import Report, guard
from spec import *
from ring import N, L, B, Q, coef, seqof, f0, getter

TWO = const(2)
BD = [le(B * (L - 1), const(26)), le(B, const(27))]


def interp(prog, cbd):
    I = ring.interp(prog)
    base = I.symtype

    def symtype(I_, t, name, idxs, st):
        if t["k"] == "adt" and t["path"].endswith("FieldDiscreteGaussianSampler"):
            fs = t["variants"][0]["fields"]
            return Agg(I.tyindex(t), None, [(T if cbd else F) if prog.types[ty]["k"] == "bool" else I.symval(ty, name + "." + fn, idxs, st) for fn, ty in fs])
        return base(I_, t, name, idxs, st)
    I.symtype = symtype
    return I


def message(item, own, s, row, ntt, cx):
    """(j, cx) -> message of the row (None: a plain ring sample)"""
    p = mk_pow(TWO, B * P(row)) if row is not None else ONE
    if item == "zero":
        return lambda j, c: ZERO
    if item == "one":
        return samples.const_poly(p, ntt)
    return samples.secret_poly(s, -p, ntt, cx)


def producers(prog):
    for f in prog.wsfns:
        m = re.match(r"lattice::(?:\w+::)*(RLWE|NTTRLWE|GadgetRLWE|NTTGadgetRLWE|RGSW|NTTRGSW|LWE)::<([^>]*)>::generate_random_(zero|one|neg_secret|value)_sample", f.name)
        if m and "{closure" not in f.name and (m.group(2) == "u16" or m.group(2).endswith("F32")):
            yield f, m.group(1), m.group(3)


def rows(S, key, f, g, cx):
    """the rows of a gadget sample at a generic index"""
    r = prune(prune(g, cx).f[0], cx)
    if not isinstance(r, Seq):
        S.rep.unknown(key, "no rows")
        return None
    st, why = S.decide(r.n, L, cx)
    if st is not True:
        S.report(key, f, "row count", st, why)
        return None
    k = term.mk_atom("var", ("row i",), 0)
    ck = cx.add(lt(P(k), L))
    return k, prune(r.read(P(k), ck), ck), ck


def ring_parts(S, key, f, own, item, ret, cx):
    """[(key, ciphertext, row index or None, message kind, context)]"""
    v = prune(ret, cx)
    if own in ("RLWE", "NTTRLWE"):
        return [(key, v, None, item, cx)]
    if own in ("GadgetRLWE", "NTTGadgetRLWE"):
        r = rows(S, key, f, v, cx)
        return [(key, r[1], r[0], item, r[2])] if r else []
    names = [x[0] for x in S.prog.types[f.locals[0]]["variants"][0]["fields"]]
    out = []
    for nm, g in zip(names, v.f):
        r = rows(S, key + "." + nm, f, g, cx)
        if r:
            k = item if item == "zero" else ("neg_secret" if "neg" in nm else "one")
            out.append((key + "." + nm, r[1], r[0], k, r[2]))
    return out


def setup(prog, f, own, item, cbd):
    I = interp(prog, cbd)
    vals, before, res = spec.run(I, f, facts=BD, names={0: "secret_key"})
    return I, vals, before, res


def lwe_case(S, prog, f, key, whole):
    I = ring.interp(prog)
    q = mk_pow(TWO, ring.QB)
    over = {1: q}
    vals, before, res = spec.run(I, f, over=over, names={0: "secret_key"})
    if res is None:
        S.rep.bad(key, "%s never returns" % f.name)
        return None
    return I, vals, before, res, q


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    S.deep = arith.deep
    n = {}
    for f, own, item in producers(prog):
        with guard(rep, f.name):
            n[own] = n.get(own, 0) + 1
            if own == "LWE":
                r = lwe_case(S, prog, f, f.path, True)
                if r:
                    I, vals, before, (ret, st), q = r
                    sk = vals[0]
                    while isinstance(sk, Ref):
                        sk = before[sk.cell]
                    samples.lwe(S, f.path, f, I, st, ret, lambda j, c: coef(sk, j, c), ZERO, q, N, None)
                continue
            for cbd in (0, 1):
                key = f.path + (":cbd" if cbd else "")
                I, vals, before, res = setup(prog, f, own, item, cbd)
                if res is None:
                    rep.bad(key, "%s never returns" % f.name)
                    continue
                ret, st = res
                sk = vals[0]
                while isinstance(sk, Ref):
                    sk = before[sk.cell]
                ntt = own.startswith("NTT")
                s = getter(sk, st.ctx)
                for k, ct, row, kind, cx in ring_parts(S, key, f, own, item, ret, st.ctx):
                    if kind == "value":
                        val = f0(vals[1])
                        msg = samples.const_poly(val, ntt)
                    else:
                        msg = message(kind, own, s, row, ntt, cx)
                    samples.ring_sample(S, k, f, ct, s, msg, ntt, cx, [])
    for k, least in (("LWE", 1), ("RLWE", 1), ("NTTRLWE", 2), ("GadgetRLWE", 3), ("NTTGadgetRLWE", 3), ("RGSW", 2), ("NTTRGSW", 2)):
        rep.floor(k + " producers", n.get(k, 0), least)
    return rep.finish(
        "b - a*s of every fresh sample equals its message plus exactly one noise draw per coefficient, at a generic coefficient of a generic row",
        explanation="Abstract interpretation of the MIR; secret, dimension, gadget length, basis width and every random draw are symbols. The transforms are mutually inverse linear maps with ntt(1) = (1,...,1).")
