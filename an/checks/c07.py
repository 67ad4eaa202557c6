"""Where the randomness of fresh samples comes from: one uniform draw per mask entry, one draw of the configured
noise distribution per coefficient, no draw used twice, all of them consumed from the caller's generator."""
import re
import engine, spec, term, sem, arith, ring, fhe, samples
from common import Report, guard
from spec import *
from ring import N, L, B, Q, NL, QB, coef, getter
from checks import c19

TWO = const(2)


class Quiet:
    """collects the families without judging the phase (that is C19's business)"""
    def ok(self, *a):
        pass
    bad = unknown = ok


def args_of_sampler(prog, I, f, vals, before):
    for v, ty in zip(vals, f.locals[1:]):
        while isinstance(v, Ref):
            v = before[v.cell]
        if isinstance(v, Agg) and isinstance(v.ty, int) and re.search(r"DiscreteGaussian(Sampler)?$", prog.types[v.ty].get("path", "")):
            return v
    return None


def gaussian(I, v):
    """(mean, standard deviation) of a sampler value"""
    out = []

    def go(x):
        if isinstance(x, Agg):
            if x.ty == "normal" or isinstance(x.ty, int) and I.p.types[x.ty].get("path", "").endswith("Normal"):
                out.append(x)
                return
            for y in x.f:
                go(y)
    go(v)
    return [vshow(z) for z in out[0].f[:2]] if out else None


def labels(S, key, f, I, smp, fams, cbd):
    """noise comes from the sampler that was passed in"""
    want = gaussian(I, smp) if smp is not None else None
    if want is None:
        S.rep.unknown(key, "no sampler argument")
        return
    for F in fams:
        if F.kind.split(".")[-1] != "noise":
            continue
        if F.label == "cbd":
            if cbd is False:
                S.rep.bad(key, "%s (%s): noise is drawn from the centred binomial distribution although the sampler does not enable it" % (f.name, f.where()))
                return
            continue
        m = re.match(r"\w+\((.*)\)$", F.label)
        got = m.group(1) if m else F.label
        if cbd is True:
            S.rep.bad(key, "%s (%s): noise is not drawn from the centred binomial distribution that the sampler enables but from %s" % (f.name, f.where(), F.label[:160]))
            return
        if not got.startswith(",".join(want)):
            S.rep.bad(key, "%s (%s): noise is drawn with parameters %s instead of the configured %s" % (f.name, f.where(), got[:160], ",".join(want)))
            return
    S.rep.ok(key, "noise is drawn from the configured sampler")


def judge(S, key, f, st, vals, fams, n, row, rows, base, nm, nn):
    """counts, freshness, consumption"""
    if nm == 0:
        S.rep.unknown(key + ":mask", "no mask draws")
    samples.freshness(S, key + ":fresh", f, fams, n, row, rows, base)
    samples.consumed(S, key + ":consumed", f, st, vals, fams, n, row, rows, base)


def ring_producer(S, prog, f, own, item, cbd):
    key = f.path + (":cbd" if cbd else "")
    I, vals, before, res = c19.setup(prog, f, own, item, cbd)
    if res is None:
        S.rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    sk = vals[0]
    while isinstance(sk, Ref):
        sk = before[sk.cell]
    ntt = own.startswith("NTT")
    s = getter(sk, st.ctx)
    Q_ = Spec(prog, Quiet())
    Q_.deep = arith.deep
    fams, row = [], None
    for k, ct, rw, kind, cx in c19.ring_parts(S, key, f, own, item, ret, st.ctx):
        # the message is subtracted from the mask in some gadget samples: the draw is still a mask entry
        fm = []
        samples.mask_family(S, k + ":mask", f, ct, ntt, cx, fm)
        samples.ring_sample(Q_, k, f, ct, s, lambda j, c: ZERO, ntt, cx, fm)
        if not any(F.kind == "noise" for F in fm):
            S.rep.bad(k + ":noise", "%s (%s): the sample contains no noise draw" % (f.name, f.where()))
        for F in fm:
            F.row = k                     # the two halves of an RGSW sample are different families
        fams += fm
        row = rw if rw is not None else row
    if not fams:
        return
    labels(S, key + ":sampler", f, I, args_of_sampler(prog, I, f, vals, before), fams, bool(cbd))
    base = c19.BD + [ge(L - 1)]
    judge(S, key, f, st, vals, fams, N, row, L, base, 1, 1)


def lwe_producer(S, prog, f, what):
    key = f.path + ("<%s>" % what if what else "")
    q = mk_pow(TWO, QB)
    if what:
        I = fhe.interp(prog)
        M = prog.types[f.locals[2]]["name"]
        w = 1 if M == "bool" else int(M[1:])
        x = term.var("message %s" % M, 0, (1 << w) - 1)
        vals, before, res = spec.run(I, f, over={1: x}, facts=list(fhe.DOM) + [ge(fhe.TB - 1), lt(x, mk_pow(TWO, fhe.TB))])
        n = NL
    else:
        I = ring.interp(prog)
        vals, before, res = spec.run(I, f, over={1: q}, names={0: "secret_key"})
        n = N
    if res is None:
        S.rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    fams = []
    for span, cx in samples.lwe_families(S, key, f, ret, st.ctx, fams, n):
        if not what and span != q:
            continue
        S.compare(key + ":range", f, "mask entries are uniform below the modulus", span, q, cx)
    if not any(F.kind == "noise" for F in fams):
        S.rep.bad(key + ":noise", "%s (%s): the sample contains no noise draw" % (f.name, f.where()))
    if what:
        sd = samples.field(I, before, vals[0], "lwe_params")
        t = prog.types[sd.ty]
        sd = dict(zip([x[0] for x in t["variants"][0]["fields"]], sd.f))["noise_standard_deviation"]
        for F in fams:
            if F.kind == "noise":
                m = re.match(r"\w+\((.*)\)$", F.label)
                a = m.group(1).split(",") if m else []
                if len(a) < 2 or a[1] != vshow(sd) or "0000000000000000" not in a[0]:
                    S.rep.bad(key + ":sampler", "%s (%s): noise is drawn from %s instead of a centred Gaussian with the standard deviation of the LWE parameters" % (f.name, f.where(), F.label[:200]))
                    break
        else:
            S.rep.ok(key + ":sampler", "centred Gaussian with the configured standard deviation")
    else:
        labels(S, key + ":sampler", f, I, args_of_sampler(prog, I, f, vals, before), fams, None)
    judge(S, key, f, st, vals, fams, n, None, ONE, [ge(n - 1)], 1, 1)


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    S.deep = arith.deep
    n = {}
    for f, own, item in c19.producers(prog):
        with guard(rep, f.name):
            n[own] = n.get(own, 0) + 1
            if own == "LWE":
                lwe_producer(S, prog, f, None)
            else:
                for cbd in (0, 1):
                    ring_producer(S, prog, f, own, item, cbd)
    for f in prog.wsfns:
        if f.info["item"] == "encrypt" and "{closure" not in f.name and re.search(r"(SecretKeyPack|Encryptor)::<", f.name):
            with guard(rep, f.name):
                n["encrypt"] = n.get("encrypt", 0) + 1
                lwe_producer(S, prog, f, prog.types[f.locals[2]]["name"])
    for k, least in (("LWE", 1), ("RLWE", 1), ("NTTRLWE", 2), ("GadgetRLWE", 3), ("NTTGadgetRLWE", 3), ("RGSW", 2), ("NTTRGSW", 2), ("encrypt", 2)):
        rep.floor(k + " producers", n.get(k, 0), least)
    return rep.finish(
        "every mask entry of a fresh sample is its own uniform draw and every noise term its own draw from the sampler that was passed in (or configured); the positions of all draws of a sample differ over all rows and indices, come from the caller's generator and are consumed from it",
        explanation="Abstract interpretation of the MIR; random draws are symbols indexed by generator and position, so reuse of a draw is an equation between positions.")
