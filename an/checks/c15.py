"""Encoding, decoding, encryption and decryption of LWE messages."""
import re
import engine, spec, term, sem, arith, ring, fhe, samples
from common import Report, guard
from spec import *
from ring import coef, compare_poly, seqof, f0, NL, QB
from fhe import DB, TB, DOM

TWO = const(2)


def width(name):
    return 1 if name == "bool" else int(name[1:])


def decoded(x, db, tb, cx):
    """round(x * t / q) mod t"""
    return lift(lambda v, c: mk_rem(mk_quo(v[0] + mk_pow(TWO, db - 1), mk_pow(TWO, db), c), mk_pow(TWO, tb), c), [x], cx)


def panics(S, I, f, key, allowed=()):
    for fn, what, cx, line in I.panics:
        if "lwe_noise_distribution" in fn:
            continue            # a standard deviation no distribution exists for
        w = S.inhabited(cx)
        if w and not any(cond_opq(c) for c in cx.facts):
            S.rep.bad(key + ":panic", "%s (%s): %s panics on admissible input, e.g. %s" % (f.name, f.where(line), what, w))


def codec(S, prog, f, n):
    m = re.search(r"::(encode|decode)::<(\w+), (\w+)>$", f.name)
    it, M, C = m.groups()
    wm, wc = width(M), width(C)
    key = "%s<%s,%s>" % (f.path, M, C)
    qb = term.var("log q below %d" % wc, 1, wc - 1)
    db = P(term.mk_atom("var", ("log q/t below %d" % wc,), 1, qb))
    tb = qb - db
    facts = [ge(qb - db), ge(tb - 1)]
    q, t = mk_pow(TWO, qb), mk_pow(TWO, tb)
    n[it] = n.get(it, 0) + 1
    if it == "encode":
        for bad in (0, 1):
            if M == "bool" and bad:
                continue
            I = fhe.interp(prog)
            o = {1: t, 2: q}
            fs = list(facts)
            if M != "bool":
                x = term.var("message %s" % M, 0, (1 << wm) - 1)
                o[0] = x
                fs.append(ge(x - t) if bad else lt(x, t))
            vals, _, res = spec.run(I, f, over=o, facts=fs)
            if bad:
                if res is None:
                    S.rep.ok(key + ":reject", "a message outside the message space never encodes")
                else:
                    w = S.inhabited(res[1].ctx)
                    if w:
                        S.rep.bad(key + ":reject", "%s (%s) returns for a message outside the message space, e.g. %s" % (f.name, f.where(), w))
                    else:
                        S.rep.unknown(key + ":reject", "a return is not excluded")
                continue
            panics(S, I, f, key)
            if res is None:
                S.rep.bad(key, "%s never returns" % f.name)
                continue
            msg = Ch(vals[0], ONE, ZERO) if M == "bool" else vals[0]
            S.compare(key, f, "message * q / t", res[0], lift(lambda v, c: v[0] * mk_pow(TWO, db), [msg], res[1].ctx), res[1].ctx)
        return
    I = fhe.interp(prog)
    c = term.var("cipher %s" % C, 0, (1 << wc) - 1)
    fs = facts + [lt(c, q), le(tb, const(wm))]
    vals, _, res = spec.run(I, f, over={0: c, 1: t, 2: q}, facts=fs)
    if res is None:
        S.rep.bad(key, "%s never returns" % f.name)
        return
    panics(S, I, f, key)
    want = decoded(c, db, tb, res[1].ctx)
    got = res[0]
    if M == "bool":
        got = lift(lambda v, cx: Ch(v[0], ONE, ZERO) if is_bool(v[0]) else v[0], [got], res[1].ctx)
    S.compare(key, f, "round(c * t / q) mod t", got, want, res[1].ctx)


def secret(I, v, field, ctx):
    """a field of the secret key pack behind the receiver"""
    return samples.field(I, v, field)


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    S.deep = arith.deep
    n = {}
    for f in prog.wsfns:
        with guard(rep, f.name):
            if "{closure" in f.name:
                continue
            item = f.info["item"]
            if re.match(r"fhe_core::(\w+::)*(encode|decode)::<\w+, \w+>$", f.name):
                codec(S, prog, f, n)
            elif item in ("encrypt", "decrypt", "decrypt_with_noise") and re.search(r"(SecretKeyPack|Encryptor|Decryptor)::<", f.name):
                pack(S, prog, f, item, n)
    for k, least in (("encode", 5), ("decode", 5), ("encrypt", 2), ("decrypt", 2), ("decrypt_with_noise", 2)):
        rep.floor(k, n.get(k, 0), least)
    return rep.finish(
        "encode(m) = m*q/t for m < t and no return otherwise; decode(c) = floor((c + q/(2t)) / (q/t)) mod t; encrypt(m) has phase b - <a,s> = encode(m) + one noise draw; decrypt = decode(b - <a,s>); the reported noise is the distance between the phase and the re-encoded message",
        explanation="Abstract interpretation of the MIR; message, moduli (any two powers of two t < q), dimension, key and ciphertext are symbolic.")


def pack(S, prog, f, item, n):
    n[item] = n.get(item, 0) + 1
    key = f.path
    M = prog.types[f.locals[2 if item == "encrypt" else 0]]["name"].strip("()").split(",")[0]
    if item != "encrypt":
        M = re.search(r"<(\w+)>$", f.name).group(1)
    wm = width(M)
    I = fhe.interp(prog)
    o, facts = {}, list(DOM) + [ge(TB - 1)]
    q = mk_pow(TWO, QB)
    if item == "encrypt":
        x = term.var("message %s" % M, 0, (1 << wm) - 1)
        o[1] = x
        facts.append(lt(x, mk_pow(TWO, TB)))
    else:
        facts.append(le(TB, const(wm)))
    vals, before, res = spec.run(I, f, over=o, facts=facts)
    if res is None:
        S.rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    cx = st.ctx
    panics(S, I, f, key)
    sk = samples.field(I, before, vals[0], "lwe_secret_key")
    if item == "encrypt":
        samples.lwe(S, key, f, I, st, ret, lambda j, c: coef(sk, j, c), x * mk_pow(TWO, DB), q, NL, "lwe_params.noise_standard_deviation", fresh_mask=False)
        return
    ct = I_load(before, vals[1])
    a, b = prune(ct, cx).f
    v = term.mk_atom("bound", (term.fresh_bound(),), 0) if hasattr(term, "fresh_bound") else None
    ph = samples.phase(a, b, lambda j, c: coef(sk, j, c), q, NL, cx)
    m = decoded(ph, DB, TB, cx)
    got = prune(ret, cx)
    if item == "decrypt_with_noise":
        if not isinstance(got, Agg) or len(got.f) != 2:
            S.rep.unknown(key, "not a pair")
            return
        e = lift(lambda xs, c: mk_fn("min", tuple(sorted([mk_rem(xs[0] - xs[1] * mk_pow(TWO, DB), q, c), mk_rem(xs[1] * mk_pow(TWO, DB) - xs[0], q, c)], key=show)), 0, q - 1), [ph, m], cx)
        S.compare(key + ":noise", f, "distance to the nearest encoding", got.f[1], e, cx)
        got = got.f[0]
    S.compare(key, f, "decode(b - <a,s>)", got, m, cx)


def I_load(mem, v):
    while isinstance(v, Ref):
        v = mem[v.cell]
    return v
