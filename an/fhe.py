"""Symbolic scheme parameters and keys over the symbols of ring.py."""
import engine, term, sem, ring
from spec import *
from ring import N, L, B, LB, LL, NL, QB, Q

DB = P(term.mk_atom("var", ("log(q/t)",), 1, QB))      # 1 <= t < q
TB = QB - DB
DOM = [ge(QB - DB)]
STEPS = {"BrMsKs": 0, "BrKsMs": 1, "BrMs": 2}


def enum(I, path, variant):
    for i, t in enumerate(I.p.types):
        if t["k"] == "adt" and t["path"].split("::")[-1] == path:
            for k, v in enumerate(t["variants"]):
                if v["name"] == variant:
                    return Agg(i, k, [])
    return None


def interp(prog, steps="BrKsMs", lwe_key="Ternary", ring_key="Ternary", n=NL, qb=QB, tb=TB, ring_n=N):
    """qb, tb: logarithms of the ciphertext and message moduli; n, ring_n: LWE and ring dimension"""
    I = ring.interp(prog)
    base = I.symtype
    blens = I.lenfix

    def struct(t, name, idxs, st, known):
        fs = t["variants"][0]["fields"]
        return Agg(I.tyindex(t), 0 if False else None, [known[f] if f in known else I.symval(ty, name + "." + f, idxs, st) for f, ty in fs])

    def symtype(I_, t, name, idxs, st):
        if t["k"] == "adt":
            p = t["path"].split("::")[-1]
            if p == "LWEParameters":
                return struct(t, name, idxs, st, {"dimension": n, "plain_modulus": mk_pow(const(2), tb), "cipher_modulus": mk_pow(const(2), qb), "secret_key_type": enum(I, "LWESecretKeyType", lwe_key)})
            if p == "BlindRotationParameters":
                return struct(t, name, idxs, st, {"dimension": ring_n, "modulus": Q, "secret_key_type": enum(I, "RingSecretKeyType", ring_key)})
            if p == "KeySwitchingParameters":
                return struct(t, name, idxs, st, {"basis_bits": LB})
            if p == "PowOf2Modulus":
                return Agg(I.tyindex(t), None, [mk_pow(const(2), qb) - 1])
            if p == "Steps":
                return enum(I, "Steps", steps)
        return base(I_, t, name, idxs, st)
    I.symtype = symtype

    def lens(name, idxs):
        if "lwe_secret_key" in name:
            return n
        r = blens(name, idxs)
        return ring_n if r is N else r
    I.lenfix = lens
    return I
