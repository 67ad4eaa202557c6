"""Evaluation key material: every entry is a fresh sample of the right message under the right key."""
import re
import engine, spec, term, sem, arith, ring, fhe, samples
from common import Report, guard
from spec import *
from ring import N, L, LB, LL, NL, B, QB, Q, f0, seqof, coef, getter, lin
from checks.c07 import gaussian
from checks.c20 import floorcase

TWO = const(2)
QV = mk_pow(TWO, QB)
BASE = mk_pow(TWO, LB)
STREAMS = set()


class Samples:
    """replaces the sample generators by fresh symbols indexed by generator and position"""
    def __init__(self, I):
        self.I = I
        self.calls = []
        I.intercepts.insert(0, self.hook)

    def hook(self, I, fr, st, inst, info, path, a):
        if info is None or info["crate"] != "lattice":
            return NotImplemented
        m = re.match(r"generate_random_(\w+)_sample$", info["item"])
        fn = I.p.fns.get(inst)
        if not m or fn is None:
            return NotImplemented
        own = re.match(r"lattice::(?:\w+::)*(\w+)::<", fn.name)
        own = own.group(1) if own else "?"
        ref, rng = None, None
        for v in a:
            r = sem.find_rng(I, st, v)
            if r and r[1] is not None:
                ref, rng = r
        if rng is None:
            return NotImplemented
        stream, pos = rng.f[0], prune(rng.f[1], st.ctx)
        I.store(st, ref, Agg(rng.ty, rng.var, [stream, pos + 1]))
        args = []
        for v in a:
            x = prune(v, st.ctx)
            while isinstance(x, Ref):
                x = prune(I.load(st, x), st.ctx)
            if not (isinstance(x, Agg) and x.ty == sem.RNGTY):
                args.append(x)
        if I.record:
            self.calls.append((fr.fn, own, m.group(1), args, st.ctx))
        return I.symval(fn.locals[0], "sample:%s:%s" % (own, m.group(1)), (pos,), st), st


# ---------------------------------------------------------------- reading samples
def leaf_sample(x, cx):
    """(sample name, index arguments) of a component that is exactly a component of a sample"""
    if isinstance(x, Poly):
        A = single_atom(x)
        if A is not None and A.kind == "sel" and str(A.args[0]).startswith("sample:"):
            return str(A.args[0]), list(A.args[1:])
    return None


def sample_in(x):
    """the sample components occurring in a value"""
    return [A for A in samples.atoms(x).values() if A.kind == "sel" and str(A.args[0]).startswith("sample:")]


class Entries:
    """positions of the samples that the entries of a key are made of"""
    def __init__(self, S, key, f):
        self.S, self.key, self.f = S, key, f
        self.pos = {}

    def see(self, tag, pos, idx, cx):
        """entry family `tag` at indices idx [(atom, bound)] is the sample at position pos"""
        if tag in self.pos:
            st = cx.simp(self.pos[tag][0] - pos)
            if st != ZERO and self.S.decide(self.pos[tag][0], pos, cx)[0] is not True:
                self.S.rep.unknown(self.key + ":one", "components of one entry come from samples at positions %s and %s" % (show(self.pos[tag][0])[:80], show(pos)[:80]))
            return
        self.pos[tag] = (pos, idx, cx)

    def judge(self, radix):
        """radix: bounds of the indices, outermost first; the families are numbered 0.. within an entry"""
        S, key, f = self.S, self.key + ":fresh", self.f
        tags = sorted(self.pos)
        if not tags:
            S.rep.unknown(key, "no samples")
            return
        for a in tags:
            pos, idx, cx = self.pos[a]
            for A, bound in idx:
                if A.id not in samples.atoms(pos):
                    w = S.inhabited(cx.add(ge(bound - 2)))
                    if w:
                        S.rep.bad(key, "%s (%s): entries that differ in %s only share one sample (position %s), e.g. %s" % (f.name, f.where(), A.args[0], show(pos)[:80], w))
                        return
            for b in tags:
                if b > a and self.S.decide(pos, self.pos[b][0], cx.add(*self.pos[b][2].facts))[0] is True and not cx.add(*self.pos[b][2].facts).infeasible():
                    S.rep.bad(key, "%s (%s): two components of one entry share one sample (position %s)" % (f.name, f.where(), show(pos)[:80]))
                    return
        for k, a in enumerate(tags):
            pos, idx, cx = self.pos[a]
            want = ZERO
            for A, bound in idx:
                want = want * bound + P(A)
            want = want * len(tags) + k
            if S.decide(pos, want, cx)[0] is not True:
                S.rep.unknown(key, "positions are %s, not in mixed radix order" % show(pos)[:120])
                return
        S.rep.ok(key, "every entry is its own sample")


def struct(I, v, name):
    """a named field of a structure"""
    t = I.p.types[v.ty]
    for (n, _), y in zip(t["variants"][v.var or 0]["fields"], v.f):
        if n == name:
            return y
    return None


def only_seq(v, cx):
    """the one sequence-valued field of a structure"""
    s = [x for x in (seqof(y, cx) for y in v.f) if isinstance(x, Seq)]
    return s[0] if len(s) == 1 else None


def length(S, key, f, what, s, n, cx):
    if not isinstance(s, Seq):
        S.rep.unknown(key, "%s: not a sequence" % what)
        return False
    st, why = S.decide(s.n, n, cx)
    if st is not True:
        S.report(key, f, what + " (length)", st, why)
    return st is True


def same_basis(S, key, f, v, lb, ln, cx):
    """a gadget basis of width lb with ln digits"""
    if not isinstance(v, Agg) or len(v.f) != 4 or not all(isinstance(prune(x, cx), Poly) for x in v.f):
        S.rep.unknown(key, "gadget basis of an unknown form")
        return
    b = mk_pow(TWO, lb)
    for nm, x, w in zip(("basis", "digit count", "digit mask", "width"), v.f, (b, ln, b - 1, lb)):
        st, why = S.decide(prune(x, cx), w, cx)
        if st is not True:
            S.report(key, f, "%s of the gadget basis" % nm, st, why)
            return
    S.rep.ok(key, "gadget basis of the parameters")


def basis_of(I, args):
    return [x for x in args if isinstance(x, Agg) and isinstance(x.ty, int) and I.p.types[x.ty].get("path", "").split("::")[-1] == "Basis"]


STD = re.compile(r"\bpack\.parameters\.(\w+)\.noise_standard_deviation\b")


def noise(S, key, f, I, args, group, cx):
    """the sampler handed to the sample generator has the configured standard deviation"""
    g = None
    for x in args:
        if isinstance(x, Agg):
            r = gaussian(I, x)
            if r and r[1] is not None:
                g = r
    if g is None:
        S.rep.unknown(key, "no sampler argument")
        return
    m = STD.search(g[1])
    if not m:
        S.rep.unknown(key, "standard deviation %s" % g[1][:100])
        return
    if m.group(1) != group or "0000000000000000" not in g[0]:
        S.rep.bad(key, "%s (%s): noise is drawn with mean %s and the standard deviation of %s instead of %s" % (f.name, f.where(), g[0], m.group(1), group))
        return
    S.rep.ok(key, "centred noise with the standard deviation of " + group)


def secret_arg(S, key, f, args, n, want, cx):
    """the secret handed to the sample generator"""
    for x in args:
        y = x
        if isinstance(y, Agg) and len(y.f) == 1 and isinstance(seqof(y, cx), Seq):
            y = seqof(y, cx)
        if isinstance(y, Seq):
            if not length(S, key, f, "secret key handed to the sample generator", y, n, cx):
                return
            j = term.mk_atom("var", ("index j of the secret",), 0)
            cj = cx.add(lt(P(j), n))
            S.compare(key, f, "secret key handed to the sample generator", f0(prune(y.read(P(j), cj), cj)), want(P(j), cj), cj)
            return
    S.rep.unknown(key, "no secret key argument")


# ---------------------------------------------------------------- blind rotation key
def rotation(S, prog, f, kind):
    rep = S.rep
    key = "%s:%s" % (f.path, kind)
    I = fhe.interp(prog, lwe_key=kind)
    sm = Samples(I)
    vals, before, res = spec.run(I, f, names={0: "pack"}, facts=fhe.DOM)
    if res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    floorcase(S, I, f, key)
    ret, st = res
    cx = st.ctx
    pack = before[vals[0].cell]
    lsk = seqof(struct(I, pack, "lwe_secret_key"), cx)
    nsk = struct(I, pack, "ntt_ring_secret_key")
    ret = prune(ret, cx)
    t = prog.types[ret.ty]
    vn = t["variants"][ret.var or 0]["name"] if ret.var is not None else None
    if vn != kind:
        rep.bad(key + ":kind", "%s (%s): a %s secret key gets a %s rotation key" % (f.name, f.where(), kind, vn))
        return
    rep.ok(key + ":kind", kind)
    ks = only_seq(prune(ret.f[0], cx), cx)
    if not length(S, key, f, "rotation key", ks, NL, cx):
        return
    j = term.mk_atom("var", ("secret index j",), 0)
    cj = cx.add(lt(P(j), NL))
    s = f0(prune(lsk.read(P(j), cj), cj))
    E = Entries(S, key, f)
    cases = [("0", eq(s), ("zero",) if kind == "Binary" else ("zero", "zero")), ("1", eq(s - 1), ("one",) if kind == "Binary" else ("one", "zero"))]
    if kind == "Ternary":
        cases.append(("q-1", eq(s - (QV - 1)), ("zero", "one")))
    for cn, fact, kinds in cases:
        c1 = cj.add(fact, *([ge(QB - 2)] if kind == "Ternary" else []))
        if c1.infeasible():
            rep.unknown(key, "case %s" % cn)
            continue
        c1 = cx.add(lt(P(j), NL), fact, *([ge(QB - 2)] if kind == "Ternary" else []), *([ge(s - 2)] if cn == "q-1" else []))
        e = prune(ks.read(P(j), c1), c1)
        parts = [e] if kind == "Binary" else [prune(x, c1) for x in e.f]
        for p, (v, want) in enumerate(zip(parts, kinds)):
            k2 = "%s:s=%s:%d" % (key, cn, p)
            what = "entry%s for a secret coefficient %s" % ("" if kind == "Binary" else " component %d" % p, cn)
            judge_entry(S, k2, f, I, v, "NTTRGSW", want, what, E, "%d" % p, [(j, NL)], c1)
    E.judge([NL])
    for fn, own, item, args, ccx in sm.calls:
        k2 = "%s:%s" % (key, item)
        if own != "NTTRGSW":
            rep.unknown(k2, "sample type " + own)
            continue
        secret_arg(S, k2 + ":secret", fn, args, N, lambda i, c: coef(nsk, i, c), ccx)
        b = basis_of(I, args)
        if len(b) == 1:
            same_basis(S, k2 + ":basis", fn, b[0], B, L, ccx)
        else:
            rep.unknown(k2 + ":basis", "no basis argument")
        noise(S, k2 + ":noise", fn, I, args, "blind_rotation_params", ccx)


def judge_entry(S, key, f, I, v, own, want, what, E, tag, idx, cx):
    """every component of v is that component of one sample of the wanted kind"""
    rep = S.rep

    def go(x, ety, path, ixs, c):
        x = prune(x, c)
        if isinstance(x, Agg):
            t = I.p.types[x.ty] if isinstance(x.ty, int) else None
            if t is not None and t.get("path", "").split("::")[-1] == "Basis":
                return True
            names = [n for n, _ in t["variants"][x.var or 0]["fields"]] if t is not None and t["k"] == "adt" else [str(i) for i in range(len(x.f))]
            return all([go(y, None, path + "." + n, ixs, c) for n, y in zip(names, x.f)])
        if isinstance(x, Ref):
            return True
        if isinstance(x, Seq):
            a = term.mk_atom("var", ("index %d of the entry" % len(ixs),), 0)
            c2 = c.add(lt(P(a), x.n))
            return go(x.read(P(a), c2), x.ety, path, ixs + [P(a)], c2)
        for y, c2 in samples.alternatives(x, c):
            if isinstance(y, Opq) or has_opq(y):
                rep.unknown(key, "%s: unknown at %s" % (what, path))
                return False
            if not isinstance(y, Poly):
                continue
            r = leaf_sample(y, c2)
            if r is None:
                if not sample_in(y) and all(not samples.atoms(y) for _ in (0,)) :
                    w = S.inhabited(c2)
                    if w:
                        rep.bad(key, "%s (%s): %s is not a sample: %s holds %s, e.g. %s" % (f.name, f.where(), what, path, vshow(y)[:100], w))
                        return False
                rep.unknown(key, "%s: %s holds %s" % (what, path, vshow(y)[:100]))
                return False
            nm, args = r
            m = re.match(r"sample:(\w+):(\w+)\.?(.*)$", nm)
            got = (m.group(1), m.group(2))
            if got != (own, want):
                w = S.inhabited(c2)
                (rep.bad if w else rep.unknown)(key, "%s (%s): %s is a sample of %s instead of %s, e.g. %s" % (f.name, f.where(), what, got[1], want, w))
                return False
            if "." + m.group(3) != re.sub(r"(\.0)+$", "", path) or len(args) != 1 + len(ixs):
                rep.unknown(key, "%s: %s holds component %s" % (what, path, m.group(3)))
                return False
            for g, w in zip(args[1:], ixs):
                st, why = S.decide(g, w, c2)
                if st is not True:
                    S.report(key, f, "%s, index of %s" % (what, path), st, why)
                    return False
            E.see(tag, args[0], idx, c2)
        return True
    if go(v, None, "", [], cx):
        rep.ok(key, what + " is a %s sample" % want)


# ---------------------------------------------------------------- key switching keys
def converted(s, cx):
    """cases of a ring secret coefficient: (name, fact, integer value)"""
    return [("0", eq(s), ZERO), ("1", eq(s - 1), ONE), ("-1", eq(s - (Q - 1)), const(-1))]


def ksk_lwe(S, prog, f):
    rep, key = S.rep, f.path
    I = fhe.interp(prog, steps="BrMsKs")
    sm = Samples(I)
    vals, before, res = spec.run(I, f, names={0: "pack"}, facts=fhe.DOM + [le(LB, QB), le(LB, const(15)), ge(QB - 2)])
    if res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    cx = st.ctx
    # the basis is a power of two below the word size
    pack = before[vals[0].cell]
    lsk, rsk = seqof(struct(I, pack, "lwe_secret_key"), cx), struct(I, pack, "ring_secret_key")
    ret = prune(ret, cx)
    ks = only_seq(ret, cx)
    DL = mk_quo(QB - 1, LB, cx) + 1
    j, z, v = (term.mk_atom("var", (nm,), 0) for nm in ("digit j", "ring index i", "digit value - 1"))
    if not length(S, key + ":digits", f, "key (digits)", ks, DL, cx):
        return
    cj = cx.add(lt(P(j), DL))
    r1 = seqof(ks.read(P(j), cj), cj)
    if not length(S, key + ":coefficients", f, "key (ring coefficients)", r1, N, cj):
        return
    cz = cj.add(lt(P(z), N))
    r2 = seqof(r1.read(P(z), cz), cz)
    if not length(S, key + ":values", f, "key (digit values)", r2, BASE - 1, cz):
        return
    cv = cz.add(lt(P(v), BASE - 1))
    E = Entries(S, key, f)
    s = coef(rsk, P(z), cv)
    idx = [(j, DL), (z, N), (v, BASE - 1)]
    k = term.mk_atom("var", ("mask index k",), 0)
    for cn, fact, val in converted(s, cv):
        c1 = cv.add(fact)
        ct = prune(r2.read(P(v), c1), c1)
        a = seqof(ct.f[0], c1)
        if not length(S, key + ":a:" + cn, f, "mask of a key entry", a, NL, c1):
            continue
        c2 = c1.add(lt(P(k), NL))
        component(S, key + ":a:" + cn, f, "mask of the entry for digit j, secret coefficient %s" % cn, f0(prune(a.read(P(k), c2), c2)), ZERO, QV, ("LWE", "zero", "a"), [P(k)], E, idx, c2)
        component(S, key + ":b:" + cn, f, "body of the entry for digit j, digit value v, secret coefficient %s (zero sample + v * s * basis^j)" % cn, prune(ct.f[1], c1), (P(v) + 1) * val * mk_pow(TWO, LB * P(j)), QV, ("LWE", "zero", "b"), [], E, idx, c1)
    E.judge(None)
    meta(S, key, f, I, ret, {"lwe_dimension": NL}, cx)
    b = basis_of(I, ret.f)
    if len(b) == 1:
        same_basis(S, key + ":basis", f, b[0], LB, DL, cx)
    for fn, own, item, args, ccx in sm.calls:
        secret_arg(S, key + ":secret", fn, args, NL, lambda i, c: f0(prune(lsk.read(i, c), c)), ccx)
        noise(S, key + ":noise", fn, I, args, "key_switching_params", ccx)
        md = [x for x in args if isinstance(x, Poly)]
        if len(md) == 1:
            S.compare(key + ":modulus", fn, "modulus of the samples", md[0], QV, ccx)
        else:
            rep.unknown(key + ":modulus", "no modulus argument")


def component(S, key, f, what, got, msg, q, want, ixs, E, idx, cx):
    """got = (that component of one zero sample) + msg mod q"""
    for y, c in samples.alternatives(got, cx):
        if not isinstance(y, Poly) or has_opq(y):
            S.rep.unknown(key, "%s: unknown" % what)
            return
        ats = sample_in(y)
        own = "sample:%s:%s.%s" % want
        good = [A for A in ats if A.args[0] == own and len(A.args) == 2 + len(ixs)]
        if len(ats) != 1 or len(good) != 1:
            if not ats:
                w = S.inhabited(c)
                if w:
                    S.rep.bad(key, "%s (%s): %s contains no fresh sample: %s, e.g. %s" % (f.name, f.where(), what, show(y)[:120], w))
                    return
            S.rep.unknown(key, "%s: %s" % (what, show(y)[:120]))
            return
        A = good[0]
        E.see("", A.args[1], idx, c)
        w = single_atom(mk_sel(A.args[0], tuple([A.args[1]] + ixs)))
        w = P(w) if w is not None else P(A)
        want_v = w if msg == ZERO else mk_rem(w + msg, q, c)
        st, why = S.decide(y, want_v, c)
        if st is not True and q is not None:
            s2, _ = S.decide(mk_rem(y, q, c), mk_rem(w + msg, q, c), c)
            st = True if s2 is True else st
        if st is not True:
            S.report(key, f, what, st, why)
            return
    S.rep.ok(key, what)


def meta(S, key, f, I, ret, want, cx):
    for nm, w in want.items():
        v = struct(I, ret, nm)
        if isinstance(v, Poly) or v is not None and isinstance(prune(v, cx), Poly):
            S.compare(key + ":" + nm, f, "field " + nm, prune(v, cx), w, cx)
        else:
            S.rep.unknown(key + ":" + nm, "no field " + nm)


def ksk_rlwe(S, prog, f, equal):
    rep = S.rep
    key = "%s:%s" % (f.path, "n' = N" if equal else "n' < N")
    NX = mk_pow(TWO, term.var("log n'", 0, 20))
    MX = ONE if equal else mk_pow(TWO, term.var("log(N/n')", 1, 10))
    NN = NX * MX
    n = term.var("pack n", 1, 1 << 24)

    def hook(I, fr, st, inst, info, path, a):
        if info is None or info["item"] != "next_power_of_two" or a[0] != n:
            return NotImplemented
        return NX, st
    I = fhe.interp(prog, steps="BrKsMs", n=n, ring_n=NN)
    I.intercepts.insert(0, hook)
    sm = Samples(I)
    bl = I.lenfix
    I.lenfix = lambda nm, ix: NX if nm.startswith("sample:NTTRLWE") else bl(nm, ix)
    vals, before, res = spec.run(I, f, names={0: "pack"}, facts=fhe.DOM + [le(LB, const(26)), le(n, NX), le(NX, n * 2 - 1)] + ([] if equal else [le(NX * 2, NN)]))
    if res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    floorcase(S, I, f, key)
    ret, st = res
    cx = st.ctx
    pack = before[vals[0].cell]
    lsk = seqof(struct(I, pack, "lwe_secret_key"), cx)
    rsk, nsk = struct(I, pack, "ring_secret_key"), struct(I, pack, "ntt_ring_secret_key")
    ret = prune(ret, cx)
    meta(S, key, f, I, ret, {"lwe_dimension": n}, cx)
    ks = only_seq(ret, cx)
    if not length(S, key + ":chunks", f, "key (chunks)", ks, MX, cx):
        return
    DL = mk_quo(const(26), LB, cx) + 1
    c_, i, k = (term.mk_atom("var", (nm,), 0) for nm in ("chunk c", "digit i", "slot k"))
    cc = cx.add(eq(P(c_))) if equal else cx.add(lt(P(c_), MX), le(NX * P(c_) + NX, NN))
    o = ZERO if equal else P(c_)
    g = prune(ks.read(o, cc), cc)
    rows = only_seq(g, cc)
    if not length(S, key + ":digits", f, "key (digits)", rows, DL, cc):
        return
    b = basis_of(I, g.f)
    if len(b) == 1:
        same_basis(S, key + ":basis", f, b[0], LB, DL, cc)
    ci = cc.add(lt(P(i), DL))
    row = prune(rows.read(P(i), ci), ci)
    ck = ci.add(lt(P(k), NX))
    E = Entries(S, key, f)
    idx = ([] if equal else [(c_, MX)]) + [(i, DL)]
    pa, pb = row.f
    if not length(S, key + ":a", f, "mask", seqof(pa, ci), NX, ci) or not length(S, key + ":b", f, "body", seqof(pb, ci), NX, ci):
        return
    if equal:
        sec = coef(nsk, P(k), ck)
    else:
        sec = f0(lin("ntt", NX, lambda j, c=None: coef(rsk, NX * o + j, c or ck), ck)(P(k), ck))
    component(S, key + ":a", f, "mask of row i", coef(pa, P(k), ck), ZERO, Q, ("NTTRLWE", "zero", "a.data"), [P(k)], E, idx, ck)
    component(S, key + ":b", f, "body of row i (zero sample + secret * basis^i)", coef(pb, P(k), ck), sec * mk_pow(TWO, LB * P(i)), Q, ("NTTRLWE", "zero", "b.data"), [P(k)], E, idx, ck)
    E.judge(None)

    def padded(j, c):
        """the LWE secret with coefficients 0, 1, -1, padded with zeros"""
        ci2 = c.add(lt(j, n))
        x = f0(prune(lsk.read(j, ci2), ci2))
        return Ch(lt(j, n), choose(eq(x), ZERO, choose(eq(x - 1), ONE, Q - 1)), ZERO)
    for fn, own, item, args, ccx in sm.calls:
        secret_arg(S, key + ":secret", fn, args, NX, lambda jj, c: f0(lin("ntt", NX, lambda j, c2=None: padded(j, c2 or c), c)(jj, c)), ccx)
        noise(S, key + ":noise", fn, I, args, "key_switching_params", ccx)


# ---------------------------------------------------------------- evaluation key
GEN = {"BlindRotationKey": "rotation", "KeySwitchingLWEKey": "LWE", "KeySwitchingRLWEKey": "RLWE"}


def evaluation(S, prog, f, steps, kind):
    """which keys are generated, from which secret, for the configured order of the steps"""
    rep = S.rep
    key = "%s:%s:%s" % (f.path, steps, kind)
    want_ksk = {"BrMsKs": "LWE", "BrKsMs": "RLWE", "BrMs": "None"}[steps]
    I = fhe.interp(prog, steps=steps, lwe_key=kind, **({"n": N} if steps == "BrMs" else {}))
    base = I.symtype
    calls = []

    def symtype(I_, t, name, idxs, st):
        if t["k"] == "adt" and t["path"].split("::")[-1] == "BlindRotationKey":
            for k, v in enumerate(t["variants"]):
                if v["name"] == kind:
                    return Agg(I.tyindex(t), k, [I.symval(ty, "%s.%s" % (name, fn), idxs, st) for fn, ty in v["fields"]])
        return base(I_, t, name, idxs, st)
    I.symtype = symtype

    def hook(I_, fr, st, inst, info, path, a):
        if info is None or info["crate"] != "fhe_core" or info["item"] != "generate":
            return NotImplemented
        fn = I.p.fns.get(inst)
        m = re.match(r"fhe_core::(?:\w+::)*(\w+)::<", info["name"]) or (re.match(r"fhe_core::(?:\w+::)*(\w+)::<", fn.name) if fn else None)
        if fn is None or not m or m.group(1) not in GEN:
            return NotImplemented
        what = GEN[m.group(1)]
        pos = None
        for v in a:
            r = sem.find_rng(I, st, v)
            if r and r[1] is not None:
                ref, rng = r
                pos = prune(rng.f[1], st.ctx)
                I.store(st, ref, Agg(rng.ty, rng.var, [rng.f[0], pos + 1]))
        if I.record:
            calls.append((what, fr.fn, a[0], pos, st.ctx))
        return I.symval(fn.locals[0], "generated:" + what, (pos,) if pos is not None else (), st), st
    I.intercepts.insert(0, hook)
    vals, before, res = spec.run(I, f, names={0: "pack"}, facts=fhe.DOM)
    if res is None:
        rep.bad(key, "%s never returns with step order %s" % (f.name, steps))
        return
    floorcase(S, I, f, key)
    ret, st = res
    cx = st.ctx
    ret = prune(ret, cx)
    pack = before[vals[0].cell]
    found = {}

    def walk(v):
        v = prune(v, cx)
        if not isinstance(v, Agg) or not isinstance(v.ty, int):
            return
        t = prog.types[v.ty]
        p = t.get("path", "").split("::")[-1]
        if p in ("BlindRotationKey", "KeySwitchingKeyEnum", "Parameters"):
            found.setdefault(p, []).append(v)
            return
        for x in v.f:
            walk(x)
    walk(ret)
    poss = []
    for p, what in (("BlindRotationKey", "rotation"), ("KeySwitchingKeyEnum", want_ksk)):
        if len(found.get(p, [])) != 1:
            rep.unknown(key + ":" + p, "%d fields of this type" % len(found.get(p, [])))
            continue
        v = found[p][0]
        vn = prog.types[v.ty]["variants"][v.var or 0]["name"]
        if p == "KeySwitchingKeyEnum":
            if vn != want_ksk:
                rep.bad(key + ":" + p, "%s (%s): step order %s gets the key switching key variant %s instead of %s" % (f.name, f.where(), steps, vn, want_ksk))
                continue
            if want_ksk == "None":
                rep.ok(key + ":" + p, "no key switching key")
                continue
        names = {str(A.args[0]).split(".")[0] for A in atoms_of(v) if A.kind == "sel"}
        if names - {"generated:" + what}:
            rep.unknown(key + ":" + p, "key contains %s" % sorted(names)[:3])
            continue
        if not names:
            rep.unknown(key + ":" + p, "key of an unknown form")
            continue
        rep.ok(key + ":" + p, "generated by " + what)
        poss += [(what, A.args[1]) for A in atoms_of(v) if A.kind == "sel"][:1]
    for what, fn, a0, pos, ccx in calls:
        x = prune(a0, ccx)
        while isinstance(x, Ref):
            x = prune(st.mem[x.cell] if x.cell in st.mem else None, ccx)
        if x is pack or same(x, pack):
            rep.ok("%s:%s:secret" % (key, what), "generated from the given secret keys")
        else:
            rep.unknown("%s:%s:secret" % (key, what), "secret keys of an unknown form")
    if len({w for w, _ in poss}) == 2:
        (a, x), (b, y) = poss
        s = S.decide(x, y, cx)[0]
        if s is True:
            rep.bad(key + ":fresh", "%s (%s): the rotation key and the key switching key are generated from the same generator state" % (f.name, f.where()))
        else:
            rep.ok(key + ":fresh", "generated one after the other")
    par = found.get("Parameters", [])
    if len(par) != 1:
        rep.unknown(key + ":parameters", "%d fields" % len(par))
    elif same(par[0], struct(I, pack, "parameters")):
        rep.ok(key + ":parameters", "parameters of the secret keys")
    else:
        rep.unknown(key + ":parameters", "parameters of an unknown form")


def atoms_of(v):
    out, n = {}, [0]

    def go(x):
        x = prune(x, term.EMPTY)
        n[0] += 1
        if n[0] > 4000:
            return
        if isinstance(x, Seq):
            try:
                go(x.read(term.var("any index", 0), term.EMPTY))
            except Exception:
                return
        elif isinstance(x, Agg):
            for y in x.f:
                go(y)
        else:
            for A in samples.atoms(x).values():
                out[A.id] = A
    go(v)
    return list(out.values())


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    S.deep = arith.deep
    n = 0
    for f in prog.wsfns:
        if f.info["item"] != "generate" or f.info["crate"] != "fhe_core" or "{closure" in f.name:
            continue
        if re.match(r"fhe_core::(\w+::)*BlindRotationKey::<", f.name):
            n += 1
            for kind in ("Binary", "Ternary"):
                with guard(rep, f.name + kind):
                    rotation(S, prog, f, kind)
        elif "KeySwitchingLWEKey" in f.name:
            n += 1
            with guard(rep, f.name, 150):
                ksk_lwe(S, prog, f)
        elif "KeySwitchingRLWEKey" in f.name:
            n += 1
            for equal in (True, False):
                with guard(rep, f.name + str(equal), 150):
                    ksk_rlwe(S, prog, f, equal)
    e = 0
    for f in prog.wsfns:
        if f.info["item"] == "new" and "{closure" not in f.name and re.search(r"::(EvaluationKey|Evaluator)::<", f.name):
            e += 1
            for steps in ("BrMsKs", "BrKsMs", "BrMs"):
                for kind in ("Binary", "Ternary"):
                    with guard(rep, f.name + steps + kind):
                        evaluation(S, prog, f, steps, kind)
    rep.floor("key generators", n, 3)
    rep.floor("evaluation key constructors", e, 1)
    return rep.finish(
        "every entry of the rotation and key switching keys is a fresh sample of the message its index demands, under the right secret, with the configured basis and noise; the evaluation key holds the keys the step order needs",
        explanation="Abstract interpretation of the MIR with the sample generators replaced by symbols indexed by the generator position; secrets, dimensions, gadget lengths, basis widths and moduli are symbols.")
