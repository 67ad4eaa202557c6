"""Scheme parameters: accepted sets, accessors, noise distributions, default sets."""
import re
import engine, spec, term, sem, arith
from common import Report, guard
from spec import *
from checks.c09 import struct

ACC = {
    "lwe_dimension": "lwe_dimension", "lwe_plain_modulus": "lwe_plain_modulus", "lwe_cipher_modulus_value": "lwe_cipher_modulus",
    "lwe_noise_standard_deviation": "lwe_noise_standard_deviation", "lwe_secret_key_type": "lwe_secret_key_type",
    "ring_dimension": "ring_dimension", "ring_modulus": "ring_modulus", "ring_noise_standard_deviation": "ring_noise_standard_deviation",
    "ring_secret_key_type": "ring_secret_key_type", "key_switching_basis_bits": "key_switching_basis_bits",
    "key_switching_noise_standard_deviation": "key_switching_standard_deviation", "steps": "steps",
}
LWEP = {"dimension": "lwe_dimension", "plain_modulus": "lwe_plain_modulus", "cipher_modulus": "lwe_cipher_modulus", "secret_key_type": "lwe_secret_key_type",
        "noise_standard_deviation": "lwe_noise_standard_deviation"}
DIST = {
    "lwe_noise_distribution": ("lwe_noise_standard_deviation", True), "ring_noise_distribution": ("ring_noise_standard_deviation", False),
    "key_switching_noise_distribution_for_ring": ("key_switching_standard_deviation", False),
    "key_switching_noise_distribution_for_lwe": ("key_switching_standard_deviation", True),
}


def result_leaves(v, cx, out, d=0):
    """(ctx, variant, value) of the feasible alternatives of a Result"""
    v = prune(v, cx)
    if isinstance(v, Ch) and d < 60:
        for c, y in ((v.c, v.a), (neg(v.c), v.b)):
            r = cx.decide(c)
            if r is False:
                continue
            c2 = cx.add(c)
            if r is None and c2.infeasible():
                continue
            result_leaves(y, c2, out, d + 1)
        return
    out.append((cx, v.var or 0 if isinstance(v, Agg) else None, v))


def scalar(v, cx):
    v = prune(v, cx)
    while isinstance(v, Agg) and len(v.f) == 1:
        v = prune(v.f[0], cx)
    return v


class Params:
    def __init__(self, prog, rep, new, small=True, power=False):
        self.power = power
        self.prog, self.rep, self.new = prog, rep, new
        self.S = Spec(prog, rep, 6000)
        self.S.deep = arith.deep
        self.S.hints = {
            "params.ring_dimension": [512, 1024, 2048, 1000, 16384, 65536, 131072, 1, 2],
            "log N": [9, 10, 11, 4, 14, 0], "k": [1, 2, 3, 64512, 6, 15],
            "r": [0, 0, 0, 0, 1, 2, 7, 1023],
            "params.steps#tag": [0, 1, 2], "params.ring_secret_key_type#tag": [0, 1, 2], "basis bits": [1, 2, 7, 25],
            "params.lwe_cipher_modulus": [1024, 2048, 16384, 1000, 8],
            "params.lwe_plain_modulus": [4, 8, 2, 3, 1024, 4096],
            "params.lwe_dimension": [512, 1024, 2048, 1025, 16384],
        }
        self.I = I = engine.sem_interp(prog)
        st = St({}, term.EMPTY)
        v0 = engine.args_for(I, st, new)
        p = v0[0]
        t = prog.types[p.ty]
        names = [n for n, _ in t["variants"][0]["fields"]]
        N0 = scalar(p.f[names.index("ring_dimension")], term.EMPTY)
        if power:
            # the same for powers of two, whose logarithm has a name
            N0 = mk_pow(const(2), P(term.mk_atom("var", ("log N",), 0, 14)))
        # Q = 2N*k + 1 + r
        K = term.var("k", 1, 1 << 31)
        self.r = P(term.mk_atom("var", ("r",), 0, N0 * 2 - 1))
        Qv = N0 * 2 * K + 1 + self.r
        p = Agg(p.ty, p.var, [Qv if n == "ring_modulus" else term.var("basis bits", 1, 26) if n == "blind_rotation_basis_bits" else N0 if n == "ring_dimension" else x for n, x in zip(names, p.f)])
        self.p = {n: x for (n, _), x in zip(t["variants"][0]["fields"], p.f)}
        g = self.p
        self.N, self.Q, self.n = scalar(g["ring_dimension"], term.EMPTY), scalar(g["ring_modulus"], term.EMPTY), scalar(g["lwe_dimension"], term.EMPTY)
        self.t, self.q = scalar(g["lwe_plain_modulus"], term.EMPTY), scalar(g["lwe_cipher_modulus"], term.EMPTY)
        bits = scalar(g["blind_rotation_basis_bits"], term.EMPTY)
        self.base = [ge(bits - 1), ge(const(26) - bits), ge(const((1 << 32) - 1) - self.Q), ge(self.r), ge(self.N * 2 - 1 - self.r), ge(self.n - 1), ge(self.N - 1)]
        # ring dimensions for which 2N is a value of the modulus type, and the others
        self.base += [ge(const(32767) - self.N)] if small else [ge(self.N - 32768), ge(const(1 << 62) - self.N)]
        self.vals, self.mem, self.res = spec.run(I, new, over={0: p}, facts=self.base, st=st)

    def is_variant(self, field, name):
        """the condition that an enumeration field is the variant"""
        v = self.p[field]
        def go(v):
            if isinstance(v, Ch):
                return or_((v.c, go(v.a)), (neg(v.c), go(v.b)))
            vs = [x["name"] for x in self.prog.types[v.ty]["variants"]]
            return T if vs[v.var or 0] == name else F
        def or_(x, y):
            a = cand([x[0], x[1]])
            b = cand([y[0], y[1]])
            return cor([a, b])
        return go(v)


def cand(l):
    l = [x for x in l if x != T]
    if F in l:
        return F
    return T if not l else l[0] if len(l) == 1 else ("and", tuple(l))


def cor(l):
    l = [x for x in l if x != F]
    if T in l:
        return T
    return F if not l else l[0] if len(l) == 1 else ("or", tuple(l))


def same_float(S, key, f, what, got, want, cx):
    got, want = scalar(got, cx), scalar(want, cx)
    if got == want or same(got, want):
        S.rep.ok(key, what)
    elif plain(got) and plain(want):
        S.rep.bad(key, "%s (%s): %s is %s instead of %s" % (f.name, f.where(), what, vshow(got)[:80], vshow(want)[:80]))
    else:
        S.rep.unknown(key, "%s: %s" % (what, vshow(got)[:100]))


def plain(v):
    """an input of the function, or a constant"""
    return re.fullmatch(r"sym\('[\w.#]+'\)|-?[\d.]+", vshow(v)) is not None


def member(P_, key, f, what, got, want, cx):
    S = P_.S
    g, w = scalar(got, cx), scalar(want, cx)
    if isinstance(w, Poly):
        S.compare(key, f, what, g, w, cx)
    elif isinstance(w, (Agg, Ch)):
        # enumerations: the same variant in every case
        for c2, v, _ in leaves_of(w, cx):
            x = prune(got, c2)
            y = prune(want, c2)
            if isinstance(x, Agg) and isinstance(y, Agg):
                if (x.var or 0) != (y.var or 0) or x.ty != y.ty:
                    S.rep.bad(key, "%s (%s): %s is %s instead of %s" % (f.name, f.where(), what, vshow(x), vshow(y)))
                    return
            else:
                S.rep.unknown(key, "%s: %s" % (what, vshow(x)[:80]))
                return
        S.rep.ok(key, what)
    else:
        same_float(S, key, f, what, g, w, cx)


def leaves_of(v, cx):
    out = []
    result_leaves(v, cx, out)
    return out


def judge_new(X):
    S, rep, f = X.S, X.rep, X.new
    key = f.path + (":powers" if X.power else "")
    if X.res is None:
        rep.bad(key, "%s (%s) never returns" % (f.name, f.where()))
        return None
    ret, st = X.res
    N, Q, n, t, q = X.N, X.Q, X.n, X.t, X.q
    pw = lambda x: ob("pow2", x)
    gauss = X.is_variant("ring_secret_key_type", "Gaussian")
    ng = neg(gauss)
    step = {s: X.is_variant("steps", s) for s in ("BrMsKs", "BrKsMs", "BrMs")}
    if any(x == F for x in step.values()) or gauss == F:
        rep.bad(key + ":enum", "%s (%s): the step orders or key kinds are gone" % (f.name, f.where()))
        return None
    fit = []
    div = eq(X.r)
    tq = [pw(t), pw(q), ge(q - t - 1)]
    good = {"BrMsKs": [step["BrMsKs"], ng], "BrKsMs": [step["BrKsMs"], ge(N - n)], "BrMs": [step["BrMs"], ng, eq(N - n)]}
    accept = {}
    for s, cs in good.items():
        cx = st.ctx.add(*(X.base + [pw(N)] + fit + [div] + tq + cs))
        accept[s] = cx
        k = key + ":accept " + s
        if cx.infeasible():
            rep.unknown(k, "no admissible input returns")
            continue
        lv = leaves_of(ret, cx)
        st_ = True
        for c2, var, v in lv:
            if var is None:
                rep.unknown(k, "result %s" % vshow(v)[:80])
                st_ = None
                break
            if var != 0:
                w = S.inhabited(c2)
                if w:
                    rep.bad(k, "%s (%s): refuses a compatible set, e.g. %s" % (f.name, f.where(), w))
                else:
                    rep.unknown(k, "may refuse")
                st_ = None
                break
        if st_:
            rep.ok(k, "accepted")
        pk = key + ":panic " + s
        hit = None
        for fn, what, px, line in X.I.panics:
            py = px.add(*(X.base + [pw(N)] + fit + [div] + tq + cs))
            if py.infeasible() or any(cond_opq(c) for c in py.facts):
                continue
            w = S.inhabited(py)
            if w:
                hit = (what, line, w)
                break
        if hit:
            rep.bad(pk, "%s (%s): %s panics on a compatible set, e.g. %s" % (f.name, f.where(hit[1]), hit[0], hit[2]))
        else:
            rep.ok(pk, "no panic on compatible sets")
    reject = {
        "ring dimension not a power of two": [neg(pw(N))],
        "2N does not divide Q-1": [pw(N), neg(div)] + fit,
        "BrMsKs with a Gaussian ring key": [step["BrMsKs"], gauss],
        "BrKsMs with n > N": [step["BrKsMs"], ge(n - N - 1)],
        "BrMs with a Gaussian ring key": [step["BrMs"], gauss],
        "BrMs with n < N": [step["BrMs"], ge(N - n - 1)],
        "BrMs with n > N": [step["BrMs"], ge(n - N - 1)],
        "t >= q": [ge(t - q)],
        "t not a power of two": [neg(pw(t))],
        "q not a power of two": [neg(pw(q))],
    }
    if X.power:
        del reject["ring dimension not a power of two"]
    refuse(X, reject)
    for s, cx in accept.items():
        lv = [v for c2, var, v in leaves_of(ret, cx) if var == 0]
        if len(lv) == 1 and isinstance(lv[0], Agg) and len(lv[0].f) == 1:
            return lv[0].f[0], st, cx
    rep.unknown(key + ":value", "no single accepted value")
    return None


def refuse(X, reject):
    S, rep, f = X.S, X.rep, X.new
    key = f.path + (":powers" if X.power else "")
    ret, st = X.res
    for nm, cs in reject.items():
        k = key + ":refuse " + nm
        cx = st.ctx.add(*(X.base + cs))
        verdict = True
        if not cx.infeasible():
            for c2, var, v in leaves_of(ret, cx):
                if var == 1:
                    continue
                w = S.inhabited(c2) if var == 0 else None
                if w:
                    rep.bad(k, "%s (%s): accepts a set with %s, e.g. %s" % (f.name, f.where(), nm, w))
                    verdict = None
                    break
                verdict = False
        if verdict:
            rep.ok(k, "refused")
        elif verdict is False:
            rep.unknown(k, "may be accepted")


def accessors(X, value, st0, cx0):
    S, rep, prog, I = X.S, X.rep, X.prog, X.I
    n = 0
    inst = X.new.name.split("::new")[0]
    for f in prog.wsfns:
        item = f.info["item"]
        if not f.name.startswith(inst + "::") or f.argc != 1 or "{closure" in f.name or item == "new":
            continue
        if item not in ACC and item not in DIST and item not in ("lwe_cipher_modulus", "blind_rotation_basis", "lwe_params"):
            continue
        key = f.path
        with guard(rep, key):
            def over(I_, st, f=f):
                ref = prog.types[f.locals[1]]["k"] == "ref"
                return {0: Ref(I.newcell(st, value, "params", value.ty)) if ref else value}
            I.panics.clear()
            vals, mem, res = spec.run(I, f, over=over, facts=list(cx0.facts))
            n += 1
            if res is None:
                rep.bad(key, "%s (%s) never returns" % (f.name, f.where()))
                continue
            ret, st = res
            cx = st.ctx
            if item in ACC:
                member(X, key, f, item, ret, X.p[ACC[item]], cx)
            elif item == "lwe_params":
                for fl, src in LWEP.items():
                    g = struct(I, prune(ret, cx), fl)
                    if g is None:
                        rep.unknown(key + ":" + fl, "no such field")
                        continue
                    member(X, key + ":" + fl, f, "field " + fl, g, X.p[src], cx)
            elif item == "lwe_cipher_modulus":
                g = scalar(ret, cx)
                # the mask of the power-of-two modulus
                S.compare(key, f, "mask of the LWE modulus", g, X.q - 1, cx)
            elif item == "blind_rotation_basis":
                b = prune(ret, cx)
                bits = scalar(X.p["blind_rotation_basis_bits"], cx)
                if isinstance(b, Agg):
                    for nm, w in (("bits", bits), ("basis", mk_pow(const(2), bits)), ("mask", mk_pow(const(2), bits) - 1)):
                        g = struct(I, b, nm)
                        if g is not None:
                            S.compare(key + ":" + nm, f, nm + " of the gadget basis", scalar(g, cx), w, cx)
                else:
                    rep.unknown(key, "no basis")
            else:
                dist(X, key, f, ret, item, cx)
    rep.floor("accessor", n, 18)


def dist(X, key, f, ret, item, cx):
    """the sampler is centred with the configured standard deviation (and the LWE modulus)"""
    from checks.c09 import gaussian
    S, rep, I = X.S, X.rep, X.I
    src, lwe = DIST[item]
    v = prune(ret, cx)
    r = gaussian(I, v) if isinstance(v, Agg) else None
    if not r or r[1] is None:
        rep.unknown(key, "sampler of an unknown form: %s" % vshow(v)[:100])
        return
    m = re.search(r"params\.(\w+)", r[1])
    if "0000000000000000" not in r[0]:
        rep.bad(key, "%s (%s): the noise is drawn with mean %s" % (f.name, f.where(), r[0]))
    elif m is None:
        rep.unknown(key, "standard deviation %s" % r[1][:100])
    elif m.group(1) != src:
        rep.bad(key, "%s (%s): the standard deviation is %s instead of %s" % (f.name, f.where(), m.group(1), src))
    elif re.search(r"[*/+]|Mul|Div|Add|Sub", r[1]):
        rep.unknown(key, "standard deviation %s" % r[1][:100])
    else:
        rep.ok(key, "centred, deviation " + src)
    if lwe:
        # the modulus the negative draws wrap around
        for nm in ("modulus", "modulus_minus_one", "modulus_value"):
            g = struct(I, v, nm)
            if g is not None:
                g = scalar(g, cx)
                if isinstance(g, Poly):
                    S.compare(key + ":modulus", f, "modulus of the noise", g, X.q - 1 if nm == "modulus_minus_one" else X.q, cx)


def defaults(prog, rep):
    """the default sets are accepted"""
    n = 0
    for f in prog.wsfns:
        if "PARAMETERS" not in f.name or "{closure" not in f.name or "bfhe/parameters" not in f.info["file"]:
            continue
        key = f.path
        with guard(rep, key):
            I = engine.sem_interp(prog)
            vals, mem, res = spec.run(I, f)
            n += 1
            bad = None
            for fn, what, px, line in I.panics:
                if any(cond_opq(c) for c in px.facts) or px.infeasible():
                    continue
                if not px.facts:
                    bad = (what, line)
                    break
            if bad or res is None:
                rep.bad(key, "%s (%s): the default parameter set is refused" % (f.name, f.where(bad[1] if bad else None)))
            elif I.panics:
                rep.unknown(key, "may panic")
            else:
                rep.ok(key, "accepted")
    rep.floor("default set", n, 2)


def run(prog, pid):
    rep = Report(pid)
    n = 0
    for f in prog.wsfns:
        if f.info["item"] != "new" or not re.search(r"Parameters::<u16, [\w:]*F32>::new$", f.name):
            continue
        n += 1
        with guard(rep, f.path, 240):
            X = Params(prog, rep, f)
            r = judge_new(X)
            judge_new(Params(prog, rep, f, power=True))
            Y = Params(prog, rep, f, False)
            if Y.res is not None:
                refuse(Y, {"2N is no value of the modulus type": []})
            if r is not None:
                accessors(X, *r)
    rep.floor("Parameters::new", n, 1)
    defaults(prog, rep)
    return rep.finish(
        "Parameters::new returns Ok exactly for the compatible sets; every accessor of an accepted set returns the field it was built from",
        explanation="Abstract interpretation of the MIR of the constructor with every field symbolic; the gated result is split into its alternatives under each acceptance and each refusal condition. Accessors and noise distributions are analysed on the accepted value.",
        trusted=["rustc (nightly) front end and MIR construction", "the analyses in /verif/an", "the models of std functions in /verif/an/models.py"])
