"""Boolean gates: linear part, lookup table and result of every gate, read as a truth table."""
import itertools
import re
import engine, spec, term, sem, arith, ring, fhe
from fractions import Fraction as Fraction_
from common import Report, guard
from spec import *
from ring import NL, Q, f0, seqof, coef

TWO, FOUR = const(2), const(4)
MB = term.var("log m", 0, 13)
SB = term.var("log step", 0, 10)
M_, S_ = mk_pow(TWO, MB), mk_pow(TWO, SB)
EIGHTH = engine.FIELDQ["F32"] >> 3

GATES = {
    "not": (1, lambda a: 1 - a),
    "nand": (2, lambda a, b: 1 - (a & b)),
    "and": (2, lambda a, b: a & b),
    "or": (2, lambda a, b: a | b),
    "nor": (2, lambda a, b: 1 - (a | b)),
    "xor": (2, lambda a, b: a ^ b),
    "xnor": (2, lambda a, b: 1 - (a ^ b)),
    "majority": (3, lambda a, b, c: int(a + b + c >= 2)),
    "mux": (3, lambda a, b, c: b if a else c),
}


class Shape(Exception):
    pass


def base_of(sym):
    return sym.split(".")[0]


class Gate:
    """one gate under one relation of the moduli: sparse (q divides 2N) or dense (2N divides q)"""
    def __init__(self, S, prog, f, name, sparse):
        self.S, self.f, self.name, self.sparse = S, f, name, sparse
        self.key = "%s:%s" % (f.path, "q|2N" if sparse else "2N|q")
        if sparse:
            self.step, self.N, self.qb = S_, FOUR * M_ * S_, MB + 3
            self.q = mk_pow(TWO, MB + 3)
        else:
            self.step, self.N, self.qb = ONE, FOUR * M_, MB + SB + 4
            self.q = mk_pow(TWO, MB + SB + 4)
        self.I = fhe.interp(prog, qb=self.qb, tb=TWO, ring_n=self.N)
        self.calls = []
        self.I.intercepts.insert(0, self.hook)

    def hook(self, I, fr, st, inst, info, path, a):
        if info is None or info["item"] != "bootstrap" or "EvaluationKey" not in info["name"]:
            return NotImplemented
        fn = I.p.fns.get(inst)
        c = prune(I.load(st, a[1]) if isinstance(a[1], Ref) else a[1], st.ctx)
        lut = prune(I.load(st, a[2]) if isinstance(a[2], Ref) else a[2], st.ctx)
        for k, (c0, l0, _, _) in enumerate(self.calls):
            if c0 is c and l0 is lut:
                break
        else:
            k = len(self.calls)
            self.calls.append((c, lut, st.ctx, a[0]))
        nm = "boot#%d" % k
        term.set_sel_domain(nm + ".a", ZERO, self.q - 1)
        r = I.symval(fn.locals[0], nm, (), st)
        return r, st

    def combination(self, c, ctx):
        """ciphertext -> ({source: coefficient}, constant): the same combination in the mask and in the body"""
        c = prune(c, ctx)
        if not isinstance(c, Agg) or len(c.f) != 2:
            raise Shape("not a ciphertext: %s" % vshow(c)[:80])
        a, b = seqof(c.f[0], ctx), prune(c.f[1], ctx)
        if not isinstance(a, Seq):
            raise Shape("mask is not a sequence")
        st, why = self.S.decide(a.n, NL, ctx)
        if st is not True:
            raise Shape("mask length: %s" % why)
        j = term.mk_atom("var", ("index j of the result",), 0)
        cj = ctx.add(lt(P(j), NL))
        ka, ca = self.linear(prune(a.read(P(j), cj), cj), j, ".a")
        kb, cb = self.linear(b, None, ".b")
        if ca != ZERO:
            raise Shape("a constant %s is added to the mask" % show(ca))
        if ka != kb:
            raise Shape("mask and body are combined differently: %s / %s" % (ka, kb))
        return {k: v for k, v in kb.items() if v}, cb

    def linear(self, x, j, part):
        if not isinstance(x, Poly) or has_opq(x):
            raise Shape("value is not a combination of the inputs: %s" % vshow(x)[:100])
        A = single_atom(x)
        if A is not None and A.kind == "rem" and (A.args[1] == self.q):
            x = A.args[0]
        ks, rest = {}, {}
        for m, c in x.d.items():
            if len(m) == 1:
                A = term.atom_by_id(m[0])
                if A.kind == "sel" and part == ".a" and A.args[0].endswith(".a") and A.args[1] == P(j):
                    ks[A.args[0][:-2]] = c
                    continue
                if A.kind in ("var", "sel") and part == ".b" and str(A.args[0]).endswith(".b"):
                    ks[str(A.args[0])[:-2]] = c
                    continue
            rest[m] = c
        r = Poly(rest)
        if any(v.denominator != 1 for v in ks.values() if hasattr(v, "denominator")):
            raise Shape("fractional combination")
        # a multiple of q in front of an input is no contribution
        bad = [term.atom_by_id(a).kind for a in r.deps() if term.atom_by_id(a).kind == "sel" or
               (term.atom_by_id(a).kind == "var" and str(term.atom_by_id(a).args[0]).endswith((".a", ".b")))]
        if bad:
            raise Shape("value is not a combination of the inputs: %s" % show(x)[:100])
        return {k: int(v) for k, v in ks.items()}, r

    def eighths(self, c):
        """constant as a number of eighths of q"""
        for k in range(-8, 16):
            if c == (self.q * k).scale(Fraction_(1, 8)):
                return k
        if not has_opq(c):
            w = [self.S.decide(c, (self.q * k).scale(Fraction_(1, 8)), term.EMPTY)[0] for k in range(-8, 16)]
            if all(x is False for x in w):
                raise Bad("an offset of %s is not a multiple of q/8" % show(c))
        raise Shape("constant %s is not a multiple of q/8" % show(c))

    def lut_sign(self, lut, ctx, centre, half):
        """value of the rotated table for phases [(centre - half) q/8, (centre + half) q/8): True (+Q/8), False, None"""
        s = seqof(lut, ctx)
        if not isinstance(s, Seq):
            raise Shape("table is not a sequence")
        st, why = self.S.decide(s.n, self.N, ctx)
        if st is False:
            return ("bad", "table length: %s" % why)
        if st is None:
            raise Shape("table length: %s" % why)
        i = term.var("phase offset", 0)
        cx = ctx.add(lt(i, M_))
        want = None
        for t in range(centre - half, centre + half):
            t %= 8
            k = M_ * (t % 4) + i
            v = f0(prune(s.read(self.step * k, cx.add(lt(self.step * k, self.N))), cx))
            if isinstance(v, Ch) or not isinstance(v, Poly):
                if has_opq(v):
                    raise Shape("table entry is unknown")
            neg_ = t >= 4
            got = None
            why = []
            for sign in (1, -1):
                e = EIGHTH if sign * (-1 if neg_ else 1) > 0 else engine.FIELDQ["F32"] - EIGHTH
                st, w = self.S.decide(v, const(e), cx)
                why.append((st, w))
                if st is True:
                    got = sign
            if got is None:
                if all(x[0] is False for x in why):
                    return ("bad", "table entry at %s is neither +Q/8 nor -Q/8: %s" % (show(self.step * k), why[0][1]))
                if any(x[0] is None for x in why):
                    raise Shape("table entry: %s" % [x[1] for x in why if x[0] is None][0])
                return ("bad", "table changes sign inside the phases of one message: %s / %s" % (why[0][1], why[1][1]))
            if want is not None and got != want:
                return ("bad", "table changes sign inside the phases of one message, between entries %s and the block before" % show(self.step * M_ * (t % 4)))
            want = got
        return want

    def judge(self):
        S, f, I = self.S, self.f, self.I
        ar, truth = GATES[self.name]
        base = [le(self.qb, const(15))]
        names = ["c%d" % i for i in range(ar)]
        vals, before, res = spec.run(I, f, names=dict(enumerate(["self"] + names)), facts=base)
        for fn, what, cx, line in I.panics:
            w = S.inhabited(cx)
            if w and not any(cond_opq(c) for c in cx.facts):
                S.rep.bad(self.key + ":panic", "%s (%s): %s panics on admissible input, e.g. %s" % (f.name, f.where(line), what, w))
        if res is None:
            S.rep.bad(self.key, "%s never returns" % f.name)
            return
        ret, st = res
        try:
            comb = []
            for c, lut, ctx, recv in self.calls:
                comb.append((self.combination(c, ctx), lut, ctx))
            out = self.combination(ret, st.ctx)
            memo = {}
            used = self.reach(out, comb)
            for k in sorted(used):
                (ks, c), lut, ctx = comb[k]
                if not ks:
                    S.rep.bad(self.key, "%s (%s): a bootstrap of a constant" % (f.name, f.where()))
                    return
            for ms in itertools.product((0, 1), repeat=ar):
                env = dict(zip(names, ms))
                why = None

                def value(src):
                    if src in env:
                        return env[src]
                    m = re.match(r"boot#(\d+)$", src)
                    if not m:
                        raise Shape("unknown source %s" % src)
                    (ks, c), lut, ctx = comb[int(m.group(1))]
                    p = sum(2 * k * value(s) for s, k in ks.items()) + self.eighths(c)
                    half = max(abs(k) for k in ks.values())
                    kk = (int(m.group(1)), p % 8, half)
                    if kk not in memo:
                        memo[kk] = self.lut_sign(lut, ctx, p % 8, half)
                    r = memo[kk]
                    if isinstance(r, tuple):
                        raise Bad("the phase lies around %d/8 of the modulus, where the %s" % (p % 8, r[1]))
                    env[src] = 1 if r > 0 else 0
                    return env[src]
                try:
                    ks, c = out
                    r = sum(2 * k * value(s) for s, k in ks.items()) + self.eighths(c)
                except Bad as e:
                    S.rep.bad(self.key, "%s (%s): for inputs %s %s" % (f.name, f.where(), ms, e.args[0]))
                    return
                if r % 8 != 2 * truth(*ms):
                    S.rep.bad(self.key, "%s (%s): inputs %s give %s/8 of the modulus instead of %s/8" % (f.name, f.where(), ms, r % 8, 2 * truth(*ms)))
                    return
                if any(abs(k) != 1 for k in ks.values()) or len(ks) != 1:
                    S.rep.bad(self.key, "%s (%s): the result is a multiple or a sum of ciphertexts (%s), its noise is not that of a fresh bootstrap" % (f.name, f.where(), ks))
                    return
            S.rep.ok(self.key, "truth table over all inputs and all phases within the noise margin")
        except Shape as e:
            S.rep.unknown(self.key, str(e))

    def reach(self, out, comb):
        todo, seen = list(out[0]), set()
        while todo:
            m = re.match(r"boot#(\d+)$", todo.pop())
            if m and int(m.group(1)) not in seen:
                seen.add(int(m.group(1)))
                todo += list(comb[int(m.group(1))][0][0])
        return seen


class Bad(Exception):
    pass


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    S.deep = arith.deep
    n = 0
    for f in prog.wsfns:
        m = re.search(r"::Evaluator::<[^>]*>::(\w+)$", f.name)
        if not m or m.group(1) not in GATES or not f.info.get("pub"):
            continue
        n += 1
        for sparse in (True, False):
            with guard(rep, f.name + str(sparse)):
                Gate(S, prog, f, m.group(1), sparse).judge()
    rep.floor("gates", n, len(GATES))
    return rep.finish(
        "for every assignment of messages, the combination of ciphertexts a gate bootstraps puts the phase at a multiple of q/4 around which, for every phase within the noise margin, the (negacyclic) lookup table holds the value of the gate's truth table",
        explanation="Abstract interpretation of the MIR with the bootstrap replaced by a symbolic ciphertext; ring dimension, LWE dimension, LWE modulus (both q | 2N and 2N | q), ciphertext contents and the phase offset are symbols.")
