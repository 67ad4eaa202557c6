"""Bootstrapping: what is handed from step to step, for every order of the steps."""
import re
import engine, spec, term, sem, arith, ring, fhe, loops
from common import Report, guard
from spec import *
from ring import N, NL, QB, Q, f0, seqof, coef, parts, compare_poly
from checks.c20 import floorcase
from checks.c14 import want as rounded

TWO = const(2)
QV = mk_pow(TWO, QB)
EIGHTH = engine.FIELDQ["F32"] >> 3
KSK = {"BrMsKs": "LWE", "BrKsMs": "RLWE", "BrMs": "None"}


class Boot:
    def __init__(self, S, prog, f, steps, kind):
        self.S, self.f, self.steps, self.kind = S, f, steps, kind
        self.key = "%s:%s:%s" % (f.path, steps, kind)
        # the ring dimension is the ciphertext dimension when no key switching happens
        self.n = N if steps == "BrMs" else NL
        I = self.I = fhe.interp(prog, steps=steps, lwe_key=kind, n=self.n)
        self.calls = []
        I.intercepts.insert(0, self.hook)
        base = I.symtype

        def symtype(I_, t, name, idxs, st):
            if t["k"] == "adt":
                p = t["path"].split("::")[-1]
                w = {"BlindRotationKey": kind, "KeySwitchingKeyEnum": KSK[steps]}.get(p)
                if w is not None:
                    for k, v in enumerate(t["variants"]):
                        if v["name"] == w:
                            return Agg(I.tyindex(t), k, [I.symval(ty, "%s.%s" % (name, fn), idxs, st) for fn, ty in v["fields"]])
            return base(I_, t, name, idxs, st)
        I.symtype = symtype
        I.dom["c.a"] = I.dom["c.b"] = (ZERO, QV - 1)
        bl = I.lenfix
        I.lenfix = lambda nm, ix: self.n if nm in ("c.a", "switched.a") else N if nm.startswith("rotated") else bl(nm, ix)

    def hook(self, I, fr, st, inst, info, path, a):
        if info is None or info["crate"] != "fhe_core":
            return NotImplemented
        fn = I.p.fns.get(inst)
        item, name = info["item"], info["name"]
        what = None
        if item == "blind_rotate" and re.search(r"::(Binary|Ternary)BlindRotationKey::", name):
            what = "rotated"
        elif item in ("key_switch_for_lwe", "key_switch_for_rlwe"):
            what = "switched"
        if what is None or fn is None:
            return NotImplemented
        vals = []
        for x in a:
            v = prune(x, st.ctx)
            if isinstance(v, Ref):
                v = prune(I.load(st, v), st.ctx)
            vals.append(v)
        seen = [c for c in self.calls if c[0] == what]
        if not any(c[1] is fr.fn and all(p is q for p, q in zip(c[3], vals)) for c in seen) and I.record:
            self.calls.append((what, fr.fn, item + " " + name, vals, st.ctx, a))
        return I.symval(fn.locals[0], what, (), st), st

    def judge(self):
        S, f, I, rep, key = self.S, self.f, self.I, self.S.rep, self.key
        vals, before, res = spec.run(I, f, names={0: "self", 1: "c", 2: "lut"}, facts=fhe.DOM + [le(N * 2, const((1 << 16) - 1))])
        if res is None:
            rep.bad(key, "%s never returns with step order %s" % (f.name, self.steps))
            return
        floorcase(S, I, f, key)
        ret, st = res
        ctx = st.ctx

        def inp(i):
            v = vals[i]
            return prune(before[v.cell] if isinstance(v, Ref) else v, ctx)
        me, c, lut = inp(0), inp(1), inp(2)
        rot = [x for x in self.calls if x[0] == "rotated"]
        if len(rot) != 1:
            rep.bad(key, "%s (%s): %d blind rotations with step order %s and a %s key" % (f.name, f.where(), len(rot), self.steps, self.kind)) if not rot else rep.unknown(key, "several blind rotations")
            return
        _, _, nm, args, cx, raw = rot[0]
        if self.kind + "BlindRotationKey" not in nm:
            rep.bad(key + ":rotation", "%s (%s): a %s key is used by %s" % (f.name, f.where(), self.kind, nm))
            return
        self.same_key(args[0], "BlindRotationKey", cx)
        pl = [x for x in args[1:] if isinstance(x, Agg) and len(x.f) == 1]
        lw = [x for x in args[1:] if isinstance(x, Agg) and len(x.f) == 2]
        if len(pl) != 1 or len(lw) != 1:
            rep.unknown(key, "arguments of the blind rotation")
            return
        compare_poly(S, key + ":table", f, "table handed to the blind rotation", pl[0], lambda j, c2: coef(lut, j, c2), cx)
        two_n = N * 2
        compare_poly(S, key + ":rotation:mask", f, "exponents handed to the blind rotation", lw[0].f[0], lambda j, c2: rounded(coef(c.f[0], j, c2), QV, two_n, c2), cx, self.n)
        S.compare(key + ":rotation:body", f, "exponent of the table", prune(lw[0].f[1], cx), rounded(prune(c.f[1], cx), QV, two_n, cx), cx)
        # after the rotation
        acc = self.acc()
        ks = [x for x in self.calls if x[0] == "switched"]
        want_ks = 0 if self.steps == "BrMs" else 1
        if len(ks) != want_ks:
            rep.bad(key, "%s (%s): %d key switches with step order %s" % (f.name, f.where(), len(ks), self.steps))
            return
        out = prune(ret, ctx)
        if self.steps == "BrMs":
            self.lwe(":result", "result", out, lambda j, c2: rounded(self.ext(acc, j, c2), Q, QV, c2), lambda c2: rounded(self.body(acc, c2), Q, QV, c2), self.n, ctx)
            return
        _, _, nm, args, cx, raw = ks[0]
        self.same_key(args[0], "KeySwitching", cx)
        x = args[1]
        if self.steps == "BrMsKs":
            if "KeySwitchingLWEKey" not in nm:
                rep.bad(key + ":switch", "%s (%s): step order %s uses %s" % (f.name, f.where(), self.steps, nm))
                return
            self.lwe(":switch", "ciphertext handed to the key switch", x, lambda j, c2: rounded(self.ext(acc, j, c2), Q, QV, c2), lambda c2: rounded(self.body(acc, c2), Q, QV, c2), N, cx)
            sw = self.sym("switched", ret)
            self.lwe(":result", "result", out, lambda j, c2: coef(sw.f[0], j, c2), lambda c2: prune(sw.f[1], c2), self.n, ctx)
            return
        if "KeySwitchingRLWEKey" not in nm:
            rep.bad(key + ":switch", "%s (%s): step order %s uses %s" % (f.name, f.where(), self.steps, nm))
            return
        if "key_switch_for_rlwe " in nm:
            pa, pb = parts(x, cx)
            compare_poly(S, key + ":switch:a", f, "mask handed to the key switch", pa, lambda j, c2: coef(acc.f[0], j, c2), cx)
            S.compare(key + ":switch:b", f, "body handed to the key switch", coef(pb, ZERO, cx), self.body(acc, cx), cx)
        else:
            self.lwe(":switch", "ciphertext handed to the key switch", x, lambda j, c2: self.ext(acc, j, c2), lambda c2: self.body(acc, c2), N, cx)
        fn = ks[0]
        sw = self.swq
        self.lwe(":result", "result", out, lambda j, c2: rounded(coef(sw.f[0], j, c2), Q, QV, c2), lambda c2: rounded(f0(prune(sw.f[1], c2)), Q, QV, c2), self.n, ctx)

    def lwe(self, sfx, what, got, fa, fb, n, cx):
        got = prune(got, cx)
        if not isinstance(got, Agg) or len(got.f) != 2:
            self.S.rep.unknown(self.key + sfx, "not a ciphertext")
            return
        s = seqof(got.f[0], cx)
        if not isinstance(s, Seq):
            self.S.rep.unknown(self.key + sfx + ":mask", "not a sequence")
            return
        st, why = self.S.decide(s.n, n, cx)
        if st is not True:
            self.S.report(self.key + sfx + ":mask", self.f, what + ", mask (length)", st, why)
            return
        j = P(term.mk_atom("var", ("index j of the result",), 0))
        for nm, x, c2 in ((":0", ZERO, cx), (":j", j, cx.add(lt(j, n), ge(j - 1)))):
            self.S.compare(self.key + sfx + ":mask" + nm, self.f, what + ", mask", f0(prune(s.read(x, c2), c2)), fa(x, c2), c2)
        self.S.compare(self.key + sfx + ":body", self.f, what + ", body", f0(prune(got.f[1], cx)), fb(cx), cx)

    def ext(self, acc, j, cx):
        if j == ZERO:
            return coef(acc.f[0], ZERO, cx)
        return prune(Ch(eq(j), coef(acc.f[0], ZERO, cx.add(eq(j))), lift(lambda v, c2: mk_rem(-v[0], Q, c2), [coef(acc.f[0], N - j, cx)], cx)), cx)

    def body(self, acc, cx):
        return lift(lambda v, c2: mk_rem(v[0] + EIGHTH, Q, c2), [coef(acc.f[1], ZERO, cx)], cx)

    def acc(self):
        return self.symof("rotated")

    def sym(self, what, like):
        return self.symof(what)

    def symof(self, what):
        """the symbol an intercepted call returned"""
        for k, fn in self.I.p.fns.items():
            nm = self.want_fn(what)
            if re.search(nm, fn.name):
                return self.I.symval(fn.locals[0], what, (), spec.State() if hasattr(spec, "State") else None)
        raise Exception("no function " + what)

    @property
    def swq(self):
        return self.symof("switched")

    def want_fn(self, what):
        if what == "rotated":
            return r"::BinaryBlindRotationKey::<roots::F32>::blind_rotate::<u16>$"
        return r"KeySwitchingLWEKey::<u16>::key_switch_for_lwe$" if self.steps == "BrMsKs" else r"KeySwitchingRLWEKey::<roots::F32>::key_switch_for_rlwe$"

    def same_key(self, v, kind, cx):
        """the key is the one of the evaluation key: all its contents come from the field"""
        names = set()
        for a in vdeps(v):
            A = term.atom_by_id(a)
            if A.kind == "sel":
                names.add(str(A.args[0]))
        bad = sorted(x for x in names if not x.startswith("self."))
        if bad:
            self.S.rep.unknown(self.key + ":key", "key contains %s" % bad[:3])


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    S.deep = arith.deep
    n = 0
    for f in prog.wsfns:
        if f.info["item"] != "bootstrap" or "{closure" in f.name or "EvaluationKey" not in f.name:
            continue
        n += 1
        for steps in KSK:
            for kind in ("Binary", "Ternary"):
                with guard(rep, f.name + steps + kind):
                    Boot(S, prog, f, steps, kind).judge()
    rep.floor("bootstrap", n, 1)
    return rep.finish(
        "what each step of the bootstrap is handed, and what is returned, equals the composition for the configured order of the steps, at a generic index",
        explanation="Abstract interpretation of the MIR with blind rotation and key switching replaced by arbitrary results; all three step orders with both key kinds; ciphertext, key material, table, dimensions and moduli are symbols.")
