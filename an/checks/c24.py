"""Powers and inverses: the exponent of every value a square-and-multiply loop or an addition chain computes is tracked
as a polynomial in the bits of the exponent argument; products of powers add exponents."""
import re
import engine, spec, term, sem, arith
from common import Report, guard
from spec import *
from values import *
from term import *
from checks import c02
from checks.c02 import parse, classify, args, GP, BP

MONTY_ONE = (1 << 32) % BP


class Powers:
    """values x^E of one base: symbol -> exponent (a polynomial in exponent bits)"""
    def __init__(self, I, w, M):
        self.I, self.w, self.M, self.e, self.n = I, w, M, {}, 0
        self.order = None           # of the base, where one is assumed
        self.one = MONTY_ONE if M is not None and M.kind == "babybear" else 1
        I.intercepts = [self.hook] + list(I.intercepts)
        I.unroll = (lambda fn: True, 300)

    def new(self, E):
        if self.order is not None:
            E = const(E.cval() % self.order)
            if E == ZERO:
                return const(self.one)
        for k, v in self.e.items():
            if v == E:
                return P(atom_by_id(k))
        self.n += 1
        top = self.M.q - 1 if self.M is not None and self.M.kind != "goldilocks" else const((1 << self.w) - 1)
        a = mk_atom("var", ("power #%d" % self.n if self.order is None else "power #%d of a base of order %d" % (self.n, self.order),), 0 if self.order is None else 2, top)
        self.e[a.id] = E
        return P(a)

    def exponent(self, v):
        """exponent of a value; None when it is not a power of the base"""
        if isinstance(v, Ch):
            a, b = self.exponent(v.a), self.exponent(v.b)
            if a is None or b is None:
                return None
            if a == b:
                return a
            bit = holds_at(v.c)
            if bit is None:
                return None
            x, on = bit            # the condition holds iff bit x equals on
            d = a - b if on else b - a
            lo = b if on else a
            return lo + x * d
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.exponent(v.f[0])
        if not isinstance(v, Poly):
            return None
        if v.is_const() and v.cval() == self.one:
            return ZERO
        A = single_atom(v)
        return self.e.get(A.id) if A is not None else None

    def hook(self, I, fr, st, inst, info, path, a):
        if info is None:
            return NotImplemented
        it = info.get("item")
        if it in ("trailing_zeros", "leading_zeros"):
            x = sem.leaf(sem.derefall(I, st, a[0]))
            if not isinstance(x, Poly):
                return NotImplemented
            x = st.ctx.simp(x)
            if x.is_const():
                return NotImplemented
            m = re.search(r"\bu(\d+)\b", info["name"])
            if m is None:
                return NotImplemented
            w = int(m.group(1))
            r = tz(x) if it == "trailing_zeros" else lz(x, w)
            return (const(r), st) if r is not None else NotImplemented
        if it == "wrapping_pow" and info["crate"] == "core":
            x, e = self.exponent(prune(sem.derefall(I, st, a[0]), st.ctx)), prune(sem.derefall(I, st, a[1]), st.ctx)
            return (self.new(x * e), st) if x is not None and isinstance(e, Poly) else NotImplemented
        if it not in ("mul_reduce", "mul_reduce_assign") or not (info.get("implof") or "").startswith("algebra::reduce::"):
            return NotImplemented
        x, y = sem.derefall(I, st, a[0]), sem.derefall(I, st, a[1])
        ex, ey = self.exponent(prune(x, st.ctx)), self.exponent(prune(y, st.ctx))
        if ex is None or ey is None:
            return NotImplemented
        r = self.new(ex + ey)
        if it == "mul_reduce":
            return r, st
        I.store(st, a[0], r)
        return Agg(None, None, []), st


def bitvars(p):
    """[(atom, coefficient)] and the constant of a sum of exponent bits"""
    out, c = [], 0
    for m, k in p.d.items():
        if not m:
            c = k
        elif len(m) == 1 and atom_by_id(m[0]).kind == "var" and (atom_by_id(m[0]).nlo, atom_by_id(m[0]).nhi) == (0, 1):
            out.append((atom_by_id(m[0]), k))
        else:
            return None
    return out, c


def tz(x):
    b = bitvars(x)
    if b is None or b[1] <= 0:
        return None
    vs, c = b
    r = (c & -c).bit_length() - 1
    return r if all(k % (2 << r) == 0 for _, k in vs) else None


def lz(x, w):
    b = bitvars(x)
    if b is None or b[1] <= 0 or any(k < 0 for _, k in b[0]):
        return None
    lo, hi = b[1], b[1] + sum(k for _, k in b[0])
    return w - lo.bit_length() if lo.bit_length() == hi.bit_length() else None


def holds_at(c):
    """(bit, value): the condition holds exactly when the bit has the value"""
    if not isinstance(c, tuple) or c[0] not in ("eq", "ne", "ge") or not isinstance(c[1], Poly):
        return None
    b = bitvars(c[1])
    if b is None or len(b[0]) != 1:
        return None
    (A, k), c0 = b[0][0], b[1]
    t = {"eq": lambda v: v == 0, "ne": lambda v: v != 0, "ge": lambda v: v >= 0}[c[0]]
    z, o = t(c0), t(c0 + k)
    if z == o:
        return None
    return P(A), 1 if o else 0


def pairs(w):
    """(highest, lowest) set bit of an exponent"""
    for h in range(w):
        for l in range(h + 1) if w <= 32 else sorted({0, 1, 2, h // 2, h - 2, h - 1, h} & set(range(h + 1))):
            yield h, l


def bits(w, h, l):
    e = const(1 << l) if h == l else const((1 << h) + (1 << l))
    for i in range(l + 1, h):
        e = e + term.var("bit %d of the exponent" % i, 0, 1) * (1 << i)
    return e


def witness(got, want, mod=None):
    """exponent bits for which the two exponents differ"""
    d = got - want
    if mod:
        d = P0({m: k % mod for m, k in d.d.items()})
    if d.is_const() and d.cval() == 0:
        return None
    b = bitvars(d)
    if b is None:
        return "some exponent bits"
    if b[1] != 0:
        return "all middle bits clear"
    return "only %s set" % show(P(b[0][0][0]))


def P0(d):
    p = ZERO
    for m, k in d.items():
        t = const(k)
        for a in m:
            t = t * P(atom_by_id(a))
        p = p + t
    return p


def order(M):
    return GP - 1 if M.kind == "goldilocks" else BP - 1 if M.kind == "babybear" else None


def base_of(M, pw):
    x = term.var("x below the modulus", 0, GP - 1) if M.kind == "goldilocks" else M.operand("x")
    pw.e[single_atom(x).id] = ONE
    return x


def settle(rep, key, f, M, pw, v, want, what):
    E = pw.exponent(v)
    if E is None:
        rep.unknown(key, "%s: the result is not a power of the base: %s" % (what, vshow(v)[:120]))
        return False
    w = witness(E, want, order(M))
    if w is None:
        return True
    rep.bad(key, "%s (%s): %s: computes the power with exponent %s, not %s (%s)" % (f.name, f.where(), what, show(E)[:120], show(want)[:120], w))
    return False


def panics(S, I, f, key):
    for fn, what, cx, line in I.panics:
        if any(cond_opq(c) for c in cx.facts):
            continue
        w = S.inhabited(cx)
        if w:
            S.rep.bad(key + ":panic", "%s (%s): %s panics on admissible operands, e.g. %s" % (f.name, f.where(line), what, w))
            return


def power(S, prog, f, M, ew):
    """x.exp_reduce(e, m)"""
    rep, key, ok, n = S.rep, f.name, True, 0
    # a base of small order, whose powers become one early
    for k in (2, 3, 4) if M.kind not in ("wrap", "powof2") else ():
        for e in sorted({1 << h | b << h // 2 | c for h in (0, 1, 2, 3, 5, ew - 2, ew - 1) for b in (0, 1) for c in (0, 1)}):
            I = engine.new_interp(prog)
            pw = Powers(I, M.w, M)
            x = term.var("x of order %d" % k, 2, 100) if M.kind in ("goldilocks", "babybear") else base_of(M, pw)
            pw.order = k
            pw.e[single_atom(x).id] = ONE
            vals, _, res = spec.run(I, f, over=args3(f, M, x, const(e)), facts=[ge(x - 2)])
            n += 1
            if res is None:
                rep.bad(key, "%s (%s) never returns for the exponent %d and a base of order %d" % (f.name, f.where(), e, k))
                return
            E = pw.exponent(prune(res[0], res[1].ctx))
            if E is None or not E.is_const():
                rep.unknown(key, "a base of order %d: the result is not a power of the base: %s" % (k, vshow(res[0])[:120]))
                return
            if (E.cval() - e) % k:
                rep.bad(key, "%s (%s): computes the power with exponent %d, not %d, of a base of order %d" % (f.name, f.where(), E.cval(), e, k))
                return
    for h, l in pairs(ew):
        I = engine.new_interp(prog)
        pw = Powers(I, M.w, M)
        x = base_of(M, pw)
        e = bits(ew, h, l)
        vals, _, res = spec.run(I, f, over=args3(f, M, x, e))
        n += 1
        if res is None:
            rep.bad(key, "%s (%s) never returns for exponents between bits %d and %d" % (f.name, f.where(), l, h))
            return
        panics(S, I, f, key)
        if not settle(rep, key, f, M, pw, prune(res[0], res[1].ctx), e, "exponents with highest bit %d and lowest bit %d" % (h, l)):
            return
    rep.ok(key, "%d shapes of exponents" % n)
    key = re.sub(r", u\d+> for", "> for", key) + ":zero"
    if M.kind == "wrap":
        return
    I = engine.new_interp(prog)
    pw = Powers(I, M.w, M)
    x = base_of(M, pw)
    vals, _, res = spec.run(I, f, over=args3(f, M, x, ZERO))
    if res is None:
        rep.bad(key, "%s (%s) never returns for exponent 0" % (f.name, f.where()))
        return
    panics(S, I, f, key)
    v = prune(res[0], res[1].ctx)
    if isinstance(v, Poly) and v.is_const():
        if v.cval() == pw.one:
            rep.ok(key, "x^0 = 1")
        else:
            rep.bad(key, "%s (%s): x^0 is returned as %s, the one of the representation is %d" % (f.name, f.where(), show(v), pw.one))
    else:
        rep.unknown(key, vshow(v)[:120])


def args3(f, M, x, e):
    def over(I, st):
        o = {0: x, 1: e}
        if f.argc == 3:
            o[2] = M.value(f.locals[3])
        return o
    return over


def squarings(S, prog, f, M):
    """x.exp_power_of_2_reduce(k, m)"""
    rep, key = S.rep, f.name
    for k in range(0, 2 * M.w + 1):
        I = engine.new_interp(prog)
        pw = Powers(I, M.w, M)
        x = base_of(M, pw)
        vals, _, res = spec.run(I, f, over=args3(f, M, x, const(k)))
        if res is None:
            rep.bad(key, "%s (%s) never returns for %d squarings" % (f.name, f.where(), k))
            return
        panics(S, I, f, key)
        if not settle(rep, key, f, M, pw, prune(res[0], res[1].ctx), const(1 << k), "%d squarings" % k):
            return
    rep.ok(key, "0 to %d squarings" % (2 * M.w))


def chains(S, prog, f, M):
    """inverses by Fermat's little theorem: x^(p-2) for x != 0, an error or panic for 0"""
    rep, key = S.rep, f.name
    tr = parse(f)[0]
    I = engine.new_interp(prog)
    pw = Powers(I, M.w, M)
    x = M.operand("x")
    pw.e[single_atom(x).id] = ONE
    nz = [ge(x - 1)]
    if M.kind == "goldilocks":
        nz.append(("ne", x - GP))
    vals, _, res = spec.run(I, f, over=args(f, M, [x], tr.endswith("Assign")), facts=nz)
    if res is None:
        rep.bad(key, "%s (%s) never returns for an invertible operand" % (f.name, f.where()))
        return
    panics(S, I, f, key)
    v = prune(res[1].mem[vals[0].cell] if tr.endswith("Assign") else res[0], res[1].ctx)
    if tr.startswith("Try"):
        if isinstance(v, Agg) and v.var == 0 and len(v.f) == 1:
            v = prune(v.f[0], res[1].ctx)
        elif isinstance(v, Agg) and v.var == 1:
            rep.bad(key, "%s (%s) fails for every invertible operand" % (f.name, f.where()))
            return
        else:
            rep.unknown(key, vshow(v)[:160])
            return
    p = order(M) + 1
    if settle(rep, key, f, M, pw, v, const(p - 2), "inverse"):
        rep.ok(key, "the addition chain ends at x^(p-2)")
    for z in (0, GP) if M.kind == "goldilocks" else (0,):
        k = key + ":zero"
        I = engine.new_interp(prog)
        pw = Powers(I, M.w, M)
        vals, _, res = spec.run(I, f, over=args(f, M, [const(z)], tr.endswith("Assign")))
        if res is None:
            rep.ok(k, "zero has no inverse")
            continue
        v = prune(res[0], res[1].ctx)
        if tr.startswith("Try") and isinstance(v, Agg) and v.var == 1:
            rep.ok(k, "zero is reported")
        elif tr.startswith("Try") and not isinstance(v, Agg):
            rep.unknown(k, vshow(v)[:120])
        else:
            rep.bad(k, "%s (%s) returns an inverse of zero (operand %d)" % (f.name, f.where(), z))


FIELD = re.compile(r"^<(\w+::\w+) as num_traits::(Inv|Pow<.*>)>::(inv|pow)$")


class FieldMod:
    kind = "field"

    def __init__(self, q, w):
        self.q, self.w = const(q), w


def fields(S, prog, n):
    """x.pow(e) and x.inv() of derived prime fields"""
    rep = S.rep
    for f in prog.wsfns:
        m = FIELD.match(f.name)
        if m is None:
            continue
        t = prog.types[f.locals[1]]
        with guard(rep, f.name, 60):
            q = field_modulus(prog, m.group(1))
            if q is None:
                continue
            inner = t["variants"][0]["fields"][0][1] if t.get("variants") else None
            w = int(prog.types[inner]["name"][1:])
            M = FieldMod(q, w)
            n["field " + m.group(3)] = n.get("field " + m.group(3), 0) + 1
            if m.group(3) == "inv":
                shapes = [(None, const(q - 2))]
            else:
                shapes = [((h, l), bits(w, h, l)) for h, l in pairs(w)] + [((-1, 0), ZERO)]
            for hl, e in shapes:
                I = engine.new_interp(prog)
                pw = Powers(I, w, M)
                x = P(mk_atom("var", ("x below %d" % q,), 1 if hl is None else 0, q - 1))
                pw.e[single_atom(x).id] = ONE
                o = {0: Agg(f.locals[1], None, [x])}
                if hl is not None:
                    o[1] = e
                vals, _, res = spec.run(I, f, over=o)
                if res is None:
                    rep.bad(f.name, "%s (%s) never returns" % (f.name, f.where()))
                    break
                panics(S, I, f, f.name)
                E = pw.exponent(prune(res[0], res[1].ctx))
                if E is None:
                    rep.unknown(f.name, "the result is not a power of the base: %s" % vshow(res[0])[:120])
                    break
                wit = witness(E, e, q - 1)
                if wit is None and hl is not None and hl[0] >= 0 and E != e:
                    wit = None
                if wit is not None:
                    rep.bad(f.name, "%s (%s) computes the power with exponent %s instead of %s (%s)" % (f.name, f.where(), show(E)[:120], show(e)[:120], wit))
                    break
            else:
                rep.ok(f.name, "%d shapes of exponents" % len(shapes) if len(shapes) > 1 else "x^(p-2)")


def field_modulus(prog, name):
    return engine.FIELDQ.get(name.split("::")[-1]) or KNOWN.get(name.split("::")[-1])


KNOWN = {"DefaultFieldU32": 132120577, "DefaultQks": 15361}


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    n = {}
    for f in prog.wsfns:
        with guard(rep, f.name, 60):
            if "{closure" in f.name:
                continue
            pr = parse(f)
            if pr is None:
                continue
            tr, mod, slf, meth = pr
            if tr == "ExpReduce":
                m = re.match(r"(.*Modulus(?:<u\d+>)?|\(\)), u(\d+)$", mod)
                if m is None:
                    continue
                M = classify(m.group(1), slf)
                if M is None:
                    continue
                power(S, prog, f, M, int(m.group(2)))
            elif tr == "ExpPowOf2Reduce":
                M = classify(mod, slf)
                if M is None:
                    continue
                squarings(S, prog, f, M)
            elif tr in ("InvReduce", "InvReduceAssign", "TryInvReduce") and ("Goldilocks" in mod or "BabyBear" in mod):
                M = classify(mod, slf)
                chains(S, prog, f, M)
            else:
                continue
            n[tr] = n.get(tr, 0) + 1
    fields(S, prog, n)
    rep.floor("powers of field elements", n.get("field pow", 0) + n.get("field inv", 0), 8)
    rep.floor("ExpReduce", n.get("ExpReduce", 0), 7)
    rep.floor("ExpPowOf2Reduce", n.get("ExpPowOf2Reduce", 0), 4)
    rep.floor("addition chains", sum(v for k, v in n.items() if "Inv" in k), 6)
    rep.notes["operations"] = n
    return rep.finish(
        "the exponent of the returned power equals the exponent argument (or p - 2 for an inverse) as a polynomial in the argument's bits",
        explanation="Every exponentiation is interpreted on a symbolic base and on exponents whose bits are symbols, for every pair of "
                    "highest and lowest set bit; modular products are intercepted and add exponents, so the exponent of the result is a "
                    "polynomial in the bits, compared with the argument modulo the order of the group where the modulus is fixed. "
                    "Inverses by addition chains must end at the exponent p - 2 and refuse zero.",
        trusted="that the modular products multiply is decided by C02; Fermat's little theorem")
