"""The primality test: small values exactly, trial division by justified divisors only, and every Miller-Rabin round
decided by the strong-pseudoprime condition of its base.  The outcomes of the tests "x^(q 2^i) is 1 / is n - 1" are the
only unknowns; the verdict is evaluated for every combination of outcomes that arithmetic modulo n allows."""
import re
import engine, spec, term, sem
from common import Report, guard
from spec import *
from values import *
from term import *

PRIME = re.compile(r"BarrettModulus<u(\d+)> as algebra::utils::Prime>::probably_prime$")


class Odd(Exception):
    pass


def constant(v):
    """True, False or None"""
    if v == T or v is True:
        return True
    if v == F or v is False:
        return False
    return bool(v.cval()) if isinstance(v, Poly) and v.is_const() else None


class World:
    """bases and powers of bases modulo n, under one behaviour of x^(q 2^i) per base"""
    def __init__(self, I, n, w, q=None, r=0, behaviour=()):
        self.n, self.w, self.q, self.r, self.behaviour = n, w, q, r, behaviour
        self.e, self.bases, self.draws = {}, [], []
        I.intercepts = [self.hook] + list(I.intercepts)
        I.unroll = (lambda fr: True, 80)

    def power(self, b, E, st):
        """base^E mod n: 1, n - 1, or some value that is neither, as the behaviour says"""
        if self.behaviour is None:              # n is even: no power of an even base is 1 or n - 1
            c = self.bases[b]
            i, t = 0, 0 if c.is_const() and c.cval() % 2 == 0 else 1
        else:
            for i in range(self.r + 2):
                if E == self.q * (1 << i):
                    break
            else:
                a = mk_atom("var", ("base %d to the power %s" % (b, show(E)[:60]),), 2, (1 << (self.w - 2)) - 3)
                self.e[a.id] = (b, E)
                return P(a), st
            t = self.behaviour[b](i) if b < len(self.behaviour) else 1
        if t == 1:
            return ONE, st
        if t == -1:
            return self.n - 1, st
        a = self.other(b, i)
        self.e[a.id] = (b, E)
        return P(a), st

    def other(self, b, i):
        return mk_atom("var", ("base %d to the power q 2^%d (u%d, 2^%d)" % (b, i, self.w, self.r),), 2, (1 << (self.w - 2)) - 3)

    def facts(self):
        """the values that are neither 1 nor n - 1"""
        return [ge(self.n - 64)] + [ge(self.n - 2 - P(self.other(b, i))) for b, f in enumerate(self.behaviour or ()) for i in range(self.r + 1) if not f(i)]

    def known(self, v):
        A = single_atom(v) if isinstance(v, Poly) else None
        if A is not None and A.id in self.e:
            return self.e[A.id]
        return next(((i, ONE) for i, b in enumerate(self.bases) if b == v), None)

    def product(self, x, y, st):
        """x y mod n, or None"""
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            return None
        for u, v in ((x, y), (y, x)):
            if u == ONE:
                return (v, st) if v == ONE or v == self.n - 1 or self.known(v) else None
        if x == self.n - 1 and y == self.n - 1:
            return ONE, st
        i, j = self.known(x), self.known(y)
        return self.power(i[0], i[1] + j[1], st) if i and j and i[0] == j[0] else None

    def base(self, v):
        for i, b in enumerate(self.bases):
            if b == v:
                return i
        self.bases.append(v)
        return len(self.bases) - 1

    def hook(self, I, fr, st, inst, info, path, a):
        if info is None:
            return NotImplemented
        it, crate = info.get("item"), info["crate"]
        get = lambda i: prune(sem.derefall(I, st, a[i]), st.ctx)
        if it == "trailing_zeros":
            x = get(0)
            if isinstance(x, Poly):
                c = x.d.get((), 0)
                if c > 0:
                    t = (c & -c).bit_length() - 1
                    if all(k % (2 << t) == 0 for m, k in x.d.items() if m):
                        return const(t), st
            return NotImplemented
        if crate in ("rand", "rand_distr") and it in ("from", "new", "new_inclusive") and "Uniform<u" in info["name"]:
            if it == "from":
                r = get(0)
                if not isinstance(r, Agg) or len(r.f) < 2:
                    return NotImplemented
                lo, hi, incl = r.f[0], r.f[1], "RangeInclusive" in info["name"]
            else:
                lo, hi, incl = get(0), get(1), it == "new_inclusive"
            if isinstance(lo, Poly) and isinstance(hi, Poly):
                return Agg("uniform", None, [lo, hi if incl else hi - 1]), st
            return NotImplemented
        if it in ("unwrap", "expect") and "rand::Error" in info["name"]:
            return Agg("generator", None, []), st           # seeding a generator succeeds
        if crate == "rand" and it in ("sample", "gen_range"):
            for i in range(len(a)):
                d = get(i)
                if isinstance(d, Agg) and d.ty == "uniform":
                    return self.draw(d.f[0], d.f[1]), st
                if isinstance(d, Agg) and it == "gen_range" and len(d.f) >= 2 and isinstance(d.f[0], Poly) and isinstance(d.f[1], Poly):
                    return self.draw(d.f[0], d.f[1] if len(d.f) == 3 else d.f[1] - 1), st
            return NotImplemented
        if self.q is None:
            return NotImplemented
        if it == "exp_reduce" and crate == "algebra":
            x, e = get(0), get(1)
            if isinstance(x, Poly) and isinstance(e, Poly) and self.modulus(get(2)):
                k = self.known(x)
                return self.power(k[0], k[1] * e, st) if k else self.power(self.base(x), e, st)
            return NotImplemented
        if it in ("mul_reduce", "widening_mul", "mul_reduce_assign", "square_reduce") and crate == "algebra":
            x = get(0)
            y = x if it == "square_reduce" else get(1)
            if it != "widening_mul" and not self.modulus(get(1 if it == "square_reduce" else 2)):
                return NotImplemented
            r = self.product(x, y, st)
            if r is None:
                return NotImplemented
            if it == "widening_mul":
                return Agg(None, None, [r[0], Agg("high word", None, [])]), r[1]
            if it != "mul_reduce_assign":
                return r
            I.store(r[1], a[0], r[0])
            return Agg(None, None, []), r[1]
        if it == "reduce" and crate == "algebra":
            v = get(0)
            if isinstance(v, Agg) and len(v.f) == 2 and isinstance(v.f[1], Agg) and v.f[1].ty == "high word":
                return (v.f[0], st) if self.modulus(get(1)) else NotImplemented
        return NotImplemented

    def modulus(self, m):
        while isinstance(m, Agg) and m.f:
            m = m.f[0]
        return isinstance(m, Poly) and m == self.n

    def draw(self, lo, hi):
        a = mk_atom("var", ("draw #%d" % len(self.draws),), lo, hi)
        self.draws.append((P(a), lo, hi))
        return P(a)


def verdict(v, truth):
    """value of a boolean result under an assignment of its atomic conditions"""
    if isinstance(v, Ch):
        return verdict(v.a if cond(v.c, truth) else v.b, truth)
    if constant(v) is not None:
        return constant(v)
    if isinstance(v, tuple):
        return cond(v, truth)
    raise Odd(vshow(v)[:120])


def cond(c, truth):
    if c == T or c == F:
        return c == T
    if c[0] == "and":
        return all(cond(x, truth) for x in c[1:]) if not isinstance(c[1], (list, tuple)) or isinstance(c[1][0], str) else all(cond(x, truth) for x in c[1])
    if c[0] == "or":
        return any(cond(x, truth) for x in c[1:]) if not isinstance(c[1], (list, tuple)) or isinstance(c[1][0], str) else any(cond(x, truth) for x in c[1])
    return truth(c)


class Outcomes:
    """truth of the atomic conditions: which divisors divide n"""
    def __init__(self, n, divides, W=None):
        self.W, self.n, self.divides, self.used = W, n, divides, set()

    def __call__(self, c):
        op, p = c[0], c[1]
        if op not in ("eq", "ne"):
            raise Odd("condition %s" % (c,))
        t = self.eq(p)
        return t if op == "eq" else not t

    def eq(self, p):
        d = p.d.get((), 0)
        A = single_atom(p - d)
        if A is not None and A.kind == "rem" and isinstance(A.args[1], Poly) and A.args[1].is_const():
            c = A.args[1].cval()
            for t in (self.n, -self.n):
                if all(k % c == 0 for k in (A.args[0] + d - t).d.values()):      # the condition is n = 0 mod c
                    self.used.add(c)
                    return c == self.divides
        for s in (p, -p):
            for d in (ONE, self.n - 1):
                k = self.W and self.W.known(s + d)
                if k is not None and k[1] != ONE:
                    return False                # a power outside the sequence is in general neither
        raise Odd("condition %s = 0" % show(p)[:120])


def values(r):
    """all behaviours of x^(q 2^i), i = 0..r: first index whose power is 1 or -1 (or none), and which of the two"""
    yield "never 1 or -1", lambda i: 0
    for j in range(r + 1) if r <= 4 else (0, 1, 2, r // 2, r - 1, r):
        yield "1 from i = %d on, something else before" % j, lambda i, j=j: 1 if i >= j else 0
        yield "-1 at i = %d, something else before" % j, lambda i, j=j: 1 if i > j else -1 if i == j else 0


def strong(f, r):
    return f(0) == 1 or any(f(i) == -1 for i in range(r))


def large(S, prog, f, w):
    rep, key = S.rep, "%s:rounds" % f.name
    tests = 0
    for r in range(1, w - 2):
        if 4 < r and r not in (8, w // 2, w - 6):
            continue
        lo = max(0, ((64 >> r) - 1) // 2 + 1 if (1 << r) + 1 < 64 else 0)
        while (2 * lo + 1) * (1 << r) + 1 < 64:
            lo += 1
        hi = (((1 << (w - 2)) - 2 >> r) - 1) // 2
        if hi <= lo:
            continue
        k = term.var("odd part u%d, 2^%d" % (w, r), lo, hi)
        q = k * 2 + 1
        n = q * (1 << r) + 1
        what = "%s (%s), n - 1 = 2^%d times an odd number" % (f.name, f.where(), r)
        used = set()
        beh = list(values(r))
        passing = [b for b in beh if strong(b[1], r)]
        seen = []
        for i, b in enumerate(beh):
            for c in ((b, passing[0]), (b, passing[-1]), (passing[0], b), (passing[-1], b)) if r <= 4 else ((b, passing[i % len(passing)]), (passing[i % len(passing)], b)):
                if c not in seen:
                    seen.append(c)
        for (s0, f0), (s1, f1) in seen:
            want = strong(f0, r) and strong(f1, r)
            case = "when the powers x^(q 2^i) of the first base are %s and those of the second base are %s" % (s0, s1)
            I = engine.new_interp(prog)
            W = World(I, n, w, q, r, (f0, f1))
            try:
                vals, _, res = spec.run(I, f, over=lambda I, st: {0: Agg(f.locals[1], None, [n, SLit([ZERO, ZERO])]), 1: const(2)}, facts=W.facts())
                for fn, w_, cx, line in I.panics:
                    if not any(cond_opq(c) for c in cx.facts) and S.inhabited(cx):
                        rep.bad(key + ":panic", "%s: %s panics, e.g. %s" % (what, w_, S.inhabited(cx)))
                        return
                if res is None:
                    rep.bad(key, "%s: never returns %s" % (what, case))
                    return
                o = Outcomes(n, None, W)
                got = verdict(prune(res[0], res[1].ctx), o)
            except Odd as e:
                rep.unknown(key, "%s: %s" % (what, str(e)))
                return
            used |= o.used
            tests += 1
            if got != want:
                rep.bad(key, "%s: answers %s %s, although %s" % (
                    what, got, case, "both rounds pass, as they do for every prime" if want else "a round proves n composite"))
                return
            if got and not bases(rep, f, what, W, n, res[1].ctx):
                return
        for c in sorted(used):
            if c < 2:
                rep.bad(key, "%s: tests divisibility by %d" % (what, c))
                return
            if c >= 64:
                rep.bad(key, "%s: rejects multiples of %d, which may equal n" % (what, c))
                return
    rep.ok(key, "%d combinations of outcomes" % tests)


def bases(rep, f, what, W, n, ctx):
    key = "%s:bases" % f.name
    if len(W.bases) < 2:
        rep.bad(key, "%s: two rounds use the same base" % what)
        return False
    for b in W.bases:
        if b.is_const():
            if not 2 <= b.cval() <= 61:
                rep.bad(key, "%s: the fixed base %d" % (what, b.cval()))
                return False
            continue
        for d, lo, hi in W.draws:
            if d == b:
                if not ctx.ge0(lo - 1) or not ctx.ge0(n - 1 - hi):
                    bad = "may be a multiple of n" if ctx.ge0(hi - n) or ctx.infeasible(ge(lo - 1)) else None
                    if bad:
                        rep.bad(key, "%s: a base is drawn from %s..=%s and %s" % (what, show(lo), show(hi), bad))
                        return False
                    rep.unknown(key, "range of the bases")
                    return False
                if not (ctx.ge0(const(3) - lo) and ctx.ge0(hi - (n - 2))):
                    rep.bad(key, "%s: a base is drawn from %s..=%s only, not from all of 3..n-2" % (what, show(lo), show(hi)))
                    return False
                break
        else:
            rep.unknown(key, "base %s" % show(b)[:80])
            return False
    if len(W.bases) < 2 and not W.bases[0].is_const() or not any(b == d for b in W.bases for d, _, _ in W.draws):
        rep.bad(key, "%s: no base is drawn at random" % what)
        return False
    return True


def evens(S, prog, f, w):
    """even values from 64 on are rejected"""
    rep, key = S.rep, "%s:even" % f.name
    for c in (0, 2):
        I = engine.new_interp(prog)
        n = term.var("quarter u%d" % w, 16, (1 << (w - 4)) - 1) * 4 + c
        W = World(I, n, w, n - 1, 0, None)
        vals, _, res = spec.run(I, f, over=lambda I, st: {0: Agg(f.locals[1], None, [n, SLit([ZERO, ZERO])]), 1: const(2)})
        if res is None:
            rep.bad(key, "%s (%s) never returns for an even value" % (f.name, f.where()))
            return
        v = prune(res[0], res[1].ctx)
        try:
            got = verdict(v, Outcomes(n, None, W))
        except Odd as e:
            rep.unknown(key, str(e))
            return
        if got:
            rep.bad(key, "%s (%s) accepts even values (that no odd number below 64 divides)" % (f.name, f.where()))
            return
    rep.ok(key, "rejected")


def small(S, prog, f, w):
    rep, key = S.rep, "%s:small" % f.name
    for x in range(2, 64):
        I = engine.new_interp(prog)
        W = World(I, const(x), w)
        vals, _, res = spec.run(I, f, over=lambda I, st: {0: Agg(f.locals[1], None, [const(x), SLit([ZERO, ZERO])]), 1: const(2)})
        v = prune(res[0], res[1].ctx) if res else None
        want = all(x % d for d in range(2, x))
        got = constant(v) if v is not None else None
        if got is None:
            rep.unknown(key, "%d: %s" % (x, vshow(v)[:80] if v is not None else "never returns"))
            return
        if got != want:
            rep.bad(key, "%s (%s) answers %s for %d" % (f.name, f.where(), got, x))
            return
    rep.ok(key, "the values 2 to 63")


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    n = 0
    for f in prog.wsfns:
        m = PRIME.search(f.name)
        if m is None:
            continue
        w = int(m.group(1))
        n += 1
        with guard(rep, f.name + ":small"):
            small(S, prog, f, w)
        if w > 8:               # a BarrettModulus<u8> is below 64
            with guard(rep, f.name + ":rounds", 200):
                large(S, prog, f, w)
            with guard(rep, f.name + ":even", 60):
                evens(S, prog, f, w)
    rep.floor("primality tests", n, 4)
    return rep.finish(
        "the verdict equals the conjunction of the strong-pseudoprime conditions of the rounds, for every outcome of x^(q 2^i)",
        explanation="Values below 64 are interpreted exactly. For larger odd n = q 2^r + 1 the test is interpreted on a symbolic odd part q; "
                    "powers of a base are named by base and exponent, and for every sequence of outcomes (1, -1, something else) that "
                    "squaring modulo n allows the verdict is evaluated and compared. Divisors that reject n must be proper, bases must be "
                    "non-zero modulo n and drawn from all of 3..n-2. Even values are interpreted separately.",
        trusted="that exp_reduce computes powers (C24) and products multiply (C02); seeding the generator succeeds; two rounds stand for any number")
