"""Exact integer reasoning for word arithmetic: quotient estimates (Barrett, Shoup) and carries.

Two rewriting principles on top of the normal forms of term.py:
* quotient estimate.  For R = (v C) div q with 0 <= v < q and 0 <= y <= C:
      (y R) div C  =  (y v) div q - beta   with beta in {0, 1}
  because 0 <= y v / q - y R / C = y ((v C) mod q) / (q C) < 1.
* carries.  (X mod C) = X - j C for the j with j C <= X < (j+1) C; when the range of X leaves few values for j the
  goal is shown for each of them.
"""
from fractions import Fraction
import term
from term import *
from values import *
import spec
from spec import Unknown, cases, norm


def map_atoms(x, rule, memo):
    """rebuild x bottom up; rule(atom) -> Poly or None"""
    if isinstance(x, Poly):
        out = ZERO
        for m, c in x.d.items():
            t = const(c)
            for a in m:
                t = t * map_atom(term.atom_by_id(a), rule, memo)
            out = out + t
        return out
    if isinstance(x, tuple):
        return tuple(map_atoms(y, rule, memo) for y in x)
    return x


def map_atom(A, rule, memo):
    r = memo.get(A.id)
    if r is not None:
        return r
    if A.kind in term.BINDERS or A.kind in ("opq", "var", "bound"):
        r = P(A)
    else:
        args = tuple(map_atoms(y, rule, memo) for y in A.args)
        r = P(A) if args == A.args else term.rebuild(A, args)
        B = single_atom(r)
        if B is not None:
            z = rule(B)
            if z is not None:
                r = z
        elif args != A.args:
            r = map_atoms(r, lambda a: rule(a), {}) if False else r
    memo[A.id] = r
    return r


def map_cond(c, rule, memo):
    k = c[0]
    if k == "ge":
        return ge(map_atoms(c[1], rule, memo))
    if k == "eq":
        return eq(map_atoms(c[1], rule, memo))
    if k == "ne":
        return ne(map_atoms(c[1], rule, memo))
    if k in ("and", "or"):
        parts = [map_cond(x, rule, memo) for x in c[1]]
        return conj(parts) if k == "and" else disj(parts)
    return c


def factor(E, R):
    """E = y R; returns y"""
    ra = single_atom(R)
    if ra is None:
        return None
    d = {}
    for m, c in E.d.items():
        if ra.id not in m or not isinstance(c, int):
            return None
        r = list(m)
        r.remove(ra.id)
        d[tuple(r)] = c
    return Poly(d)


def quotients(E):
    """candidate R atoms: quotients occurring in every monomial of E"""
    common = None
    for m in E.d:
        s = {a for a in m if term.atom_by_id(a).kind == "quo"}
        common = s if common is None else common & s
    return [term.atom_by_id(a) for a in sorted(common or ())]


class Rules:
    """the quotient-estimate lemma, under the assumptions facts (a Ctx)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.betas = {}

    def rule(self, A):
        r = self.estimate(A)
        return self.rounding(A) if r is None else r

    def rounding(self, A):
        """halves of quotients by powers of two, on one common form: floor(N / 2^e) - floor(N / 2^(e+1))"""
        if A.kind == "rem" and A.args[1] == const(2):
            k = A.args[0].cval()
            odd = isinstance(k, int) and k % 2 == 1
            X = single_atom(A.args[0] - k) if isinstance(k, int) else None
            if X is not None and X.kind == "quo":
                D = single_atom(X.args[1])
                if D is not None and D.kind == "pow" and D.args[0] == const(2) and self.ctx.ge0(D.args[1]):
                    r = P(X) - mk_quo(X.args[0], mk_pow(const(2), D.args[1] + 1), self.ctx).scale(2)
                    return 1 - r if odd else r
        if A.kind == "quo":
            C = single_atom(A.args[1])
            if C is not None and C.kind == "pow" and C.args[0] == const(2) and self.ctx.ge0(C.args[1] - 1):
                H = mk_pow(const(2), C.args[1] - 1)
                h = single_atom(H)
                if h is not None and A.args[0].d.get((h.id,)) == 1:
                    E = A.args[0] - H
                    return mk_quo(E, H, self.ctx) - mk_quo(E, P(C), self.ctx)
                if A.args[0].d.get((C.id,)) == Fraction(1, 2):
                    E = A.args[0] - P(C).scale(Fraction(1, 2))
                    return mk_quo(E, H, self.ctx) - mk_quo(E, P(C), self.ctx)
        return None

    def estimate(self, A):
        """rem(y R, C K) with R = (v C) div q"""
        if A.kind != "rem" or not A.args[1].is_const():
            return None
        M = A.args[1].cval()
        E = A.args[0]
        for R in quotients(E):
            num, q = R.args
            if q.is_const():
                continue
            y = factor(E, P(R))
            if y is None:
                continue
            # num = v C with C a power of two dividing M
            for C in self.splits(num, M):
                v = num.scale(Fraction(1, C))
                if not v.integral() or not (self.ctx.ge0(v) and self.ctx.ge0(q - v - 1) and self.ctx.ge0(q - 1)):
                    continue
                if not (self.ctx.ge0(y) and self.ctx.ge0(const(C) - y)):
                    continue
                key = (y, v, q, C)
                if key not in self.betas:
                    self.betas[key] = mk_fn("beta", (y, v, q), 0, 1)
                beta = self.betas[key]
                quo = mk_quo(y * v, q) - beta           # (y R) div C
                low = y * P(R) - quo.scale(C)           # (y R) mod C
                if M == C:
                    return low
                return low + mk_rem(quo, const(M // C)).scale(C)
        return None

    def splits(self, num, M):
        g = 0
        for c in num.d.values():
            if not isinstance(c, int):
                return []
            from math import gcd
            g = gcd(g, c)
        out = []
        C = M
        while C >= 2:
            if M % C == 0 and g % C == 0:
                out.append(C)
            C //= 2
        return out

    def value(self, p):
        memo = {}
        for _ in range(3):
            r = map_atoms(p, self.rule, memo)
            if r == p:
                return r
            p, memo = r, {}
        return p

    def conds(self, cs):
        memo = {}
        return [map_cond(c, self.rule, memo) for c in cs]


def int_valued(E):
    """E takes integer values: its denominators are cleared exactly"""
    den = 1
    for c in E.d.values():
        if not isinstance(c, int):
            den = den * c.denominator // _gcd(den, c.denominator)
    if den == 1:
        return True
    return mk_rem(E.scale(den), const(den)) == ZERO


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def goal_eq(a, b, ctx):
    return spec.equal_leaf(a, b, ctx)


def goal_cong(m):
    def g(a, b, ctx):
        d = norm(a - b, ctx)
        if d == ZERO:
            return True
        if int_valued(d.scale(Fraction(1, m))):
            return True
        return mk_rem(d, const(m)) == ZERO
    return g


def small_rem(ps, limit=4):
    """a rem atom whose quotient takes few values, innermost first; (atom, j range)"""
    seen = []

    def go(p):
        for a in p.atoms():
            A = term.atom_by_id(a)
            if A.kind in term.BINDERS:
                continue
            for y in A.args:
                if isinstance(y, Poly):
                    go(y)
            if A.kind == "rem" and A.args[1].is_const():
                c = A.args[1].cval()
                lo, hi = A.args[0].bounds()
                if lo is not None and hi is not None:
                    lo, hi = -(-lo // 1), hi // 1
                    j0, j1 = lo // c, hi // c
                    if j1 - j0 < limit:
                        seen.append((A, j0, j1))
    for p in ps:
        go(p)
    if not seen:
        return None
    return min(seen, key=lambda s: (s[2] - s[1], s[0].id))


def beta_atoms(ps):
    out = {}

    def go(p):
        for a in p.atoms():
            A = term.atom_by_id(a)
            if A.kind == "fn" and A.args[0] == "beta":
                out[a] = A
            for y in A.args:
                if isinstance(y, Poly):
                    go(y)
    for p in ps:
        go(p)
    return [out[k] for k in sorted(out)]


def cond_polys(c):
    if c[0] in ("ge", "eq", "ne"):
        return [c[1]]
    if c[0] in ("and", "or"):
        return [p for x in c[1] for p in cond_polys(x)]
    return []


def prove(a, b, facts, goal, budget, rel=True):
    """goal(a, b) under facts, splitting on estimate errors and carries"""
    budget[0] -= 1
    if budget[0] < 0:
        return False
    ctx = term.EMPTY.add(*facts)
    if ctx.infeasible():
        return True
    a, b = norm(a, ctx), norm(b, ctx)
    if goal(a, b, ctx):
        return True
    ps = [a, b] + [p for c in facts for p in cond_polys(c)]
    for A in beta_atoms(ps):
        for k in (0, 1):
            m = {A.id: const(k)}
            if not prove(subst(a, m), subst(b, m), [subst_cond(c, m) for c in facts], goal, budget):
                return False
        return True
    s = small_rem(ps)
    if s is None:
        return False
    A, j0, j1 = s
    X, C = A.args
    for j in range(j0, j1 + 1):
        r = X - C * j
        m = {A.id: r}
        fs = [subst_cond(c, m) for c in facts] + [ge(r), ge(C - 1 - r)]
        if any(f == F for f in fs):
            continue
        if not prove(subst(a, m), subst(b, m), fs, goal, budget):
            return False
    return True


def subst_mono(x, mono, repl, memo):
    """replace the monomial mono by repl throughout x"""
    if isinstance(x, Poly):
        out = ZERO
        for m, c in x.d.items():
            if m == mono:
                out = out + repl.scale(c)
                continue
            t = const(c)
            for a in m:
                A = term.atom_by_id(a)
                if (a,) == mono:
                    t = t * repl
                    continue
                r = memo.get(a)
                if r is None:
                    if A.kind in term.BINDERS or A.kind in ("opq", "var", "bound"):
                        r = P(A)
                    else:
                        args = tuple(subst_mono(y, mono, repl, memo) for y in A.args)
                        r = P(A) if args == A.args else term.rebuild(A, args)
                    memo[a] = r
                t = t * r
            out = out + t
        return out
    if isinstance(x, tuple):
        return tuple(subst_mono(y, mono, repl, memo) for y in x)
    return x


def subst_mono_cond(c, mono, repl, memo):
    k = c[0]
    if k in ("ge", "eq", "ne"):
        return {"ge": ge, "eq": eq, "ne": ne}[k](subst_mono(c[1], mono, repl, memo))
    if k in ("and", "or"):
        parts = [subst_mono_cond(x, mono, repl, memo) for x in c[1]]
        return conj(parts) if k == "and" else disj(parts)
    return c


def rem_groups(ps):
    """constant moduli by which a plain variable or product is reduced: monomial -> set of moduli"""
    out = {}
    seen = set()

    def go(p):
        for a in p.atoms():
            if a in seen:
                continue
            seen.add(a)
            A = term.atom_by_id(a)
            if A.kind in term.BINDERS:
                continue
            for y in A.args:
                if isinstance(y, Poly):
                    go(y)
            if A.kind == "rem" and A.args[1].is_const() and len(A.args[0].d) == 1:
                (m, c), = A.args[0].d.items()
                if c == 1 and m and all(term.atom_by_id(x).kind in ("var", "sel") or term.atom_by_id(x).kind == "fn" and term.atom_by_id(x).args[0] == "inv" for x in m):
                    out.setdefault(m, set()).add(A.args[1].cval())
    for p in ps:
        go(p)
    return out


def limbs(a, b, facts):
    """X with X mod m1, X mod m2, ... (m1 | m2 | ...) becomes l0 + m1 l1 + m2 l2 + ..."""
    ps = [a, b] + [p for c in facts for p in cond_polys(c)]
    for m, mods in sorted(rem_groups(ps).items()):
        ms = sorted(x for x in mods if x & (x - 1) == 0)
        if not ms:
            continue
        X = Poly({m: 1})
        lo, hi = X.bounds()
        if lo is None or hi is None or lo < 0:
            continue
        tot, base = ZERO, 1
        for i, mm in enumerate(ms + [None]):
            top = (mm // base - 1) if mm else hi // base
            tot = tot + term.fresh("limb", 0, top).scale(base) if top > 0 else tot
            base = mm
        memo = {}
        a, b = subst_mono(a, m, tot, memo), subst_mono(b, m, tot, memo)
        facts = [subst_mono_cond(c, m, tot, memo) for c in facts]
    return a, b, facts


def deep(a, b, ctx, goal=goal_eq, limit=300):
    if not (isinstance(a, Poly) and isinstance(b, Poly)):
        return False
    R = Rules(ctx)
    a2, b2 = R.value(a), R.value(b)
    facts = R.conds(ctx.facts)
    try:
        a2, b2, facts = limbs(a2, b2, facts)
        return prove(a2, b2, [c for c in facts if c != T], goal, [limit])
    except RecursionError:
        return False
