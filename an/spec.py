"""Comparing an abstract result with its specification.

Both sides are values of the abstract domain (gated choices over polynomial normal forms).  They are compared
case by case at one generic index.  Equal normal forms in every feasible case: the obligation is discharged.
Different normal forms over interpreted atoms only: a valuation of the atoms (an instance of the inputs satisfying
the facts of the case) under which the two terms denote different numbers is searched for; if one exists, the
function is reported with that instance.  Anything else is undecided and never reported."""
import hashlib, random
import term
from term import *
from values import *
import engine
from interp import St


class Unknown(Exception):
    pass


class Val:
    """a valuation: vars by id, sequence entries by hash"""

    def __init__(self, seed, fixed=None):
        self.seed = seed
        self.v = dict(fixed or {})
        self.memo = {}
        self.cost = 0
        self.extreme = False        # every operand as large as possible

    def h(self, *k):
        m = hashlib.blake2b(repr((self.seed,) + k).encode(), digest_size=8).digest()
        return int.from_bytes(m, "little")

    def pick(self, lo, hi, *k):
        x = self.h(*k)
        if lo is None:
            lo = 0 if hi is None or hi >= 0 else hi - 10
        if hi is None:
            hi = lo + 40
        if hi < lo:
            raise Unknown("empty domain")
        mode = x % 8
        y = x >> 3
        if self.extreme and hi > lo + 1:
            return hi if k[0] == "sel" or y % 3 else hi - 1
        if mode == 0:
            return lo
        if mode == 1:
            return hi
        if mode == 2:
            return min(hi, lo + 1)
        if mode == 3:
            return max(lo, hi - 1)
        if mode == 4:
            return lo + y % min(hi - lo + 1, 8)
        if mode == 5:
            return max(lo, hi - y % 8)
        w = self.h("w", *k) | (x << 64)
        if mode == 6 and hi - lo > 1 << 20 and y & 1:
            # words made of extreme parts
            r, z = 0, self.h("limb", *k)
            u = 8 if y & 2 else 32
            while r <= hi:
                t = z % 6
                z //= 6
                r = (r << u) | ((0, (1 << u) - 1, 1, (1 << u) - 2, w & ((1 << u) - 1), (1 << u) - 1)[t])
                w = self.h("w2", r, *k)
            r >>= u
            if lo <= r <= hi:
                return r
        return lo + w % (hi - lo + 1)

    def poly(self, p, env):
        t = 0
        for m, c in p.d.items():
            x = c
            for a in m:
                if x == 0:
                    break
                x = x * self.atom(term.atom_by_id(a), env)
            t = t + x
        if isinstance(t, Fraction_):
            t = canon(t)
        return t

    def x(self, y, env):
        if isinstance(y, Poly):
            return self.poly(y, env)
        if isinstance(y, tuple):
            if is_bool(y):
                return self.cond(y, env)
            return tuple(self.x(z, env) for z in y)
        return y

    def atom(self, A, env):
        if A.id in self.v:
            return self.v[A.id]
        if A.kind == "bound":
            if A.id not in env:
                raise Unknown("free bound")
            return env[A.id]
        closed = not any(i in A.deps for i in env)
        if closed and A.id in self.memo:
            return self.memo[A.id]
        self.cost += 1
        if self.cost > 60000:
            raise Unknown("cost")
        r = self.atom1(A, env)
        if closed:
            self.memo[A.id] = r
        return r

    def dom(self, A, env):
        lo = self.poly(A.lo, env) if isinstance(A.lo, Poly) else A.nlo
        hi = self.poly(A.hi, env) if isinstance(A.hi, Poly) else A.nhi
        return lo, hi

    def atom1(self, A, env):
        k = A.kind
        if k == "opq":
            raise Unknown("opq")
        if k == "var":
            raise Unknown("free var " + A.args[0])
        if k == "sel":
            idx = tuple(self.poly(i, env) if isinstance(i, Poly) else i for i in A.args[1:])
            lo, hi = self.dom(A, env)
            if str(A.args[0]).endswith(".len"):
                return self.pick(1, 8, "sel", A.args[0], idx)
            return self.pick(lo, hi, "sel", A.args[0], idx)
        if k == "rem":
            c = self.poly(A.args[1], env)
            if c <= 0:
                raise Unknown("rem by %s" % c)
            x = self.poly(A.args[0], env)
            return x % c
        if k == "quo":
            c = self.poly(A.args[1], env)
            if c <= 0:
                raise Unknown("quo by %s" % c)
            return self.poly(A.args[0], env) // c
        if k == "pow":
            b, e = self.poly(A.args[0], env), self.poly(A.args[1], env)
            if e < 0 or (e > 2000 and abs(b) > 1) or not isinstance(e, int):
                raise Unknown("pow")
            return b ** e
        if k == "ind":
            return 1 if self.cond(A.args[0], env) else 0
        if k == "sum":
            n = self.poly(A.args[1], env)
            if n > 200 or n < 0:
                raise Unknown("sum length %s" % n)
            bv = term.own_var(A)
            t = 0
            for i in range(n):
                e = dict(env)
                e[bv.id] = i
                t += self.poly(A.args[0], e)
            return t
        if k == "mu":
            n = self.poly(A.args[1], env)
            if n > 400 or n < 0:
                raise Unknown("mu length %s" % n)
            bv = term.own_var(A)
            for i in range(n):
                e = dict(env)
                e[bv.id] = i
                if self.poly(A.args[0], e):
                    return i
            return n
        if k == "lin":
            op, q, n, body, j = A.args
            q, n, j = self.poly(q, env), self.poly(n, env), self.poly(j, env)
            if n > 16 or n < 1:
                raise Unknown("lin length")
            row = transform_matrix(op, q, n)
            if row is None or not 0 <= j < n:
                raise Unknown("transform")
            bv = term.own_var(A)
            t = 0
            for i in range(n):
                e = dict(env)
                e[bv.id] = i
                t += self.poly(body, e) * row[j][i]
            return t % q
        if k == "fn":
            nm = A.args[0]
            args = [self.x(y, env) for y in A.args[1:]]
            if nm == "min":
                return min(args)
            if nm == "max":
                return max(args)
            if nm in ("and", "or", "xor"):
                a, b = args[0], args[1]
                if a < 0 or b < 0:
                    raise Unknown(nm)
                return a & b if nm == "and" else a | b if nm == "or" else a ^ b
            if nm in INTERP:
                if not all(isinstance(y, int) and y >= 0 for y in args):
                    raise Unknown(nm)
                return INTERP[nm](*args)
            if nm not in ("lazybit", "unif"):
                raise Unknown("fn " + nm)
            lo, hi = self.dom(A, env)
            return self.pick(lo, hi, "fn", nm, tuple(args))
        if k == "unif":
            args = [self.poly(y, env) for y in A.args]
            if args[2] <= 0:
                raise Unknown("unif")
            return self.pick(0, args[2] - 1, "unif", tuple(args))
        raise Unknown(k)

    def cond(self, c, env=None):
        env = env or {}
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "ge":
            return self.poly(c[1], env) >= 0
        if k == "eq":
            return self.poly(c[1], env) == 0
        if k == "ne":
            return self.poly(c[1], env) != 0
        if k == "and":
            return all(self.cond(x, env) for x in c[1])
        if k == "or":
            return any(self.cond(x, env) for x in c[1])
        if k in ("ob", "nb"):
            if c[1] == "badnormal" or c[1] == "flLt" and len(c) > 3 and c[3] == ("fl", "const", "0" * 16):
                return k == "nb"        # parameters for which the noise distribution exists
            if c[1] == "pow2":
                x = self.poly(c[2], env)
                return (x > 0 and x & (x - 1) == 0) == (k == "ob")
            if c[1] != "sym":
                raise Unknown("ob " + str(c[1]))
            b = bool(self.h("ob", c[1], tuple(self.x(y, env) for y in c[2:])) & 1)
            return b if k == "ob" else not b
        raise Unknown(k)


from fractions import Fraction as Fraction_  # noqa: E402


def inv_fn(x, q):
    try:
        return pow(x, -1, q)
    except ValueError:
        raise Unknown("inv")


INTERP = {
    "lz": lambda w, x: w - x.bit_length(), "leading_zeros": lambda w, x: w - x.bit_length(),
    "trailing_zeros": lambda w, x: w if x == 0 else (x & -x).bit_length() - 1, "log2": lambda x: x.bit_length() - 1,
    "ilog2": lambda w, x: x.bit_length() - 1, "count_ones": lambda w, x: bin(x).count("1"),
    "reverse_bits": lambda w, x: int(bin(x)[2:].zfill(w)[::-1], 2), "next_power_of_two": lambda w, x: 1 << max(x - 1, 0).bit_length(),
    "inv": inv_fn,
}


_tm = {}


def transform_matrix(op, q, n):
    """the negacyclic number-theoretic transform of length n over Z_q and its inverse, as matrices (slot order as
    evaluated at psi^1, psi^3, ...: a fixed permutation of the library's order)"""
    k = (op, q, n)
    if k not in _tm:
        m = None
        if n & (n - 1) == 0 and (q - 1) % (2 * n) == 0 and op in ("ntt", "intt"):
            for g in range(2, 200):
                w = pow(g, (q - 1) // (2 * n), q)
                if pow(w, n, q) == q - 1:
                    if op == "ntt":
                        m = [[pow(w, (2 * j + 1) * i, q) for i in range(n)] for j in range(n)]
                    else:
                        ni = pow(n, -1, q)
                        m = [[ni * pow(w, -(2 * i + 1) * j, q) % q for i in range(n)] for j in range(n)]
                    break
        _tm[k] = m
    return _tm[k]


def has_lin(p):
    return any(alin(term.atom_by_id(a)) for a in p.atoms())


_al = {}


def alin(A):
    r = _al.get(A.id)
    if r is None:
        r = A.kind == "lin" or any(xlin(y) for y in A.args)
        _al[A.id] = r
    return r


def xlin(y):
    if isinstance(y, Poly):
        return has_lin(y)
    if isinstance(y, Atom):
        return alin(y)
    if isinstance(y, tuple):
        return any(xlin(z) for z in y)
    return False


def free_vars(ps, conds, out=None):
    """var atoms occurring free (also in bounds of vars)"""
    out = {} if out is None else out

    def pa(A):
        if A.id in out or A.id in seen:
            return
        seen.add(A.id)
        if A.kind == "var":
            out[A.id] = A
        for y in A.args:
            px(y)
        for y in (A.lo, A.hi):
            if isinstance(y, Poly):
                px(y)

    def px(y):
        if isinstance(y, Poly):
            for a in y.atoms():
                pa(term.atom_by_id(a))
        elif isinstance(y, tuple):
            for z in y:
                px(z)
        elif isinstance(y, Atom):
            pa(y)
    seen = set()
    for p in ps:
        px(p)
    for c in conds:
        px(c)
    return out


def valuations(ps, ctx, tries=400, seed0=1, hints=None, assume=()):
    """valuations of the atoms of ps satisfying ctx"""
    facts = list(ctx.facts) + list(assume)
    V = free_vars(ps, facts)
    order = sorted(V)
    sub = ctx.eqsub()
    rng = random.Random(seed0)
    for t in range(tries):
        val = Val(seed0 * 100003 + t)
        val.extreme = t % 9 == 8
        ok = True
        pend = [i for i in order if i not in sub]
        late = [i for i in order if i in sub]
        try:
            for i in pend:
                A = V[i]
                lo, hi = A.nlo, A.nhi
                try:
                    lo2, hi2 = val.dom(A, {})
                    lo, hi = lo2, hi2
                except Unknown:
                    pass
                # tighten by facts whose other variables are known
                for c in facts:
                    if c[0] != "ge" or i not in c[1].deps():
                        continue
                    k = c[1].d.get((i,))
                    if k is None or any(i in term.atom_by_id(a).deps for m in c[1].d if m != (i,) for a in m):
                        continue
                    rest = Poly({m: v for m, v in c[1].d.items() if m != (i,)})
                    try:
                        r = val.poly(rest, {})
                    except Unknown:
                        continue
                    if k > 0:
                        b = -((r) // k) if True else 0
                        b = -(r // k) if r % k == 0 else -(r // k)
                        lo = b if lo is None else max(lo, b)
                    else:
                        b = r // (-k)
                        hi = b if hi is None else min(hi, b)
                name = A.args[0]
                if hints and name in hints:
                    val.v[i] = rng.choice(hints[name])
                    continue
                if A.pow2:
                    cands = [1 << e for e in range(0, 12) if (lo is None or (1 << e) >= lo) and (hi is None or (1 << e) <= hi)]
                    if not cands:
                        ok = False
                        break
                    val.v[i] = rng.choice(cands[:4])
                    continue
                if lo is not None and hi is not None and hi < lo:
                    ok = False
                    break
                if name.endswith(".len") or name.endswith(".n"):
                    l = max(lo or 0, 1)
                    if t % 9 > 6:
                        l = min(rng.randint(l, l + 60), hi if hi is not None else l + 60)
                    val.v[i] = rng.randint(l, max(l, min(hi if hi is not None else 8, l + 7)))
                    continue
                val.v[i] = val.pick(lo, hi, "var", i)
            if not ok:
                continue
            for i in late:
                x = val.poly(sub[i], {})
                val.v[i] = x
            for i in order:
                A = V[i]
                x = val.v[i]
                if not isinstance(x, int):
                    ok = False
                    break
                lo, hi = val.dom(A, {})
                if (lo is not None and x < lo) or (hi is not None and x > hi) or (A.pow2 and (x <= 0 or x & (x - 1))):
                    ok = False
                    break
            if not ok:
                continue
            if all(val.cond(c) for c in facts):
                yield val, V
        except Unknown:
            continue


def cases(a, b, ctx, out, budget=None):
    """feasible leaf pairs"""
    budget = budget if budget is not None else [400]
    budget[0] -= 1
    if budget[0] < 0:
        raise Unknown("too many cases")
    for x, sw in ((a, 0), (b, 1)):
        if isinstance(x, Ch):
            for c, y in ((x.c, x.a), (neg(x.c), x.b)):
                r = ctx.decide(c)
                if r is False:
                    continue
                cx = ctx.add(c)
                if r is None and cx.infeasible():
                    continue
                if sw == 0:
                    cases(y, b, cx, out, budget)
                else:
                    cases(a, y, cx, out, budget)
            return
    if isinstance(a, Agg) and len(a.f) == 1 and not (isinstance(b, Agg)):
        return cases(a.f[0], b, ctx, out, budget)
    if isinstance(b, Agg) and len(b.f) == 1 and not (isinstance(a, Agg)):
        return cases(a, b.f[0], ctx, out, budget)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if len(a.f) != len(b.f) or (a.var or 0) != (b.var or 0):
            out.append((ctx, a, b, "shape"))
            return
        for x, y in zip(a.f, b.f):
            cases(x, y, ctx, out, budget)
        return
    out.append((ctx, a, b, None))


def norm(p, ctx):
    p = ctx.simp(p)
    return vsubst_ctx(p, ctx)


def vsubst_ctx(p, ctx, depth=0):
    """re-normalise the atoms of p under ctx (rem/quo/ind become exact)"""
    out = ZERO
    ch = False
    for m, c in p.d.items():
        t = const(c)
        for a in m:
            A = term.atom_by_id(a)
            r = re_atom(A, ctx, depth)
            if r is not A:
                ch = True
                t = t * r
            else:
                t = t * P(A)
        out = out + t
    if ch and depth < 4:
        return vsubst_ctx(out, ctx, depth + 1)
    return out


def re_atom(A, ctx, depth):
    k = A.kind
    if k == "ind":
        r = ctx.decide(A.args[0])
        if r is True:
            return ONE
        if r is False:
            return ZERO
        return A
    if k in ("rem", "quo"):
        e = vsubst_ctx(A.args[0], ctx, depth + 1) if depth < 3 else A.args[0]
        r = (mk_rem if k == "rem" else mk_quo)(e, A.args[1], ctx)
        return A if r == P(A) else r
    if k == "fn" and A.args[0] in ("min", "max"):
        r = (mk_min if A.args[0] == "min" else mk_max)(A.args[1], A.args[2], ctx)
        return A if r == P(A) else r
    return A


def equal_leaf(a, b, ctx):
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a == b:
            return True
        d = norm(a - b, ctx)
        if d == ZERO:
            return True
        if norm(a, ctx) == norm(b, ctx):
            return True
        if ctx.decide(eq(d)) is True:
            return True
        return eq_rem(norm(a, ctx), norm(b, ctx), ctx)
    if is_bool(a) and is_bool(b):
        if a == b:
            return True
        x, y = ctx.decide(a), ctx.decide(b)
        if x is not None and x == y:
            return True
        if ctx.add(a).decide(b) is True and ctx.add(b).decide(a) is True:
            return True
        return False
    return same(a, b)


def eq_rem(a, b, ctx):
    """both sides are residues of the same modulus: congruent arguments suffice"""
    A, B = single_atom(a), single_atom(b)
    for X, Y, x, y in ((A, B, a, b), (B, A, b, a)):
        if X is not None and X.kind == "rem":
            q = X.args[1]
            if Y is not None and Y.kind == "rem" and Y.args[1] == q:
                if ctx.decide(eq(mk_rem(X.args[0] - Y.args[0], q, ctx))) is True:
                    return True
            elif term.in_range(y, q, ctx):
                if ctx.decide(eq(mk_rem(X.args[0] - y, q, ctx))) is True:
                    return True
    return False


def describe(val, V, ps):
    names = []
    for i in sorted(V):
        n = V[i].args[0]
        if i in val.v:
            names.append("%s=%s" % (n, val.v[i]))
    sels = []
    for a, x in list(val.memo.items()):
        A = term.atom_by_id(a)
        if A.kind == "sel" and len(sels) < 8:
            sels.append("%s=%s" % (term.show_atom(A), x))
    return ", ".join(names + sels)


class Spec:
    """obligations of one check"""

    def __init__(self, prog, rep, tries=400):
        self.prog, self.rep, self.tries = prog, rep, tries
        self.hints = None
        self.deep = None          # further ways to show two leaves equal

    def find(self, *subs, where=None):
        return [f for f in self.prog.wsfns if all(s in f.name for s in subs) and "{closure" not in f.name and (where is None or where(f))]

    def compare(self, key, fn, what, got, want, ctx, assume=()):
        """got = want in every case under ctx"""
        st, why = self.decide(got, want, ctx, assume)
        self.report(key, fn, what, st, why)
        return st

    def report(self, key, fn, what, st, why):
        if st is True:
            self.rep.ok(key, what)
        elif st is False:
            self.rep.bad(key, "%s (%s): %s: %s" % (fn.name, fn.where(), what, why))
        else:
            self.rep.unknown(key, "%s: %s" % (what, why))

    def decide(self, got, want, ctx, assume=()):
        if assume:
            ctx = ctx.add(*assume)
        if has_opq(got):
            return None, "abstract result is unknown: %s" % vshow(got)[:160]
        out = []
        try:
            cases(got, want, ctx, out)
        except Unknown as e:
            return None, str(e)
        und = None
        for cx, a, b, why in out:
            if why is None and equal_leaf(a, b, cx):
                continue
            if why is None and self.deep is not None and self.deep(a, b, cx):
                continue
            if why == "shape" or not (isinstance(a, Poly) and isinstance(b, Poly) or is_bool(a) and is_bool(b)):
                und = und or "different shapes %s / %s" % (vshow(a)[:80], vshow(b)[:80])
                if why == "shape":
                    w = self.inhabited(cx)
                    if w:
                        return False, "result shape %s instead of %s for %s" % (vshow(a)[:60], vshow(b)[:60], w)
                continue
            w = self.refute(a, b, cx)
            if w:
                return False, w
            und = und or "cannot show %s = %s under %s" % (vshow(a)[:200], vshow(b)[:200], [show_cond(c)[:80] for c in cx.facts][:8])
        return (None, und) if und else (True, "%d cases" % len(out))

    def inhabited(self, cx):
        for val, V in valuations([], cx, self.tries, hints=self.hints):
            return describe(val, V, [])
        return None

    def refute(self, a, b, cx):
        for val, V in valuations([a, b], cx, self.tries, hints=self.hints):
            try:
                if isinstance(a, Poly):
                    x, y = val.poly(a, {}), val.poly(b, {})
                else:
                    x, y = val.cond(a), val.cond(b)
            except Unknown:
                continue
            if x != y:
                return "computes %s where %s is required (%s instead of %s, e.g. for %s)" % (vshow(a)[:220], vshow(b)[:220], x, y, describe(val, V, [a, b])[:300])
        return None

    def compare_seq(self, key, fn, what, got, n, want, ctx, assume=()):
        """got is a sequence of length n with entry j = want(j)"""
        cx = ctx.add(*assume) if assume else ctx
        got = prune(got, cx)
        if isinstance(got, Agg) and len(got.f) == 1:
            got = got.f[0]
        if not isinstance(got, Seq):
            self.rep.unknown(key, "%s: not a sequence: %s" % (what, vshow(got)[:120]))
            return None
        st, why = self.decide(got.n, n, cx)
        if st is not True:
            self.report(key, fn, what + " (length)", st, why)
            return st
        j = term.mk_atom("var", ("index j of the result",), 0)
        cj = cx.add(lt(P(j), n))
        g = got.read(P(j), cj)
        g = prune(g, cj)
        return self.compare(key, fn, what, g, want(P(j)), cj)


def run(I, fn, over=None, names=None, facts=(), st=None):
    st = st or St({}, term.EMPTY)
    if facts:
        st.ctx = st.ctx.add(*facts)
    vals = engine.args_for(I, st, fn, over(I, st) if callable(over) else over, names)
    before = dict(st.mem)
    r = I.exec_fn(fn, vals, st)
    return vals, before, r
