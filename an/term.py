"""Symbolic terms of the abstract domain: polynomials over bounded integer atoms, conditions, and a
small entailment procedure (interval bounds, bound substitution, linear use of known facts).

All terms denote mathematical integers (polynomials may have rational coefficients but denote
integers).  Machine wrap-around appears as explicit `rem` atoms."""
from fractions import Fraction

INF = None


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "nlo", "nhi", "pow2", "deps")

    def __repr__(self):
        return show_atom(self)


_atoms = {}
_list = []


def _num_bounds(lo, hi):
    nlo = lo.bounds()[0] if isinstance(lo, Poly) else lo
    nhi = hi.bounds()[1] if isinstance(hi, Poly) else hi
    return nlo, nhi


def mk_atom(kind, args, lo=None, hi=None, pow2=False):
    """lo/hi: Poly or None"""
    key = (kind, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(_list)
    a.kind = kind
    a.args = args
    if isinstance(lo, int):
        lo = const(lo)
    if isinstance(hi, int):
        hi = const(hi)
    a.lo, a.hi = lo, hi
    a.nlo, a.nhi = _num_bounds(lo, hi)
    a.pow2 = pow2
    a.deps = frozenset({a.id}).union(*[_adeps(x) for x in args]) if args else frozenset({a.id})
    _atoms[key] = a
    _list.append(a)
    return a


def _adeps(x):
    if isinstance(x, Poly):
        return x.deps()
    if isinstance(x, Atom):
        return x.deps
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _adeps(y)
        return r
    return frozenset()


def atom_by_id(i):
    return _list[i]


def canon(q):
    if isinstance(q, Fraction) and q.denominator == 1:
        return q.numerator
    return q


class Poly:
    __slots__ = ("d", "_h", "_b", "_deps")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._b = None
        self._deps = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.d == o.d)

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), 0)

    def __add__(self, o):
        o = P(o)
        if not self.d:
            return o
        if not o.d:
            return self
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = canon(v)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, q):
        if q == 0:
            return ZERO
        if q == 1:
            return self
        return Poly({m: canon(c * q) for m, c in self.d.items()})

    def __mul__(self, o):
        o = P(o)
        if o.is_const():
            return self.scale(o.cval())
        if self.is_const():
            return o.scale(self.cval())
        d = {}
        special = False
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2))
                v = d.get(m, 0) + c1 * c2
                if v == 0:
                    d.pop(m, None)
                else:
                    d[m] = canon(v)
        r = Poly(d)
        return normalise(r)

    __rmul__ = __mul__

    def atoms(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    def deps(self):
        if self._deps is None:
            r = frozenset()
            for a in self.atoms():
                r |= _list[a].deps
            self._deps = r
        return self._deps

    def integral(self):
        return all(isinstance(c, int) for c in self.d.values())

    def bounds(self):
        """numeric interval (None = unbounded)"""
        if self._b is None:
            lo = 0
            hi = 0
            for m, c in self.d.items():
                l, h = mono_bounds(m)
                if c < 0:
                    l, h = h, l
                if lo is not None:
                    lo = None if l is None else lo + c * l
                if hi is not None:
                    hi = None if h is None else hi + c * h
            self._b = (lo, hi)
        return self._b

    def __repr__(self):
        return show(self)


def mono_bounds(m):
    lo, hi = 1, 1
    for a in m:
        A = _list[a]
        l, h = A.nlo, A.nhi
        lo, hi = (l, h) if lo == 1 and hi == 1 else imul(lo, hi, l, h)
    return lo, hi


def imul(a, b, c, d):
    # intervals [a,b]*[c,d], None = infinite
    if a is not None and a >= 0 and c is not None and c >= 0:
        return a * c, (None if b is None or d is None else b * d)
    if None in (a, b, c, d):
        return None, None
    v = (a * c, a * d, b * c, b * d)
    return min(v), max(v)


ZERO = Poly({})


def const(c):
    c = canon(c)
    return Poly({(): c}) if c else ZERO


ONE = const(1)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({(x.id,): 1})
    if isinstance(x, (int, Fraction)):
        return const(x)
    raise TypeError(repr(type(x)))


def var(name, lo=None, hi=None, pow2=False):
    return P(mk_atom("var", (name,), lo, hi, pow2))


_fresh = [0]


def fresh(name, lo=None, hi=None, pow2=False):
    _fresh[0] += 1
    return var("%s#%d" % (name, _fresh[0]), lo, hi, pow2)


def single_atom(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1:
            return _list[m[0]]
    return None


def normalise(p):
    """c * quo(E, c) -> E - rem(E, c)"""
    hit = None
    for m in p.d:
        if len(m) < 2:
            continue
        for a in m:
            A = _list[a]
            if A.kind == "quo":
                c = single_atom(A.args[1])
                if c is not None and c.id in m:
                    hit = (m, A, c)
                    break
        if hit:
            break
    if not hit:
        return p
    m, A, c = hit
    rest = list(m)
    rest.remove(A.id)
    rest.remove(c.id)
    coef = p.d[m]
    d = dict(p.d)
    del d[m]
    E, C = A.args
    rep = (E - mk_rem(E, C)) * Poly({tuple(rest): coef})
    return normalise(Poly(d) + rep)


def split_by(E, c):
    """E = c*A + B for a symbolic c that is a single atom or monomial; returns A, B"""
    a = single_atom(c)
    if a is None:
        # try a single monomial with coefficient
        if len(c.d) == 1:
            (m, k), = c.d.items()
            if m:
                A, B = {}, {}
                for mm, kk in E.d.items():
                    r = mono_div(mm, m)
                    if r is not None and isinstance(kk, int) and kk % k == 0:
                        A[r] = kk // k
                    else:
                        B[mm] = kk
                return Poly(A), Poly(B)
        return None, E
    A, B = {}, {}
    for m, k in E.d.items():
        if a.id in m and isinstance(k, int):
            r = list(m)
            r.remove(a.id)
            A[tuple(r)] = k
        else:
            B[m] = k
    return Poly(A), Poly(B)


def pow2_exp(p):
    """y if p is the atom 2^y"""
    A = single_atom(p)
    if A is not None and A.kind == "pow" and A.args[0].is_const() and A.args[0].cval() == 2:
        return A.args[1]
    return None


def split_pow(E, c, ctx=None):
    """E = c*A + B where c = k0*2^y: terms with a factor 2^x, x >= y, and a coefficient divisible by k0 are multiples of c"""
    y, k0 = pow2_exp(c), 1
    if y is None:
        if len(c.d) == 1:
            (m, k0), = c.d.items()
            if len(m) == 1 and isinstance(k0, int) and k0 > 0:
                y = pow2_exp(Poly({m: 1}))
        if y is None:
            return ZERO, E
    A, B = ZERO, {}
    cx = ctx or EMPTY
    for m, k in E.d.items():
        hit = None
        for i in m:
            x = _list[i]
            if x.kind == "pow" and x.args[0].is_const() and x.args[0].cval() == 2 and (k0 != 1 or x.args[1] != y) and isinstance(k, int) and k % k0 == 0 and cx.ge0(x.args[1] - y):
                hit = i
                break
        if hit is None:
            B[m] = k
        else:
            r = list(m)
            r.remove(hit)
            A = A + Poly({tuple(r): k // k0}) * mk_pow(const(2), _list[hit].args[1] - y)
    return A, Poly(B)


def drop_pows(E, k, ctx):
    """terms with a factor 2^x, x >= k, are multiples of 2^k"""
    bad = None
    for m, c in E.d.items():
        if not isinstance(c, int):
            continue
        for i in m:
            x = _list[i]
            if x.kind == "pow" and x.args[0].is_const() and x.args[0].cval() == 2 and (x.nlo is not None and x.nlo >= 1 << k or (ctx is not None and ctx.ge0(x.args[1] - k))):
                bad = bad or set()
                bad.add(m)
                break
    return E if bad is None else Poly({m: c for m, c in E.d.items() if m not in bad})


def mono_div(m, by):
    r = list(m)
    for a in by:
        if a in r:
            r.remove(a)
        else:
            return None
    return tuple(r)


def strip_rem(E, c):
    """replace rem atoms modulo a multiple of c by their argument inside E (mod c), where allowed"""
    for _ in range(50):
        hit = None
        for m, k in E.d.items():
            if not isinstance(k, int):
                continue
            for a in m:
                A = _list[a]
                if A.kind == "rem" and divides(c, A.args[1]) :
                    hit = A
                    break
            if hit:
                break
        if hit is None:
            if c.is_const():
                # k (X mod m) = k X modulo c when c divides k m
                for m, k in E.d.items():
                    if len(m) == 1 and isinstance(k, int) and k not in (1, -1):
                        A = _list[m[0]]
                        if A.kind == "rem" and A.args[1].is_const() and k * A.args[1].cval() % c.cval() == 0:
                            d = dict(E.d)
                            del d[m]
                            hit = Poly(d) + A.args[0].scale(k)
                            break
            if hit is None:
                return E
            E = hit
            continue
        # the atom may also appear with fractional coefficients elsewhere: only replace integral ones
        keep, rep = {}, {}
        for m, k in E.d.items():
            if hit.id in m and isinstance(k, int):
                rep[m] = k
            else:
                keep[m] = k
        X = hit.args[0]
        if not X.integral():
            # still an integer valued expression, multiplication with integer monomials is fine
            pass
        out = Poly(keep)
        for m, k in rep.items():
            rest = list(m)
            n = rest.count(hit.id)
            rest = [a for a in rest if a != hit.id]
            t = Poly({tuple(rest): k})
            for _ in range(n):
                t = t * X
            out = out + t
        if out.d == E.d:
            return E
        E = out
        if len(E.d) > 400:
            return E
    return E


def divides(c, C):
    if c == C:
        return True
    if c.is_const() and C.is_const():
        a, b = c.cval(), C.cval()
        return isinstance(a, int) and isinstance(b, int) and a != 0 and b % a == 0
    if C.is_const():
        A = single_atom(c)
        b = C.cval()
        if A is not None and A.kind == "pow" and A.args[0].is_const() and A.args[0].cval() == 2 and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
            lo, hi = A.args[1].bounds()      # 2^e divides 2^m for e <= m
            return lo is not None and hi is not None and lo >= 0 and hi <= b.bit_length() - 1
    return False


def red_coefs(E, c):
    d = {}
    for m, k in E.d.items():
        r = k % c
        if r == 0:
            continue
        if r * 2 > c:
            r -= c
        d[m] = canon(r)
    return Poly(d)


def log_mono(p):
    """exponent e of p = 2^e, None if p is not a power of two by construction"""
    if len(p.d) != 1:
        return None
    (m, c), = p.d.items()
    if not isinstance(c, int) or c <= 0 or c & (c - 1):
        return None
    e = const(c.bit_length() - 1)
    for i in m:
        A = _list[i]
        if A.kind != "pow" or not A.args[0].is_const() or A.args[0].cval() != 2:
            return None
        e = e + A.args[1]
    return e


def in_range(E, c, ctx=None):
    """0 <= E < c provable?"""
    lo, hi = E.bounds()
    if c.is_const():
        if lo is not None and hi is not None and lo > -1 and hi < c.cval():
            return True
        if ctx is not None and len(E.d) == 1:
            # k 2^e < c: the exponent is small
            (m, k), = E.d.items()
            if len(m) == 1 and isinstance(k, int) and k > 0 and _list[m[0]].kind == "pow" and _list[m[0]].args[0] == const(2):
                t = (c.cval() - 1) // k
                if t > 0 and ctx.ge0(const(t.bit_length() - 1) - _list[m[0]].args[1]):
                    return True
    else:
        ec = log_mono(c)
        ee = log_mono(E) if ec is not None else None
        if ee is not None and (ctx or EMPTY).ge0(ec - ee - 1):
            return True
    if ctx is not None:
        return ctx.ge0(E) and ctx.ge0(c - E - 1)
    return EMPTY.ge0(E) and EMPTY.ge0(c - E - 1)


def mk_rem(E, c, ctx=None):
    E, c = P(E), P(c)
    if c.is_const():
        cv = c.cval()
        if cv == 1:
            return ZERO
        if E.is_const():
            return const(E.cval() % cv)
        if in_range(E, c, ctx):
            return E
        E1 = strip_rem(E, c)
        E1 = red_coefs(E1, cv)
        if cv & (cv - 1) == 0:
            E1 = drop_pows(E1, cv.bit_length() - 1, ctx)
        if E1.is_const():
            return const(E1.cval() % cv)
        if in_range(E1, c, ctx):
            return E1
        lo, hi = E1.bounds()
        if lo is not None and hi is not None:
            j = lo // cv
            if hi < cv * (j + 1):
                return E1 - cv * j
        if not E1.integral():
            # (A - (A mod m)) / m mod c  =  ((A mod m c) - (A mod m)) / m
            for m, k in E1.d.items():
                if len(m) == 1 and not isinstance(k, int):
                    r1 = _list[m[0]]
                    if r1.kind == "rem" and r1.args[1].is_const() and k.numerator == -1 and k.denominator == r1.args[1].cval():
                        mv = k.denominator
                        A = E1.scale(mv) + P(r1)
                        if A.integral() and mk_rem(A, const(mv)) == P(r1):
                            return (mk_rem(A, const(mv * cv), ctx) - P(r1)).scale(Fraction(1, mv))
        return P(mk_atom("rem", (E1, c), 0, c - 1))
    A, B = split_by(E, c)
    B = strip_rem(B, c)
    A, B = split_by(B, c)
    A, B = split_pow(B, c, ctx)
    if in_range(B, c, ctx):
        return B
    if ctx is not None or True:
        cx = ctx or EMPTY
        if cx.ge0(B + c) and cx.ge0(-B - 1):
            return B + c
        if cx.ge0(B - c) and cx.ge0(c + c - B - 1):
            return B - c
    return P(mk_atom("rem", (B, c), 0, c - 1))


def mk_quo(E, c, ctx=None):
    """floor(E / c), c > 0"""
    E, c = P(E), P(c)
    if c.is_const():
        cv = c.cval()
        if cv == 1:
            return E
        r = mk_rem(E, c, ctx)
        return (E - r).scale(Fraction(1, cv))
    A, B = split_by(E, c)
    if A is None:
        A = ZERO
    A1, B = split_pow(B, c, ctx)
    A = A + A1
    cx = ctx or EMPTY
    if in_range(B, c, ctx):
        return A
    p = single_atom(c)
    if p is not None and p.kind == "pow" and p.args[0].is_const() and p.args[0].cval() == 2 and B.is_const():
        bv = B.cval() + 1
        if bv > 1 and bv & (bv - 1) == 0:
            e = const(bv.bit_length() - 1) - p.args[1]
            if cx.ge0(e):
                return A + mk_pow(const(2), e) - 1
    if cx.ge0(B + c) and cx.ge0(-B - 1):
        return A - 1
    if cx.ge0(B - c) and cx.ge0(c + c - B - 1):
        return A + 1
    # x + y div c = (x div c) + ((x mod c) + y div c)
    for m in list(B.d):
        if len(m) == 1:
            r1 = _list[m[0]]
            if r1.kind == "rem" and r1.args[1] == c:
                x = r1.args[0]
                xa = single_atom(x)
                if xa is not None and B.d.get((xa.id,)) == 1:
                    B2 = B - x + P(r1)
                    if in_range(B2, c, ctx):
                        return A + mk_quo(x, c, ctx)
                    if cx.ge0(B2 + c) and cx.ge0(-B2 - 1):
                        return A + mk_quo(x, c, ctx) - 1
    lo = 0 if cx.ge0(B) else None
    hi = B if (lo == 0 and cx.ge0(c - 1)) else None
    if lo == 0 and len(B.d) == 1:
        (m, k), = B.d.items()
        if len(m) == 1 and isinstance(k, int) and k > 0:
            r1 = _list[m[0]]
            if (r1.kind == "rem" and r1.args[1] == c) or EMPTY.ge0(c - 1 - P(r1)):
                hi = const(k - 1)         # k r / c with r < c
        elif m == () and isinstance(k, int):
            clo = c.bounds()[0]
            if clo is not None and clo >= 1:
                hi = const(k // clo)
    return A + P(mk_atom("quo", (B, c), lo, hi))


def mk_pow(b, e):
    b, e = P(b), P(e)
    if e.is_const() and b.is_const() and e.cval() >= 0:
        return const(b.cval() ** e.cval())
    if e.is_const() and 0 <= e.cval() <= 4:
        r = ONE
        for _ in range(e.cval()):
            r = r * b
        return r
    if b == ONE:
        return ONE
    # split constant part of the exponent
    k = e.cval()
    if k and isinstance(k, int) and b.is_const() and k > 0 and ((e - k).bounds()[0] or 0) >= 0 and (e - k).bounds()[0] is not None:
        return mk_pow(b, e - k) * (b.cval() ** k)
    # pow(pow(b, x), e) -> pow(b, x*e)
    a = single_atom(b)
    if a is not None and a.kind == "pow":
        return mk_pow(a.args[0], a.args[1] * e)
    lo = 1 if b.bounds()[0] is not None and b.bounds()[0] >= 1 else (0 if b.bounds()[0] is not None and b.bounds()[0] >= 0 else None)
    hi = None
    if b.is_const() and isinstance(b.cval(), int) and b.cval() > 1 and isinstance(e.bounds()[0], int) and 0 < e.bounds()[0] <= 4096:
        lo = b.cval() ** e.bounds()[0]
    if b.is_const() and e.bounds()[1] is not None and e.bounds()[1] <= 4096:
        hi = b.cval() ** e.bounds()[1]
    p2 = b.is_const() and isinstance(b.cval(), int) and b.cval() > 0 and b.cval() & (b.cval() - 1) == 0
    return P(mk_atom("pow", (b, e), lo, hi, pow2=p2))


_seldom = {}


def set_sel_domain(name, lo, hi):
    _seldom[name] = (lo, hi)


def mk_sel(name, idxs):
    lo, hi = _seldom.get(name, (None, None))
    return P(mk_atom("sel", (name,) + tuple(idxs), lo, hi))


def mk_fn(name, args, lo=None, hi=None):
    return P(mk_atom("fn", (name,) + tuple(args), lo, hi))


_bv = [0]


def geometric(t, v, n):
    """sum of 2^(e +- v) over v in [0,n)"""
    A = single_atom(t)
    if A is None or A.kind != "pow" or A.args[0] != const(2):
        return None
    e = A.args[1]
    b = subst(e, {v.id: ZERO})
    if v.id in b.deps():
        return None
    if e - b == P(v):
        return mk_pow(const(2), b + n) - mk_pow(const(2), b)
    if e - b == -P(v):
        return mk_pow(const(2), b + 1) - mk_pow(const(2), b + 1 - n)
    return None


def mk_sum(body, v, n):
    """sum over v in [0,n) of body(v); v is an Atom"""
    n = P(n)
    if v.id not in body.deps():
        return body * n
    if n.is_const() and 0 <= n.cval() <= 4:
        r = ZERO
        for j in range(n.cval()):
            r = r + subst(body, {v.id: const(j)})
        return r
    # split into terms independent of v
    out = ZERO
    rest = {}
    for m, c in body.d.items():
        inv = [a for a in m if v.id not in _list[a].deps]
        dep = tuple(a for a in m if v.id in _list[a].deps)
        key = dep
        rest.setdefault(key, ZERO)
        rest[key] = rest[key] + Poly({tuple(inv): c})
    if len(rest) > 1 or any(_list[a].kind == "rem" for d in rest for a in d):
        out = out + telescope(rest, v, n)
    for dep, coef in rest.items():
        if not dep:
            out = out + coef * n
        elif dep == (v.id,):
            out = out + (coef * n * (n - 1)).scale(Fraction(1, 2))
        else:
            t = Poly({dep: 1})
            g = geometric(t, v, n) if len(dep) == 1 else None
            if g is not None:
                out = out + coef * g
                continue
            if len(dep) == 1 and _list[dep[0]].kind == "sum":
                fl = flat_blocks(_list[dep[0]], v, n)
                if fl is not None:
                    out = out + coef * fl
                    continue
            # canonical bound variable
            t = alpha(t, v)
            lo, hi = t.bounds()
            nlo, nhi = n.bounds()
            slo = 0 if lo is not None and lo >= 0 else None
            shi = int(max(hi, 0) * max(nhi, 0) // 1) if hi is not None and nhi is not None and slo == 0 else None
            out = out + coef * P(mk_atom("sum", (t, n), slo, shi))
    return out


def flat_blocks(A, v, N):
    """sum over v < ceil(n / c) of the sum over i < min(c, n - c v) of f(c v + i)  =  sum over k < n of f(k)"""
    B = single_atom(A.args[1])
    if B is not None and B.kind == "fn" and B.args[0] == "max" and ZERO in B.args[1:]:
        B = single_atom(B.args[1] if B.args[2] == ZERO else B.args[2])
    if B is None or B.kind != "fn" or B.args[0] != "min":
        return None
    for c, r in (B.args[1:], B.args[:0:-1]):
        if not c.is_const() or not isinstance(c.cval(), int) or c.cval() < 1:
            continue
        n = r + c * P(v)
        if v.id in n.deps() or mk_quo(n + c - 1, c) != N or not EMPTY.ge0(n):
            continue
        _bl[0] += 1
        try:
            w, (body, _) = open_binder(A)
            k = fresh("k", 0)
            f = subst(body, {w.id: k - c * P(v)})
            if v.id not in f.deps():
                return mk_sum(f, single_atom(k), n)
        finally:
            _bl[0] -= 1
    return None


def telescope(rest, v, n):
    """takes pairs g(v+1) - g(v) out of rest (monomial -> coefficient); their sum is g(n) - g(0)"""
    out = ZERO
    nxt = {v.id: P(v) + 1}
    shifted = {}

    def shift(dep):
        if dep not in shifted:
            S = peel(subst(Poly({dep: 1}), nxt), P(v) + 1, P(v))
            shifted[dep] = None
            if len(S.d) == 1:
                (m, k), = S.d.items()
                shifted[dep] = (m, k)
        return shifted[dep]

    def pairs():
        for dep in list(rest):
            if not dep or dep == (v.id,) or dep not in rest or all(_list[a] is v for a in dep):
                continue
            if not any(_list[a].kind in ("rem", "quo", "pow", "sum") for a in dep):
                continue
            s = shift(dep)
            if s is None:
                continue
            m, k = s
            inv = tuple(a for a in m if v.id not in _list[a].deps)
            m2 = tuple(a for a in m if v.id in _list[a].deps)
            if m2 == dep or m2 not in rest:
                continue
            c = rest[dep]
            if rest[m2] == -c * Poly({inv: k}):
                return dep, m2, c
        return None
    while True:
        r = pairs()
        if r is None:
            break
        dep, m2, c = r
        del rest[dep]
        del rest[m2]
        g = Poly({dep: 1})
        out = out + c * (subst(g, {v.id: ZERO}) - subst(g, {v.id: n}))
    # binary digits: 2^v (E div 2^v mod 2) = 2^v (E div 2^v) - 2^(v+1) (E div 2^(v+1))
    for dep in list(rest):
        rs = [a for a in dep if _list[a].kind == "rem" and v.id in _list[a].deps]
        if len(rs) != 1 or len(dep) < 2:
            continue
        A = _list[rs[0]]
        Q = single_atom(A.args[0])
        if Q is None or Q.kind != "quo" or not A.args[1].is_const() or v.id in Q.args[0].deps():
            continue
        c = rest[dep]
        d2 = list(dep)
        d2.remove(rs[0])
        C = Q.args[1]
        if Poly({tuple(d2): 1}) == C and subst(C, nxt) == C * A.args[1]:
            del rest[dep]
            out = out + c * (mk_rem(Q.args[0], subst(C, {v.id: n})) - mk_rem(Q.args[0], subst(C, {v.id: ZERO})))
    return out


BINDERS = {"sum": 0, "lin": 3, "mu": 0}     # atom kind -> position of the body among the arguments


def depth(p):
    """number of nested binders"""
    m = 0
    for a in p.atoms():
        A = _list[a]
        m = max(m, adepth(A))
    return m


_dcache = {}


def adepth(A):
    r = _dcache.get(A.id)
    if r is None:
        r = 0
        for x in A.args:
            r = max(r, xdepth(x))
        if A.kind in BINDERS:
            r += 1
        _dcache[A.id] = r
    return r


def xdepth(x):
    if isinstance(x, Poly):
        return depth(x)
    if isinstance(x, Atom):
        return adepth(x)
    if isinstance(x, tuple):
        return max([xdepth(y) for y in x] + [0])
    return 0


def bound_var(n):
    return mk_atom("bound", (n,), 0)


def alpha(t, v):
    """replace the atom v by the canonical bound variable of a binder around t (its level is the number
    of binders nested in t, so the bound variables of enclosing binders always have a higher level)"""
    b = bound_var(depth(t))
    return subst(t, {v.id: P(b)})


def own_var(A):
    """the bound variable of a binder atom"""
    return bound_var(depth(A.args[BINDERS[A.kind]]))


_bl = [0]


def open_binder(A):
    """(temporary variable, args with the bound variable renamed to it)"""
    i = BINDERS[A.kind]
    v = mk_atom("var", ("bv@%d" % _bl[0],), 0)
    body = subst(A.args[i], {own_var(A).id: P(v)})
    return v, A.args[:i] + (body,) + A.args[i + 1:]


def close_binder(A, v, args, ctx=None):
    if A.kind == "sum":
        return mk_sum(args[0], v, args[1])
    if A.kind == "mu":
        return mk_mu(args[0], v, args[1])
    op, q, n, body, j = args
    return mk_rem(mk_lin(op, q, n, body, v, j), q, ctx)


def mk_mu(body, v, n):
    """least k < n at which the 0/1 term body(k) is 1, else n"""
    n = P(n)
    if body == ONE:
        return ZERO
    if body == ZERO:
        return n
    return P(mk_atom("mu", (alpha(body, v), n), ZERO, n))


INVOP = {"ntt": "intt", "intt": "ntt"}


def delta_at(A, v):
    """the index at which the indicator A(v) is one, if it is one at a single index"""
    if A.kind != "ind" or A.args[0][0] != "eq":
        return None
    p = A.args[0][1]
    c = p.d.get((v.id,))
    if c not in (1, -1):
        return None
    r = P(v) - p * c
    return None if v.id in r.deps() else r


def mk_lin(op, q, n, body, v, j):
    """(congruent mod q to) entry j of the linear operator op applied to the sequence body(v), v < n"""
    E = strip_rem(body, q)
    if q.is_const():
        E = red_coefs(E, q.cval())
    out = ZERO
    groups = {}
    for m, c in E.d.items():
        inv = tuple(a for a in m if v.id not in _list[a].deps)
        dep = tuple(a for a in m if v.id in _list[a].deps)
        groups[dep] = groups.get(dep, ZERO) + Poly({inv: c})
    for dep in list(groups):
        at = [x for x in (delta_at(_list[a], v) for a in dep) if x is not None]
        if at:
            # a sequence that is zero except at one index
            coef = groups.pop(dep) * subst(Poly({dep: 1}), {v.id: at[0]})
            d = indicator(eq(P(v), at[0]))
            for m, c in d.d.items():
                groups[m] = groups.get(m, ZERO) + coef * c
    for dep, coef in groups.items():
        if len(dep) == 1:
            A = _list[dep[0]]
            if op == "ntt" and A.kind == "ind" and delta_at(A, v) == ZERO:
                out = out + coef            # the transform of the constant polynomial one
                continue
            if A.kind == "lin" and A.args[0] == INVOP.get(op) and A.args[1] == q and A.args[2] == n and A.args[4] == P(v) and v.id not in A.args[3].deps():
                out = out + coef * subst(A.args[3], {own_var(A).id: j})
                continue
            if A.kind == "sum" and v.id not in A.args[1].deps():
                _bl[0] += 1
                try:
                    w, (t, cnt) = open_binder(A)
                    out = out + coef * mk_sum(mk_lin(op, q, n, t, v, j), w, cnt)
                finally:
                    _bl[0] -= 1
                continue
        t = Poly({dep: 1})
        out = out + coef * P(mk_atom("lin", (op, q, n, alpha(t, v), j), 0, q - 1))
    return out


def subst(x, m, ctx=None):
    """m: atom id -> Poly"""
    if isinstance(x, Poly):
        if not any(k in x.deps() for k in m):
            return x
        out = ZERO
        for mono, c in x.d.items():
            t = const(c)
            for a in mono:
                t = t * subst_atom(_list[a], m, ctx)
            out = out + t
        return out
    if isinstance(x, tuple):
        return tuple(subst(y, m, ctx) for y in x)
    return x


_sc = {}


def subst_atom(A, m, ctx=None):
    if A.id in m:
        return m[A.id]
    if not any(k in A.deps for k in m):
        return P(A)
    if A.kind in BINDERS:
        _bl[0] += 1
        try:
            v, args = open_binder(A)
            args = tuple(subst(y, m, ctx) for y in args)
            return close_binder(A, v, args, ctx)
        finally:
            _bl[0] -= 1
    args = tuple(subst(y, m, ctx) for y in A.args)
    return rebuild(A, args, ctx)


def rebuild(A, args, ctx=None):
    if A.kind == "rem":
        return mk_rem(args[0], args[1], ctx)
    if A.kind == "quo":
        return mk_quo(args[0], args[1], ctx)
    if A.kind == "pow":
        return mk_pow(args[0], args[1])
    if A.kind == "sel":
        return mk_sel(args[0], args[1:])
    if A.kind == "fn" and A.args[0] in ("min", "max") and isinstance(args[1], Poly):
        return (mk_min if A.args[0] == "min" else mk_max)(args[1], args[2], ctx)
    h = REBUILD.get(A.kind)
    if h:
        return h(A, args, ctx)
    return P(mk_atom(A.kind, args, A.lo if not isinstance(A.lo, Poly) or A.lo.is_const() else None,
                     A.hi if not isinstance(A.hi, Poly) or A.hi.is_const() else None, A.pow2))


REBUILD = {}


def mk_min(a, b, ctx=None):
    cx = ctx or EMPTY
    if a == b:
        return a
    if cx.ge0(b - a):
        return a
    if cx.ge0(a - b):
        return b
    x, y = sorted((a, b), key=lambda p: repr(p))
    at = mk_atom("fn", ("min", x, y), None, x)
    la, lb = a.bounds()[0], b.bounds()[0]
    if at.nlo is None and la is not None and lb is not None:
        at.nlo = min(la, lb)
        at.lo = const(at.nlo)
    hs = [h for h in (a.bounds()[1], b.bounds()[1]) if h is not None]
    if hs:
        at.nhi = min(hs)
    return P(at)


def mk_max(a, b, ctx=None):
    cx = ctx or EMPTY
    if a == b:
        return a
    if cx.ge0(b - a):
        return b
    if cx.ge0(a - b):
        return a
    x, y = sorted((a, b), key=lambda p: repr(p))
    at = mk_atom("fn", ("max", x, y), x, None)
    ha, hb = a.bounds()[1], b.bounds()[1]
    if at.nhi is None and ha is not None and hb is not None:
        at.nhi = max(ha, hb)
        at.hi = const(at.nhi)
    ls = [h for h in (a.bounds()[0], b.bounds()[0]) if h is not None]
    if ls:
        at.nlo = max(ls)
    return P(at)


def peel(p, n, cnt):
    """sums up to n, with their last term split off: n is (counter, n - 1)"""
    out = ZERO
    for m, c in p.d.items():
        t = const(c)
        for a in m:
            A = _list[a]
            if A.kind == "sum" and A.args[1] == n:
                _bl[0] += 1
                try:
                    w, (body, _) = open_binder(A)
                    t = t * (mk_sum(body, w, cnt) + subst(body, {w.id: cnt}))
                finally:
                    _bl[0] -= 1
            elif A.kind in ("rem", "quo"):
                args = tuple(peel(x, n, cnt) for x in A.args)
                t = t * (P(A) if args == A.args else rebuild(A, args))
            else:
                t = t * P(A)
        out = out + t
    return out


# ---------------------------------------------------------------- conditions
T = ("T",)
F = ("F",)


def lead(p):
    for m in sorted(p.d):
        if m:
            return m
    return ()


def prim(p):
    """scale to primitive integer coefficients (positive factor); returns p*s"""
    from math import gcd
    den = 1
    for c in p.d.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.d.values():
        g = gcd(g, int(c * den))
    if g == 0:
        return p
    q = Fraction(den, g)
    return p.scale(q) if q != 1 else p


def ge(p):
    """p >= 0"""
    p = P(p)
    if p.is_const():
        return T if p.cval() >= 0 else F
    # integer tightening: divide by the gcd of the non-constant coefficients
    from math import gcd
    den = 1
    for c in p.d.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for m, c in p.d.items():
        if m:
            g = gcd(g, int(c * den))
    k = p.cval() * den
    d = {m: int(c * den) // g for m, c in p.d.items() if m}
    k = int(k) // g if den == 1 else (int(k) // g)
    if k:
        d[()] = k
    p = Poly(d)
    lo, hi = p.bounds()
    if lo is not None and lo > -1:
        return T
    if hi is not None and hi < 0:
        return F
    return ("ge", p)


def lt(a, b):
    return ge(P(b) - P(a) - 1)


def le(a, b):
    return ge(P(b) - P(a))


def eq(a, b=ZERO):
    p = P(a) - P(b)
    if p.is_const():
        return T if p.cval() == 0 else F
    p = prim(p)
    lo, hi = p.bounds()
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return F
    if p.d[lead(p)] < 0:
        p = -p
    # gcd test
    from math import gcd
    g = 0
    for m, c in p.d.items():
        if m:
            g = gcd(g, int(c))
    if g > 1 and p.cval() % g:
        return F
    # a condition on a 0/1 indicator atom
    a = None
    if len(p.d) <= 2:
        ms = [m for m in p.d if m]
        if len(ms) == 1 and len(ms[0]) == 1:
            A = _list[ms[0][0]]
            if A.kind == "ind":
                v = Fraction(-p.cval(), p.d[ms[0]])
                if v == 1:
                    return A.args[0]
                if v == 0:
                    return neg(A.args[0])
                return F
    return ("eq", p)


def ne(a, b=ZERO):
    return neg(eq(a, b))


def neg(c):
    k = c[0]
    if k == "T":
        return F
    if k == "F":
        return T
    if k == "ge":
        return ge(-c[1] - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "and":
        return disj([neg(x) for x in c[1]])
    if k == "or":
        return conj([neg(x) for x in c[1]])
    if k == "nb":
        return ("ob",) + c[1:]
    if k == "ob":
        return ("nb",) + c[1:]
    raise Exception(c)


def conj(cs):
    out = []
    for c in cs:
        if c == T:
            continue
        if c == F:
            return F
        xs = c[1] if c[0] == "and" else (c,)
        for x in xs:
            if neg(x) in out:
                return F
            if x not in out:
                out.append(x)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def disj(cs):
    out = []
    for c in cs:
        if c == F:
            continue
        if c == T:
            return T
        xs = c[1] if c[0] == "or" else (c,)
        for x in xs:
            if neg(x) in out:
                return T
            if x not in out:
                out.append(x)
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    # factor common conjuncts: (a & c) | (b & c)
    return ("or", tuple(out))


def ob(name, *args):
    """opaque boolean"""
    return ("ob", name) + args


def indicator(c):
    if c == T:
        return ONE
    if c == F:
        return ZERO
    return P(mk_atom("ind", (c,), 0, 1))


def cond_deps(c):
    k = c[0]
    if k in ("ge", "eq", "ne"):
        return c[1].deps()
    if k in ("and", "or"):
        r = frozenset()
        for x in c[1]:
            r |= cond_deps(x)
        return r
    return _adeps(tuple(c[2:])) if len(c) > 2 else frozenset()


def subst_cond(c, m, ctx=None):
    k = c[0]
    if k in ("T", "F"):
        return c
    if not any(x in cond_deps(c) for x in m):
        return c
    if k == "ge":
        return ge(subst(c[1], m, ctx))
    if k == "eq":
        return eq(subst(c[1], m, ctx))
    if k == "ne":
        return neg(eq(subst(c[1], m, ctx)))
    if k == "and":
        return conj([subst_cond(x, m, ctx) for x in c[1]])
    if k == "or":
        return disj([subst_cond(x, m, ctx) for x in c[1]])
    return c[:2] + tuple(subst(x, m, ctx) for x in c[2:])


REBUILD["ind"] = lambda A, args, ctx: indicator(args[0])
_old_subst = subst


def subst(x, m, ctx=None):  # noqa: F811  (also handles conditions inside atoms)
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("T", "F", "ge", "eq", "ne", "and", "or", "ob", "nb"):
        return subst_cond(x, m, ctx)
    return _old_subst(x, m, ctx)


# ---------------------------------------------------------------- entailment
class Ctx:
    """An immutable set of facts."""
    __slots__ = ("facts", "_key", "ges", "eqs", "nes", "others", "cache", "budget", "sub")

    def __init__(self, facts=()):
        out = []
        seen = set()

        def add(c):
            if c == T or c in seen:
                return
            if c[0] == "and":
                for x in c[1]:
                    add(x)
                return
            seen.add(c)
            out.append(c)
        for c in facts:
            add(c)
        ors = [c for c in out if c[0] == "or"]
        while ors:
            # unit propagation
            again = []
            for c in ors:
                live = [x for x in c[1] if not (neg(x) in seen or x[0] == "and" and any(neg(y) in seen for y in x[1]))]
                if len(live) < len(c[1]) and len(live) == 1:
                    add(live[0])
                else:
                    again.append(c)
            if len(again) == len(ors):
                break
            ors = again
        self.facts = tuple(out)
        self._key = frozenset(out)
        self.ges = [c[1] for c in out if c[0] == "ge"]
        self.eqs = [c[1] for c in out if c[0] == "eq"]
        self.nes = [c[1] for c in out if c[0] == "ne"]
        self.others = [c for c in out if c[0] in ("or", "ob", "nb")]
        self.cache = {}
        self.sub = None

    def add(self, *cs):
        new = [c for c in cs if c != T and c not in self._key]
        if not new:
            return self
        k = (self._key, tuple(new))
        r = _ctxcache.get(k)
        if r is None:
            r = Ctx(self.facts + tuple(new))
            if len(_ctxcache) > 200000:
                _ctxcache.clear()
            _ctxcache[k] = r
        return r

    def eqsub(self):
        """substitution solving the equalities for an atom (unit coefficient)"""
        if self.sub is None:
            s = {}
            for e in self.eqs:
                e = subst(e, s) if s else e
                best = None
                for m, c in e.d.items():
                    if len(m) == 1 and c in (1, -1) and not any(m[0] in _list[a].deps for mm in e.d for a in mm if mm != m) and not any(m[0] in mm for mm in e.d if mm != m):
                        A = _list[m[0]]
                        pri = {"bound": 0, "var": 1, "sel": 2}.get(A.kind, 3)
                        if best is None or (pri, -A.id) < best[0]:
                            best = ((pri, -A.id), m, c)
                if best:
                    _, m, c = best
                    rhs = Poly({k: v for k, v in e.d.items() if k != m}).scale(-c)
                    for k in list(s):
                        s[k] = subst(s[k], {m[0]: rhs})
                    s[m[0]] = rhs
            self.sub = s
        return self.sub

    def simp(self, p):
        s = self.eqsub()
        return subst(p, s) if s else p

    def ge0(self, p):
        p = P(p)
        lo, hi = p.bounds()
        if lo is not None and lo > -1:
            return True
        if hi is not None and hi < 0 and not self.facts:
            return False
        r = self.cache.get(p)
        if r is None:
            r = prove(p, self)
            if not r:
                r = quo_below(p, self) or r
            self.cache[p] = r
        return r

    def decide(self, c):
        """True / False / None"""
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if c in self._key:
            return True
        if k in ("ob", "nb"):
            if neg(c) in self._key:
                return False
            return None
        r = self.cache.get(c, 0)
        if r != 0:
            return r
        r = self._decide(c)
        self.cache[c] = r
        return r

    def _decide(self, c):
        k = c[0]
        if k == "ge":
            if self.ge0(c[1]):
                return True
            if self.ge0(-c[1] - 1):
                return False
            return None
        if k in ("eq", "ne"):
            n = neg(c)
            if n in self._key:
                return False
            p = c[1]
            q = self.simp(p)
            r = None
            if q.is_const():
                r = q.cval() == 0
            elif self.ge0(p - 1) or self.ge0(-p - 1):
                r = False
            elif self.ge0(p) and self.ge0(-p):
                r = True
            elif any(self.simp(x) == q or self.simp(x) == -q for x in self.nes):
                r = False
            else:
                e = eq(q)
                if e == F:
                    r = False
            if r is None:
                return None
            return r if k == "eq" else not r
        if k == "and":
            ok = True
            for x in c[1]:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    ok = None
            return ok
        if k == "or":
            ok = False
            for x in c[1]:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    ok = None
            return ok
        return None

    def infeasible(self):
        """facts contradictory?"""
        if F in self._key:
            return True
        r = self.cache.get("infeasible")
        if r is None:
            r = False
            for c in reversed(self.facts):
                if c[0] == "ge":
                    if prove(-c[1] - 1, self.without(c)):
                        r = True
                        break
                elif c[0] == "nb":
                    if ("ob",) + c[1:] in self._key:
                        r = True
                        break
                elif c[0] in ("eq", "ne", "or"):
                    if self.without(c).decide(c) is False:
                        r = True
                        break
            self.cache["infeasible"] = r
        return r

    def without(self, c):
        k = (self._key, "-", c)
        r = _ctxcache.get(k)
        if r is None:
            r = Ctx([x for x in self.facts if x != c])
            _ctxcache[k] = r
        return r


_ctxcache = {}


def nonneg_mono(m):
    for a in m:
        A = _list[a]
        if A.nlo is None or A.nlo < 0:
            return m.count(a) % 2 == 0
    return True


def lower(p):
    return p.bounds()[0]


_der = [0]


def merge_pows(p):
    """2^a 2^b = 2^(a+b)"""
    out = ZERO
    for m, c in p.d.items():
        g, t = {}, const(c)
        for i in m:
            A = _list[i]
            if A.kind == "pow":
                g[A.args[0]] = g.get(A.args[0], ZERO) + A.args[1]
            else:
                t = t * P(A)
        for b, e in g.items():
            t = t * mk_pow(b, e)
        out = out + t
    return out


def derived(goal, facts, ctx):
    """consequences the linear reasoning cannot see: a zero quotient bounds its dividend; powers are monotone"""
    out = []
    for f in ctx.eqs + [f for f in facts if len(f.d) == 1 and next(iter(f.d.values())) < 0]:
        if len(f.d) == 1:
            (m, c), = f.d.items()
            if len(m) == 1 and _list[m[0]].kind == "quo":
                E, d = _list[m[0]].args
                out.append(d - E - 1)
    # U - x >= 0 bounds x M for positive M
    for m, c in goal.d.items():
        if len(m) < 2 or c > 0:
            continue
        for x in m:
            if _list[x].kind not in ("var", "sel"):
                continue
            M = list(m)
            M.remove(x)
            if not all(_list[a].kind == "pow" for a in M):
                continue
            for f in facts:
                k = f.d.get((x,))
                if k is not None and k < 0 and len(f.d) <= 3:
                    out.append(merge_pows(f * Poly({tuple(M): 1})))
    pows = {}
    for p in [goal] + facts + out:
        for a in p.deps():
            A = _list[a]
            if A.kind == "pow" and A.args[0].is_const() and A.args[0].cval() > 1:
                pows.setdefault(A.args[0].cval(), {})[a] = A
    if _der[0] >= 1 or not any(len(g) > 1 for g in pows.values()):
        return out
    _der[0] += 1
    try:
        for b, g in pows.items():
            l = list(g.values())[:6]
            for x in l:
                for y in l:
                    if x is not y and ctx.ge0(x.args[1] - y.args[1]):
                        out.append(P(x) - P(y))
    finally:
        _der[0] -= 1
    return out


def maxed(p):
    """an upper bound of p: atoms with a symbolic upper bound replaced by it where they occur with positive coefficients"""
    out = ZERO
    for m, c in p.d.items():
        t = const(c)
        for i in m:
            A = _list[i]
            t = t * (A.hi if c > 0 and isinstance(A.hi, Poly) and not A.hi.is_const() else P(A))
        out = out + t
    return out


def shifted_nonneg(p):
    """every coefficient of p, written in the excess of its atoms over their numeric lower bounds, is nonnegative"""
    if len(p.d) > 12 or not any(len(m) > 1 for m in p.d):
        return False
    out = ZERO
    for m, c in p.d.items():
        t = const(c)
        for i in m:
            lo = _list[i].nlo
            if lo is None or not isinstance(lo, int):
                return False
            t = t * (P(_list[i]) + lo)
        out = out + t
    return all(c >= 0 for c in out.d.values())


def quo_below(p, ctx):
    """X - floor(N / D) >= 0 for an integer X: exactly when D (X + 1) - 1 - N >= 0"""
    hit = None
    for m, c in p.d.items():
        for i in m:
            A = _list[i]
            if A.kind == "quo" and not A.args[1].is_const():
                if hit is not None or c != -1 or len(m) != 1:
                    return False
                hit = A
    if hit is None:
        return False
    X = p + P(hit)
    N, D = hit.args
    if not X.integral():
        return False
    up = maxed(N)
    if any(_list[i].kind == "quo" and not _list[i].args[1].is_const() for i in up.deps()):
        return False
    g = D * (X + 1) - 1 - up
    return ctx.ge0(D - 1) and (shifted_nonneg(g) or bool(prove(g, ctx)))


def prove(goal, ctx, depth=7):
    """goal >= 0 under the facts?"""
    goal = ctx.simp(goal)
    facts = []
    s = ctx.eqsub()
    for f in ctx.ges:
        f = subst(f, s) if s else f
        if not f.is_const():
            facts.append(f)
    for e in ctx.eqs:
        f = subst(e, s) if s else e
        if not f.is_const():
            facts.append(f)
            facts.append(-f)
    # integer strengthening with disequalities: f >= 0 and f != 0 gives f >= 1
    for x in ctx.nes:
        x = subst(x, s) if s else x
        for y in (x, -x):
            lo = y.bounds()[0]
            if y in facts or (lo is not None and lo > -1):
                facts.append(y - 1)
    facts += derived(goal, facts, ctx)
    # keep only facts sharing atoms (transitively) with the goal
    rel = set(goal.deps())
    for a in list(rel):
        A = _list[a]
        for b in (A.lo, A.hi):
            if isinstance(b, Poly):
                rel |= b.deps()
    pick = []
    pool = list(facts)
    changed = True
    while changed and pool:
        changed = False
        for f in list(pool):
            if f.atoms() & rel or f.deps() & rel:
                pool.remove(f)
                pick.append(f)
                for a in f.deps():
                    if a not in rel:
                        rel.add(a)
                        A = _list[a]
                        for b in (A.lo, A.hi):
                            if isinstance(b, Poly):
                                rel |= b.deps()
                        changed = True
                changed = True
    seen = {}
    budget = [900]

    def bound_of(A, up):
        b = A.hi if up else A.lo
        return b

    def go(p, d):
        lo = p.bounds()[0]
        if lo is not None and lo > -1:
            return True
        if d == 0 or budget[0] <= 0:
            return False
        if seen.get(p, -1) >= d:
            return False
        seen[p] = d
        budget[0] -= 1
        # candidate moves on harmful monomials
        moves = []
        for m, c in p.d.items():
            if not m:
                continue
            l, h = mono_bounds(m)
            if c > 0:
                # lower bound of the monomial matters
                for i, a in enumerate(m):
                    A = _list[a]
                    if A.lo is not None and not A.lo.is_const():
                        rest = m[:i] + m[i + 1:]
                        if nonneg_mono(rest):
                            moves.append((1, p - Poly({m: c}) + A.lo * Poly({rest: c})))
                harmful = l is None or l < 0
            else:
                harmful = True
                for i, a in enumerate(m):
                    A = _list[a]
                    if i and m[i - 1] == a:
                        continue
                    if A.hi is not None:
                        rest = m[:i] + m[i + 1:]
                        if nonneg_mono(rest):
                            if not A.hi.is_const() or rest:
                                moves.append((1, p - Poly({m: c}) + A.hi * Poly({rest: c})))
            for f in pick:
                k = f.d.get(m)
                if k is not None and (k > 0) == (c > 0):
                    if c > 0 and not harmful:
                        # using it up only helps if the fact's lower bound is better
                        q = p - f.scale(Fraction(c) / k)
                        moves.append((3, q))
                        continue
                    q = p - f.scale(Fraction(c) / k)
                    moves.append((0, q))
                elif len(m) >= 2 and c < 0:
                    # multiply the fact with a non-negative atom
                    for i, a in enumerate(m):
                        rest = m[:i] + m[i + 1:]
                        k = f.d.get(rest)
                        if k is not None and k < 0 and _list[a].nlo is not None and _list[a].nlo >= 0:
                            moves.append((2, p - (f * P(_list[a])).scale(Fraction(c) / k)))
        moves.sort(key=lambda x: (x[0], len(x[1].d)))
        tried = set()
        for _, q in moves:
            if q in tried:
                continue
            tried.add(q)
            if go(q, d - 1):
                return True
        return False

    return go(goal, depth)


EMPTY = Ctx(())


# ---------------------------------------------------------------- display
def show_atom(A):
    if A.kind == "var":
        return A.args[0]
    if A.kind == "bound":
        return "$%d" % A.args[0]
    if A.kind == "rem":
        return "(%s mod %s)" % (show(A.args[0]), show(A.args[1]))
    if A.kind == "quo":
        return "(%s div %s)" % (show(A.args[0]), show(A.args[1]))
    if A.kind == "pow":
        return "%s^(%s)" % (show(A.args[0]), show(A.args[1]))
    if A.kind == "sel":
        return "%s[%s]" % (A.args[0], ",".join(sh(x) for x in A.args[1:]))
    if A.kind == "sum":
        return "SUM{%s}(%s)" % (show(A.args[1]), show(A.args[0]))
    if A.kind == "ind":
        return "[" + show_cond(A.args[0]) + "]"
    return "%s(%s)" % (A.kind if A.kind != "fn" else A.args[0], ",".join(sh(x) for x in (A.args[1:] if A.kind == "fn" else A.args)))


def sh(x):
    if isinstance(x, Poly):
        return show(x)
    if isinstance(x, tuple) and x and x[0] in ("ge", "eq", "ne", "and", "or", "T", "F", "ob", "nb"):
        return show_cond(x)
    return str(x)


def show(p):
    if not isinstance(p, Poly):
        return str(p)
    if not p.d:
        return "0"
    out = []
    for m in sorted(p.d, key=lambda m: (len(m), m)):
        c = p.d[m]
        s = "*".join(show_atom(_list[a]) for a in m)
        if not m:
            t = showc(c)
        elif c == 1:
            t = s
        elif c == -1:
            t = "-" + s
        else:
            t = showc(c) + "*" + s
        out.append(t)
    return " + ".join(out).replace("+ -", "- ")


def showc(c):
    if isinstance(c, int) and abs(c) > 1000:
        for k in (8, 16, 31, 32, 63, 64, 96, 128):
            if c == 1 << k:
                return "2^%d" % k
            if c == (1 << k) - 1:
                return "(2^%d-1)" % k
            if c == -(1 << k):
                return "-2^%d" % k
    return str(c)


def show_cond(c):
    k = c[0]
    if k in ("T", "F"):
        return {"T": "true", "F": "false"}[k]
    if k == "ge":
        pos = Poly({m: v for m, v in c[1].d.items() if v > 0})
        ng = Poly({m: -v for m, v in c[1].d.items() if v < 0})
        return "%s >= %s" % (show(pos), show(ng))
    if k in ("eq", "ne"):
        pos = Poly({m: v for m, v in c[1].d.items() if v > 0})
        ng = Poly({m: -v for m, v in c[1].d.items() if v < 0})
        return "%s %s %s" % (show(pos), "==" if k == "eq" else "!=", show(ng))
    if k in ("and", "or"):
        return "(" + (" & " if k == "and" else " | ").join(show_cond(x) for x in c[1]) + ")"
    return ("!" if k == "nb" else "") + str(c[1]) + ("(%s)" % ",".join(sh(x) for x in c[2:]) if len(c) > 2 else "")
