"""Number-theoretic transforms: the loop nest of butterflies recovered from the MIR, every butterfly at a generic
level, chunk and offset compared with the fast transform's, ranges by an inductive invariant, tables and monomial
transforms compared at a generic index."""
from fractions import Fraction
import engine, spec, term, sem, arith, loops
from common import Report, guard
from spec import *
from ring import f0

M0 = P(term.mk_atom("var", ("m",), 0, 19))      # log2 n = m + 1
LOGN = M0 + 1
NN = mk_pow(const(2), LOGN)


def brv(i, bits):
    return int(bin(i)[2:].zfill(bits)[::-1], 2) if bits else 0


def scalar(v, cx):
    v = prune(v, cx)
    while isinstance(v, Agg) and len(v.f) == 1:
        v = prune(v.f[0], cx)
    return v


def leaves(v, cx, out, d=0):
    v = scalar(v, cx)
    if isinstance(v, Ch) and d < 40:
        for c, y in ((v.c, v.a), (neg(v.c), v.b)):
            r = cx.decide(c)
            if r is False:
                continue
            c2 = cx.add(c)
            if r is None and c2.infeasible():
                continue
            leaves(y, c2, out, d + 1)
        return
    for c in split_ors(cx):
        out.append((c, v))


def split_ors(cx, limit=16):
    for c in cx.facts:
        if c[0] == "or" and limit > 0:
            rest = cx_without_fact(cx, c)
            out, seen = [], []
            for x in c[1]:
                c2 = rest.add(x, *[neg(y) for y in seen])
                seen.append(x)
                if not c2.infeasible():
                    out += split_ors(c2, limit - 1)
            return out
    return [cx]


# ---------------------------------------------------------------- values modulo q
_hv = {}


def integral(p, q):
    """p with every remainder by a constant written as argument minus a multiple (a fresh integer)"""
    for _ in range(12):
        m = {}
        for a in p.atoms():
            A = term.atom_by_id(a)
            if A.kind == "rem" and A.args[1].is_const():
                if a not in _hv:
                    _hv[a] = P(term.mk_atom("var", ("multiple %d" % len(_hv),), None, None))
                m[a] = A.args[0] - A.args[1] * _hv[a]
        if not m:
            return p
        p = subst(p, m)
    return None


def zero_mod(p, q):
    p = integral(p, q)
    return p is not None and all(isinstance(c, int) and c % q == 0 for c in p.d.values())


def congruent(a, b, q):
    return zero_mod(a - b, q)


# ---------------------------------------------------------------- the recovered program
class Rec:
    def __init__(self, lp, v0, nx, ctx):
        self.lp, self.v0, self.next, self.ctx, self.K = lp, v0, nx, ctx, lp.K


class Net:
    """one transform with a symbolic table"""

    def __init__(self, prog, short, q, word, mult, logn=None, n=None):
        self.prog, self.q, self.tag = prog, q, "~%s%d" % (short, mult)
        self.types, self.mult = prog.types, mult
        I = self.I = engine.new_interp(prog)
        I.fieldq = {short: mult * q}
        base = I.symtype

        def tyx(t):
            return prog.types.index(t)

        def symtype(I_, t, name, idxs, st):
            if t["k"] == "adt":
                p = t["path"].split("::")[-1]
                if p == "ShoupFactor":
                    term.set_sel_domain(name + ".value", const(0), const(q - 1))
                    v = mk_sel(name + ".value", idxs)
                    return Agg(tyx(t), None, [v, mk_quo(v * (1 << word), const(q))])
                if p == "NTTTable":
                    fs = []
                    for fn, ty in t["variants"][0]["fields"]:
                        known = {"coeff_count_power": LOGN if logn is None else logn, "coeff_count": n or NN}
                        fs.append(known[fn] if fn in known else I.symval(ty, name + "." + fn, idxs, st))
                    return Agg(tyx(t), None, fs)
                if t["name"] == short:
                    term.set_sel_domain(name, const(0), const((mult if self.plain(name) == "values" else 1) * q - 1))
                    return Agg(tyx(t), None, [mk_sel(name, idxs)])
            return base(I_, t, name, idxs, st) if base else None
        I.symtype = symtype
        I.lenfix = lambda name, idxs: (n or NN) * 2 if name.endswith("ordinal_root_powers") or self.plain(name) == "powers" else n or NN
        I.dom["self%s.reverse_lsbs" % self.tag] = (0, (1 << 20) - 1)
        I.opaque = lambda lf: lf.v0.n == NN
        self.recs = {}
        self.cuts = {}
        self.cutkey = {}
        self.word = word
        I.cutmul = self.cut
        I.intercepts.insert(0, self.root)
        I.loop_final = self.final

    def cut(self, p, ctx):
        """a composed operand of a multiplication, of known range, gets a name"""
        if len(p.d) < 2 or any(A.kind == "rem" for A in map(term.atom_by_id, p.atoms())) or not any(A.kind == "sel" and not str(A.args[0]).startswith("self~") for A in map(term.atom_by_id, p.atoms())):
            return p
        return self.name(p, ctx, (1, 2, 4, 8))

    def root(self, I, fr, st, inst, info, path, a):
        """the value of a root factor gets a name as well"""
        fn = I.p.fns.get(inst)
        if info is None or info["item"] != "new" or fn is None or "ShoupFactor" not in fn.name:
            return NotImplemented
        a[0] = lift(lambda xs, cx: self.name(xs[0], cx, (1,)) if isinstance(xs[0], Poly) and len(xs[0].d) > 1 else xs[0], [a[0]], st.ctx)
        return NotImplemented

    def name(self, p, ctx, ks):
        q = self.q
        # values of machine words are integers
        eps = const(Fraction(1, 1 << 64))
        hi = next((k * q - 1 for k in ks if ctx.ge0(const(k * q) - eps - p)), None)
        if hi is None or not ctx.ge0(p):
            return p
        ats = sorted(p.atoms())
        key = (p, hi)
        if key not in self.cutkey:
            nm = "cut%s#%d" % (self.tag, len(self.cuts))
            term.set_sel_domain(nm, const(0), const(hi))
            self.cuts[nm] = (p, ats)
            self.cutkey[key] = nm
        return mk_sel(self.cutkey[key], tuple(P(term.atom_by_id(a)) for a in ats))

    def quotient_form(self, p):
        """c w mod q with w a root written as 2^bits w - q R, R its Shoup quotient"""
        m = {}
        for a in p.atoms():
            A = term.atom_by_id(a)
            if A.kind == "rem" and A.args[1] == const(self.q) and len(A.args[0].d) == 1:
                (mono, c), = A.args[0].d.items()
                w = Poly({mono: 1})
                if (c - (1 << self.word)) % self.q == 0 and w.bounds() == (0, self.q - 1):
                    m[a] = w * (1 << self.word) - P(term.mk_atom("var", ("Shoup quotient of %d" % a,), 0, (1 << self.word) - 1)) * self.q
        return subst(p, m) if m else p

    def expand(self, p):
        """p with the names replaced by their definitions"""
        for _ in range(6):
            m = {}
            for a in p.deps():
                A = term.atom_by_id(a)
                if A.kind == "sel" and A.args[0] in self.cuts:
                    d, ats = self.cuts[A.args[0]]
                    m[a] = subst(d, {x: y for x, y in zip(ats, A.args[1:])})
            if not m:
                return p
            p = subst(p, m)
        return p

    def final(self, lp, nxt):
        for lf in lp.leaves.values():
            if isinstance(lf.sym, SBase) and isinstance(lf.v0, Seq) and lf.v0.n == NN and isinstance(lf.sol, Seq):
                r = self.array(lf.sol, nxt.ctx)
                if r is not None:
                    self.recs[r[0]] = Rec(lp, lf.v0, loops.get_leaf(nxt.mem[lf.cell], lf.path, nxt.ctx), nxt.ctx)

    def array(self, s, ctx):
        """(name, iteration) of a sequence that is a loop's array as a whole, or (name, None) for an input"""
        s = scalar(s, ctx)
        if not isinstance(s, Seq):
            return None
        x = P(term.mk_atom("var", ("zz",), 0))
        e = scalar(s.read(x, ctx.add(lt(x, NN))), ctx)
        A = term.single_atom(e) if isinstance(e, Poly) else None
        if A is None or A.kind != "sel" or A.args[-1] != x:
            return None
        return (A.args[0], A.args[1] if len(A.args) == 3 else None)

    def sel(self, name, idx):
        """entry of a named input: the names carry the field, whose range their atoms have"""
        head, _, tail = name.partition(".")
        return mk_sel(head + self.tag + ("." + tail if tail else ""), idx)

    def plain(self, name):
        return str(name).replace(self.tag, "")

    def run(self, f, names=None, over=None, facts=()):
        self.vals, self.before, self.res = spec.run(self.I, f, over=over, names={k: v + self.tag for k, v in (names or {0: "self", 1: "values"}).items()}, facts=list(facts))
        return self.res


class Model(spec.Val):
    """denotation of a recovered normal form at one size and input"""

    def __init__(self, net, m, arrays, x):
        spec.Val.__init__(self, 1)
        self.net, self.m, self.arrays, self.inp = net, m, arrays, x
        self.cur, self.cache = {}, {}
        self.v[term.single_atom(M0).id] = m
        self.panic = None
        self.panics = net.I.panics

    def atom(self, A, env):
        self.cost = 0
        return spec.Val.atom(self, A, env)

    def atom1(self, A, env):
        if A.kind == "sel":
            nm = self.net.plain(A.args[0]) if A.args[0] not in self.net.cuts and A.args[0] not in self.net.recs else A.args[0]
            idx = [self.poly(i, env) for i in A.args[1:]]
            if nm in self.net.recs:
                a = self.state(nm, idx[0])
                if not 0 <= idx[1] < len(a):
                    raise Unknown("index")
                return a[idx[1]]
            if nm in self.net.cuts:
                d, ats = self.net.cuts[nm]
                return self.poly(subst(d, {x: y for x, y in zip(ats, A.args[1:])}), env)
            if nm == "values.0" or nm == "values":
                return self.inp[idx[0]]
            if nm in self.arrays:
                a = self.arrays[nm]
                if not idx:
                    return a
                if not 0 <= idx[0] < len(a):
                    raise Unknown("table index")
                return a[idx[0]]
            raise Unknown("input " + nm)
        return spec.Val.atom1(self, A, env)

    def state(self, nm, k):
        if nm in self.cur and self.cur[nm][0] == k:
            return self.cur[nm][1]
        key = (nm, k, tuple(sorted(self.v.items())))
        if key in self.cache:
            return self.cache[key]
        r = self.net.recs[nm]
        a = self.whole(r.v0, r.ctx)
        kid = r.K.id
        old, oldk = self.cur.get(nm), self.v.get(kid)
        for i in range(k):
            self.v[kid] = i
            self.cur[nm] = (i, a)
            self.memo = {}
            self.check(kid)
            a = self.whole(r.next, r.ctx)
        if old is None:
            self.cur.pop(nm, None)
        else:
            self.cur[nm] = old
        if oldk is None:
            self.v.pop(kid, None)
        else:
            self.v[kid] = oldk
        self.memo = {}
        self.cache[key] = a
        return a

    def check(self, kid):
        for fn, what, cx, line in self.panics:
            if self.panic is None and any(kid in term_deps(c) for c in cx.facts):
                try:
                    if all(self.cond(c) for c in cx.facts):
                        self.panic = "%s (%s, line %s)" % (what, fn, line)
                except Unknown:
                    pass

    def whole(self, s, ctx):
        n = 2 << self.m
        return [self.value(s.read(const(j), EMPTY)) for j in range(n)]

    def value(self, v):
        while True:
            if isinstance(v, Agg):
                v = v.f[0]
            elif isinstance(v, Ch):
                v = v.a if self.cond(v.c) else v.b
            elif isinstance(v, Poly):
                return self.poly(v, {})
            else:
                raise Unknown("value %s" % type(v).__name__)


def term_deps(c):
    out = set()

    def go(x):
        if isinstance(x, Poly):
            out.update(x.deps())
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(c)
    return out


def primitive_root(q, order):
    k = (q - 1) // order
    for g in range(2, 200):
        w = pow(g, k, q)
        if pow(w, order // 2, q) == q - 1:
            return w
    raise Unknown("no root")


def table(q, m):
    """the arrays of a table of size 2^(m+1) by definition"""
    lg = m + 1
    n = 1 << lg
    psi = primitive_root(q, 2 * n)
    o = [pow(psi, k, q) for k in range(2 * n)]
    rp, ip = [0] * n, [0] * n
    ip[0] = 1
    for i in range(n):
        rp[brv(i, lg)] = o[i]
        if i < n - 1:
            ip[brv(i, lg) + 1] = o[2 * n - 1 - i]
    return psi, {"self.root_powers.value": rp, "self.inv_root_powers.value": ip, "self.ordinal_root_powers.value": o,
                 "self.inv_degree.value": pow(n, q - 2, q), "self.reverse_lsbs": [brv(i, lg) for i in range(n)]}


def vectors(q, n, mult):
    def rnd(seed):
        out, x = [], seed
        for _ in range(n):
            x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
            out.append((x >> 11) % q)
        return out
    yield "0", [0] * n
    yield "%d q - 1 in every position" % mult, [mult * q - 1] * n
    yield "%d q - 1 in even positions" % mult, [(mult * q - 1) * (k % 2 == 0) for k in range(n)]
    yield "%d q - 1 in the first half" % mult, [(mult * q - 1) * (k < n // 2) for k in range(n)]
    yield "q - 1 in every position", [q - 1] * n
    yield "1 in every position", [1] * n
    for i in sorted({0, 1, n // 2, n - 1}):
        for v in (1, q - 1):
            yield "%s at position %d" % (v if v == 1 else "q - 1", i), [v if k == i else 0 for k in range(n)]
    yield "alternating q - 1, 0", [(q - 1) * (k % 2 == 0) for k in range(n)]
    yield "halves 0, q - 1", [(q - 1) * (k >= n // 2) for k in range(n)]
    for s in range(6):
        yield "random vector %d" % s, rnd(s + 1)


def forward(q, psi, x):
    n = len(x)
    lg = n.bit_length() - 1
    return [sum(c * pow(psi, (2 * brv(j, lg) + 1) * i, q) for i, c in enumerate(x)) % q for j in range(n)]


def inverse(q, psi, y):
    n = len(y)
    lg = n.bit_length() - 1
    ni, pi = pow(n, q - 2, q), pow(psi, q - 2, q)
    return [sum(c * pow(pi, (2 * brv(j, lg) + 1) * i, q) for j, c in enumerate(y)) * ni % q for i in range(n)]


def witness(net, out, definition, sizes=(0, 1, 2, 3)):
    """an input on which the recovered normal form and the definition differ"""
    q = net.q
    for m in sizes:
        n = 2 << m
        psi, arrays = table(q, m)
        for what, x in vectors(q, n, net.mult):
            M = Model(net, m, arrays, x)
            try:
                got = M.whole(out, EMPTY)
            except Unknown:
                if M.panic is None:
                    continue
                got = None
            if M.panic:
                return "panics with %s for n = %d and the input vector %s" % (M.panic, n, what)
            want = definition(q, psi, x)
            for j in range(n):
                if got[j] != want[j]:
                    return "entry %d is %s instead of %s for n = %d and the input vector %s" % (j, got[j], want[j], n, what)
    return None


# ---------------------------------------------------------------- proof of one transform
class Proof:
    def __init__(self, rep, key, f, net, out):
        self.rep, self.key, self.f, self.net, self.out = rep, key, f, net, out
        self.fail = []
        self.done = []

    def need(self, what, ok, why=""):
        (self.done if ok else self.fail).append((what, why))
        return ok

    def finish(self, definition):
        w = witness(self.net, self.out, definition) if self.fail else None
        if w:
            self.rep.bad(self.key, "%s (%s): %s [%s]" % (self.f.name, self.f.where(), w, "; ".join(x for x, _ in self.fail[:3])))
            return
        for x, _ in self.done:
            self.rep.ok(self.key + ":" + x, x)
        for x, why in self.fail:
            self.rep.unknown(self.key + ":" + x, "%s: %s" % (x, why))

    def nested(self, what, name, trip, ctx, want_trip, want_v0):
        """record of loop `name` run `want_trip` times from array want_v0"""
        r = self.net.recs.get(name)
        if r is None:
            self.need(what, False, "no loop %s" % name)
            return None
        ok = trip is not None and ctx.decide(eq(trip, want_trip)) is True
        v0 = self.net.array(r.v0, r.ctx)
        if want_v0 is not None:
            ok = ok and v0 is not None and v0[0] == want_v0[0] and (want_v0[1] is None or v0[1] is not None and r.ctx.decide(eq(v0[1], want_v0[1])) is True)
        self.need(what, ok, "trip count %s, initial array %s" % (trip and vshow(trip)[:60], v0 and v0[0]))
        return r if ok else None

    def entry(self, r, pos, cx):
        return scalar(r.next.read(pos, cx), cx)

    def butterfly(self, what, r, name, p, g, outs, hi):
        """positions p and p + g of the array get outs(u, v) modulo q, within [0, hi), all others stay"""
        cx = r.ctx
        K = P(r.K)
        q = self.net.q
        u, v = mk_sel(name, (K, p)), mk_sel(name, (K, p + g))
        for which, pos, want in (("first", p, outs(u, v)[0]), ("second", p + g, outs(u, v)[1])):
            out = []
            leaves(r.next.read(pos, cx), cx, out)
            good, rng, why = bool(out), bool(out), ""
            for c, e in out:
                if not isinstance(e, Poly) or not congruent(self.net.expand(e), want, q):
                    good, why = False, vshow(e)[:200]
                elif not (c.ge0(e) and c.ge0(const(hi - 1) - e)):
                    rng, why = False, vshow(e)[:200]
            self.need("%s: the %s entry of the pair is the butterfly's modulo q" % (what, which), good, why)
            self.need("%s: the %s entry of the pair stays in its lazy range" % (what, which), rng, why)
        j = P(term.mk_atom("var", ("j",), 0))
        c = cx.add(lt(j, NN), ne(j - p), ne(j - p - g))
        self.need("%s: no other entry changes" % what, scalar(r.next.read(j, c), c) == mk_sel(name, (K, j)), "")

    def normalise(self, what, r, name):
        cx = r.ctx
        K = P(r.K)
        q = self.net.q
        u = mk_sel(name, (K, K))
        out = []
        leaves(r.next.read(K, cx), cx, out)
        good, why = bool(out), ""
        for c, e in out:
            if not (isinstance(e, Poly) and congruent(e, u, q) and c.ge0(e) and c.ge0(const(q - 1) - e)):
                good, why = False, "%s under %s" % (vshow(e)[:120], [show_cond(x)[:80] for x in c.facts])
        self.need(what + ": every entry becomes its canonical residue", good, why)
        j = P(term.mk_atom("var", ("j",), 0))
        c = cx.add(lt(j, NN), ne(j - K))
        self.need(what + ": no other entry changes", scalar(r.next.read(j, c), c) == mk_sel(name, (K, j)))


def check_single(rep, prog, f, key, short, q, word, mult):
    """n = 1: there is no butterfly"""
    net = Net(prog, short, q, word, mult, const(0), const(1))
    net.I.opaque = None
    net.I.unroll = (lambda fr: True, 2)
    res = net.run(f)
    if res is None:
        rep.bad(key + ":single", "%s (%s) panics for a table of a single coefficient" % (f.name, f.where()))
        return
    out, st = final_array(net)
    ls = []
    if isinstance(out, Seq):
        leaves(out.read(const(0), st.ctx), st.ctx, ls)
    u = net.sel("values", (const(0),))
    ok = bool(ls) and all(isinstance(e, Poly) and congruent(e, u, q) and c.ge0(e) and c.ge0(const(q - 1) - e) for c, e in ls)
    if ok and not feasible_panics(net):
        rep.ok(key + ":single", "n = 1: the canonical residue")
        return
    for x in (0, 1, q - 1, q, mult * q - 1):
        M = Model(net, 0, {}, [x])
        try:
            got = M.value(out.read(const(0), EMPTY))
        except Unknown:
            continue
        if got != x % q:
            rep.bad(key + ":single", "%s (%s): %d becomes %d for n = 1" % (f.name, f.where(), x, got))
            return
    rep.unknown(key + ":single", "n = 1: %s; %s" % ([vshow(e) + str([show_cond(x) for x in c.facts]) for c, e in ls], feasible_panics(net)))


def final_array(net):
    ret, st = net.res
    v = net.vals[1]
    s = net.I.load(st, v) if isinstance(v, Ref) else v
    return scalar(s, st.ctx), st


def renorm(c, cx):
    """2^(e+k) as 2^k 2^e where e >= 0 is known"""
    if c[0] not in ("ge", "eq", "ne"):
        return c
    m = {}
    for a in c[1].atoms():
        A = term.atom_by_id(a)
        if A.kind == "pow" and A.args[0] == const(2):
            k = A.args[1].cval()
            if isinstance(k, int) and k > 0 and cx.ge0(A.args[1] - k):
                m[a] = mk_pow(const(2), A.args[1] - k) * (1 << k)
    return (c[0], subst(c[1], m)) if m else c


def feasible_panics(net):
    out = []
    for fn, what, cx, line in net.I.panics:
        r = EMPTY
        for c in cx.facts:
            r = r.add(renorm(c, cx))
        for c2 in split_ors(r):
            if c2.infeasible() or any(c[0] == "ge" and (cx_without_fact(c2, c).ge0(-c[1] - 1) or negative(net.quotient_form(c[1]))) for c in c2.facts):
                continue
            out.append("%s in %s line %s under %s" % (what, fn, line, [show_cond(c)[:120] for c in c2.facts]))
            break
    return out


def negative(p):
    b = p.bounds()[1]
    return b is not None and b < 0


def cx_without_fact(cx, c):
    r = EMPTY
    for x in cx.facts:
        if x is not c and x != c:
            r = r.add(x)
    return r


def check_forward(rep, net, f, key):
    res = net.run(f)
    if res is None:
        rep.bad(key, "%s diverges" % f.name)
        return
    out, st = final_array(net)
    if not isinstance(out, Seq):
        rep.unknown(key, "result is not a sequence")
        return
    pr = Proof(rep, key, f, net, out)
    q = net.q
    a = net.array(out, st.ctx)
    if pr.need("the result is the array of the last loop", a is not None and a[0] in net.recs):
        last = net.recs[a[0]]
        lv = net.array(last.v0, last.ctx)
        if pr.nested("normalisation visits all n entries", a[0], a[1], st.ctx, NN, lv or ("", None)):
            pr.normalise("normalisation", last, a[0])
        L = pr.nested("log n levels starting from the input", lv[0], lv[1], last.ctx, LOGN, ("values" + net.tag, None)) if lv else pr.need("levels", False)
        if L:
            ca = net.array(L.next, L.ctx)
            K = P(L.K)
            C = pr.nested("2^level chunks per level", ca[0], ca[1], L.ctx, mk_pow(const(2), K), (lv[0], K)) if ca else pr.need("chunks", False)
            if C:
                ba = net.array(C.next, C.ctx)
                g = mk_pow(const(2), M0 - K)
                kc = P(C.K)
                B = pr.nested("n / 2^(level+1) butterflies per chunk", ba[0], ba[1], C.ctx, g, (ca[0], kc)) if ba else pr.need("butterflies", False)
                if B:
                    w = net.sel("self.root_powers.value", (mk_pow(const(2), K) + kc,))
                    pr.butterfly("level", B, ba[0], g * 2 * kc + P(B.K), g, lambda u, v: (u + v * w, u - v * w), 4 * q)
    ps = feasible_panics(net)
    pr.need("no operation overflows", not ps, "; ".join(ps)[:600])
    pr.finish(forward)


def check_inverse(rep, net, f, key):
    res = net.run(f)
    if res is None:
        rep.bad(key, "%s diverges" % f.name)
        return
    out, st = final_array(net)
    if not isinstance(out, Seq):
        rep.unknown(key, "result is not a sequence")
        return
    pr = Proof(rep, key, f, net, out)
    q = net.q
    a = net.array(out, st.ctx)
    if pr.need("the result is the array of the last loop", a is not None and a[0] in net.recs):
        last = net.recs[a[0]]
        fv = net.array(last.v0, last.ctx)
        if pr.nested("normalisation visits all n entries", a[0], a[1], st.ctx, NN, fv or ("", None)):
            pr.normalise("normalisation", last, a[0])
        F = net.recs.get(fv[0]) if fv else None
        lv = net.array(F.v0, F.ctx) if F else None
        half = mk_pow(const(2), M0)
        ni = net.sel("self.inv_degree.value", ())
        if lv and pr.nested("n/2 butterflies in the last level", fv[0], fv[1], last.ctx, half, lv):
            w = net.sel("self.inv_root_powers.value", (NN - 1,))
            pr.butterfly("last level", F, fv[0], P(F.K), half, lambda u, v: ((u + v) * ni, (u - v) * w * ni), 2 * q)
        L = pr.nested("log n - 1 levels starting from the input", lv[0], lv[1], F.ctx, M0, ("values" + net.tag, None)) if lv else pr.need("levels", False)
        if L:
            ca = net.array(L.next, L.ctx)
            K = P(L.K)
            C = pr.nested("n / 2^(level+1) chunks per level", ca[0], ca[1], L.ctx, mk_pow(const(2), M0 - K), (lv[0], K)) if ca else pr.need("chunks", False)
            if C:
                ba = net.array(C.next, C.ctx)
                g = mk_pow(const(2), K)
                kc = P(C.K)
                B = pr.nested("2^level butterflies per chunk", ba[0], ba[1], C.ctx, g, (ca[0], kc)) if ba else pr.need("butterflies", False)
                if B:
                    w = net.sel("self.inv_root_powers.value", (NN + 1 - mk_pow(const(2), LOGN - K) + kc,))
                    pr.butterfly("level", B, ba[0], g * 2 * kc + P(B.K), g, lambda u, v: (u + v, (u - v) * w), 2 * q)
    ps = feasible_panics(net)
    pr.need("no operation overflows", not ps, "; ".join(ps)[:600])
    pr.finish(inverse)


# ---------------------------------------------------------------- monomials
ORD = "self.ordinal_root_powers.value"


def exponent(net, e, q):
    """e as (coefficient, exponent of the root): coefficient * ordinal[exponent]"""
    A = term.single_atom(e)
    if A is not None and A.kind == "rem" and A.args[1] == const(q):
        out = None
        for mono, c in A.args[0].d.items():
            ats = [term.atom_by_id(a) for a in mono]
            o = [x for x in ats if x.kind == "sel" and net.plain(x.args[0]) == ORD]
            if len(o) != 1 or len(A.args[0].d) != 1:
                return None
            rest = Poly({(): c % q})
            done = False
            for x in ats:
                if x is o[0] and not done:
                    done = True
                    continue
                rest = rest * P(x)
            f, k = exponent(net, P(o[0]), q)
            out = (f * rest, k)
        return out
    if A is not None and A.kind == "sel" and net.plain(A.args[0]) == ORD:
        k = A.args[1]
        X = term.single_atom(k)
        if X is not None and X.kind == "fn" and X.args[0] == "xor":
            for u, v in ((X.args[1], X.args[2]), (X.args[2], X.args[1])):
                if v == NN and EMPTY.ge0(u) and EMPTY.ge0(NN * 2 - 1 - u):
                    return (const(-1), u)
        return (const(1), k)
    if isinstance(e, Poly) and len(e.d) <= 1:
        return (e, const(0))
    return None


class Monomial(Model):
    def __init__(self, net, m, arrays, degree, coeff):
        Model.__init__(self, net, m, arrays, None)
        self.deg, self.coeff = degree, coeff
        self.v[term.single_atom(DEG).id] = degree

    def atom1(self, A, env):
        if A.kind == "sel" and self.net.plain(A.args[0]).split(".")[0] == "coeff":
            return self.coeff
        return Model.atom1(self, A, env)


DEG = P(term.mk_atom("var", ("degree",), 0, 1 << 40))


def check_monomial(rep, net, f, key, coeff):
    """coeff: None for the parameter, else a constant"""
    q = net.q
    net.I.opaque = None
    net.I.cutmul = None
    net.I.intercepts.pop(0)
    if coeff is None:
        res = net.run(f, {0: "self", 1: "coeff", 3: "values"}, {2: DEG})
        at = 3
    else:
        res = net.run(f, {0: "self", 2: "values"}, {1: DEG})
        at = 2
    if res is None:
        rep.bad(key, "%s diverges" % f.name)
        return
    ret, st = res
    out = scalar(net.I.load(st, net.vals[at]), st.ctx)
    if not isinstance(out, Seq):
        rep.unknown(key, "result is not a sequence")
        return
    co = scalar(net.vals[1], EMPTY) if coeff is None else const(coeff)
    fails = []
    cx = st.ctx.add(lt(J, NN))
    ls = []
    leaves(out.read(J, cx), cx, ls)
    want = (net.sel("self.reverse_lsbs", (J,)) * 2 + 1) * DEG
    for c, e in ls:
        x = exponent(net, e, q) if isinstance(e, Poly) else None
        if x is None and isinstance(e, Poly):
            os = [A for A in map(term.atom_by_id, e.deps()) if A.kind == "sel" and net.plain(A.args[0]) == ORD]
            if len(os) == 1 and congruent(e, co * P(os[0]), q) and c.ge0(e) and c.ge0(const(q - 1) - e):
                x = (co, os[0].args[1])
        if c.decide(eq(co, const(0))) is True:
            good = e == const(0)
        elif x is None:
            good = False
        else:
            ec = x[0] - co
            m = {}
            val = [a for a in co.atoms()]
            for v in (1, q - 1):
                if len(val) == 1 and c.decide(eq(co, const(v))) is True:
                    m[val[0]] = const(v)
            good = zero_mod(subst(ec, m), q)
            if c.decide(eq(DEG, const(0))) is True:
                good = good and x[1] == const(0)
            else:
                d = mk_rem(want - x[1], NN * 2)
                ek = x[1]
                X = term.single_atom(ek)
                if X is not None and X.kind == "rem" and X.args[1] == NN * 2:
                    ek = X.args[0]
                good = good and (ek == want or d == const(0))
        if not good:
            fails.append("%s under %s" % (vshow(e)[:200], [show_cond(y)[:80] for y in c.facts]))
    ps = feasible_panics(net)
    if not fails and ls and not ps:
        for c, e in ls:
            rep.ok("%s:%s" % (key, [show_cond(y)[:60] for y in c.facts]), "entry j is coeff * root^((2 rev(j) + 1) degree)")
        return
    w = None
    for m in (0, 1, 2):
        n = 2 << m
        psi, arrays = table(q, m)
        for d in (0, 1, 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, 3 * n + 1, (1 << 40) - 3):
            for cf in ((0, 1, q - 1, 2, 12345 % q) if coeff is None else (coeff,)):
                if w:
                    break
                M = Monomial(net, m, arrays, d, cf)
                try:
                    got = M.whole(out, EMPTY)
                except Unknown:
                    continue
                for j in range(n):
                    v = cf * pow(psi, (2 * brv(j, m + 1) + 1) * d, q) % q
                    if got[j] != v:
                        w = "entry %d is %s instead of %s for n = %d, degree %d and coefficient %d" % (j, got[j], v, n, d, cf)
                        break
    if w:
        rep.bad(key, "%s (%s): %s" % (f.name, f.where(), w))
    else:
        rep.unknown(key, "; ".join(fails + ps)[:600])


J = P(term.mk_atom("var", ("j",), 0))


# ---------------------------------------------------------------- construction of a table
class TableModel(Model):
    def atom1(self, A, env):
        if A.kind == "sel" and self.net.plain(A.args[0]) in ("rev", "inverse"):
            x = [self.poly(i, env) for i in A.args[1:]]
            if self.net.plain(A.args[0]) == "inverse":
                return pow(x[0], self.net.q - 2, self.net.q)
            return brv(x[0] % (1 << x[1]), x[1])
        return Model.atom1(self, A, env)


def table_net(prog, short, q, word, length):
    net = Net(prog, short, q, word, 1)
    I = net.I
    I.cutmul = None
    I.intercepts.pop(0)
    old = I.lenfix
    I.lenfix = lambda name, idxs: length if net.plain(name) == "powers" else old(name, idxs)
    term.set_sel_domain("rev" + net.tag, const(0), const((1 << 20) - 1))
    term.set_sel_domain("inverse" + net.tag, const(0), const(q - 1))

    def known(I_, fr, st, inst, info, path, a):
        if info is None:
            return NotImplemented
        if info["item"] == "reverse_lsbs" and all(isinstance(x, Poly) for x in a):
            return (net.sel("rev", (a[0], a[1])), st)
        if info["item"] == "inv" and isinstance(scalar(a[0], st.ctx), Poly):
            f = I_.p.fns.get(inst)
            if f is not None:
                return (Agg(f.locals[0], None, [net.sel("inverse", (scalar(a[0], st.ctx),))]), st)
        return NotImplemented
    I.intercepts.insert(0, known)
    I.opaque = lambda lf: lf.v0.n == NN and isinstance(prune(lf.v0.read(J, EMPTY), EMPTY), Agg)

    def final(lp, nxt):
        for lf in lp.leaves.values():
            if isinstance(lf.sym, SBase) and isinstance(lf.v0, Seq) and lf.v0.n == NN and isinstance(lf.sol, Seq):
                e = prune(lf.sol.read(J, EMPTY), EMPTY)
                A = term.single_atom(e.f[0]) if isinstance(e, Agg) and isinstance(e.f[0], Poly) else None
                if A is not None and A.kind == "sel":
                    net.recs[A.args[0]] = Rec(lp, lf.v0, loops.get_leaf(nxt.mem[lf.cell], lf.path, nxt.ctx), nxt.ctx)
    I.loop_final = final
    return net


FIELD_ROLES = ("root", "inv_root", "coeff_count_power", "coeff_count", "inv_degree", "root_powers", "inv_root_powers", "ordinal_root_powers", "reverse_lsbs")


def check_table(rep, prog, f, key, short, q, word):
    L = P(term.mk_atom("var", ("L",), 0, 1 << 40))
    net = table_net(prog, short, q, word, L)
    res = net.run(f, {0: "root", 2: "powers"}, {1: LOGN}, facts=[ne(L, NN * 2)])
    if res is None:
        rep.ok(key + ":length", "a vector of another length than 2n is refused")
    elif not (res[1].ctx.infeasible()):
        rep.bad(key + ":length", "%s (%s) accepts a vector of root powers of a length other than 2n, which the unchecked monomial transforms index" % (f.name, f.where()))
    else:
        rep.unknown(key + ":length", "length")

    net = table_net(prog, short, q, word, NN * 2)
    res = net.run(f, {0: "root", 2: "powers"}, {1: LOGN})
    if res is None:
        rep.bad(key, "%s (%s) refuses a vector of 2n root powers" % (f.name, f.where()))
        return
    ret, st = res
    ret = prune(ret, st.ctx)
    fs = {nm: ret.f[i] for i, (nm, ty) in enumerate(prog.types[ret.ty]["variants"][0]["fields"])} if isinstance(ret, Agg) else {}
    if not all(x in fs for x in FIELD_ROLES):
        rep.unknown(key, "fields of the table")
        return
    pw = lambda k: net.sel("powers.value", (k,))
    first = lambda v, cx: scalar(prune(v, cx).f[0], cx) if isinstance(prune(v, cx), Agg) else prune(v, cx)
    fails = []

    def need(what, ok):
        if ok:
            rep.ok(key + ":" + what, what)
        else:
            fails.append(what)
    cx = st.ctx
    need("coeff_count is 2^log n", fs["coeff_count"] == NN and fs["coeff_count_power"] == LOGN)
    need("root is the given root", scalar(fs["root"], cx) == net.sel("root", ()))
    need("inv_root is the last power", scalar(fs["inv_root"], cx) == pw(NN * 2 - 1))
    d = first(fs["inv_degree"], cx)
    need("inv_degree is the inverse of n", isinstance(d, Poly) and d == net.sel("inverse", (NN,)))
    cj = cx.add(lt(J, NN))
    need("reverse_lsbs reverses log n bits", isinstance(fs["reverse_lsbs"], Seq) and fs["reverse_lsbs"].n == NN and scalar(fs["reverse_lsbs"].read(J, cj), cj) == net.sel("rev", (J, LOGN)))
    o = fs["ordinal_root_powers"]
    need("ordinal powers are the given ones", isinstance(o, Seq) and o.n == NN * 2 and first(o.read(J, cj), cj) == pw(J))
    for nm, trip, at, src in (("root_powers", NN, lambda k: net.sel("rev", (k, LOGN)), lambda k: k),
                              ("inv_root_powers", NN - 1, lambda k: net.sel("rev", (k, LOGN)) + 1, lambda k: NN * 2 - 1 - k)):
        ok = False
        a = first(fs[nm].read(J, cj), cj) if isinstance(fs[nm], Seq) and fs[nm].n == NN else None
        A = term.single_atom(a) if isinstance(a, Poly) else None
        if A is not None and A.kind == "sel" and A.args[0] in net.recs and len(A.args) == 3 and A.args[2] == J:
            r = net.recs[A.args[0]]
            K = P(r.K)
            pos = at(K)
            whole = prune(r.next.read(pos, r.ctx), r.ctx)
            want = prune(net.I.load(net.before, net.vals[2]).read(src(K), r.ctx), r.ctx) if isinstance(net.vals[2], Ref) else prune(net.vals[2].read(src(K), r.ctx), r.ctx) if isinstance(net.vals[2], Seq) else None
            c = r.ctx.add(lt(J, NN), ne(J - pos))
            other = first(r.next.read(J, c), c)
            z = first(r.v0.read(const(0), r.ctx), r.ctx)
            ok = (A.args[1] == trip and isinstance(whole, Agg) and first(whole, r.ctx) == pw(src(K)) and other == mk_sel(A.args[0], (K, J)) and z == pw(const(0))
                  and (want is None or vshow(whole) == vshow(want)))
        need("%s hold the powers in bit-reversed positions" % nm, ok)
    if not fails:
        return
    for m in (0, 1, 2):
        n = 2 << m
        psi, arrays = table(q, m)
        M = TableModel(net, m, {"powers.value": arrays[ORD], "root": psi, "root.0": psi}, None)
        for nm, want in (("root_powers", arrays["self.root_powers.value"]), ("inv_root_powers", arrays["self.inv_root_powers.value"]),
                         ("reverse_lsbs", arrays["self.reverse_lsbs"]), ("inv_degree", pow(n, q - 2, q)), ("coeff_count", n), ("coeff_count_power", m + 1),
                         ("root", psi), ("inv_root", pow(psi, q - 2, q)), ("ordinal_root_powers", arrays[ORD])):
            try:
                v = fs[nm]
                if isinstance(want, list):
                    if not isinstance(v, Seq):
                        continue
                    got = [M.value(first(v.read(const(k), EMPTY), EMPTY)) for k in range(len(want))]
                else:
                    got = M.value(first(v, EMPTY))
            except Unknown:
                continue
            if got != want:
                rep.bad(key + ":" + nm, "%s (%s): %s is %s instead of %s for n = %d and the root %d" % (f.name, f.where(), nm, str(got)[:120], str(want)[:120], n, psi))
                return
    for x in fails:
        rep.unknown(key + ":" + x, x)


FIELDS = (("roots::F32", "F32", 32), ("roots::F64", "F64", 64), ("roots::F16", "F16", 16))
TITLE_RULE = ("every loop of the transform is recovered as a state transformer of the whole array at a generic size n = 2^k, "
              "k <= 20, level, chunk and offset, and compared with the recursive splitting of Z_q[X]/(X^n+1)")


def run(prog, pid):
    rep = Report(pid)
    n = k = t = 0
    for fname, short, word in FIELDS:
        q = engine.FIELDQ[short]
        def of(item):
            return [f for f in prog.wsfns if f.info["item"] == item and fname in f.name and "{closure" not in f.name and "NTTTable" in f.name]
        for item, mult, fn in (("transform_slice", 4, check_forward), ("inverse_transform_slice", 2, check_inverse)):
            for f in of(item):
                with guard(rep, f.name):
                    n += 1
                    fn(rep, Net(prog, short, q, word, mult), f, f.path + ":" + short)
                with guard(rep, f.name + " n = 1"):
                    check_single(rep, prog, f, f.path + ":" + short, short, q, word, mult)
        for item, coeff in (("transform_monomial", None), ("transform_coeff_one_monomial", 1), ("transform_coeff_neg_one_monomial", q - 1)):
            for f in of(item):
                with guard(rep, f.name):
                    k += 1
                    check_monomial(rep, Net(prog, short, q, word, 1), f, f.path + ":" + short, coeff)
        for f in of("new") if short == "F32" else ():
            with guard(rep, f.name):
                t += 1
                check_table(rep, prog, f, f.path + ":" + short, short, q, word)
    rep.floor("tables", t, 1)
    rep.floor("transforms", n, 2)
    rep.floor("monomial transforms", k, 3)
    return rep.finish(TITLE_RULE, explanation="an obligation whose symbolic comparison fails is evaluated on the recovered normal form for n = 2..16 with extreme inputs; "
                      "an alarm needs an input on which the recovered transform and the defining sum differ")
