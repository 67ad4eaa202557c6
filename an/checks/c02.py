"""Modular arithmetic: every reduction operation returns the required residue for all admissible operands."""
import re
import engine, spec, term, arith, sem
from common import Report, guard
from spec import *
from values import *
from term import *

TY = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}
GP = 0xFFFF_FFFF_0000_0001
BP = 0x78000001
NAME = re.compile(r"<impl algebra::reduce::(\w+)(?:<(.*)>)? for (.*)>::(\w+)(?:::<.*>)?$|<(.*) as algebra::reduce::(\w+)<(.*)>>::(\w+)$")


def parse(f):
    m = NAME.search(f.name)
    if not m:
        return None
    if m.group(1):
        return m.group(1), m.group(2) or "", m.group(3), m.group(4)
    return m.group(6), m.group(7), m.group(5), m.group(8)


class Mod:
    """a kind of modulus: its argument value, its value q, the admissible operands, and how results compare"""

    def __init__(self, kind, w):
        self.kind, self.w = kind, w
        W = 1 << w
        if kind == "native":
            self.q = term.var("modulus below 2^%d" % (w - 1), 2, W // 2 - 1)
        elif kind == "barrett":
            self.q = term.var("modulus below 2^%d" % (w - 2), 2, W // 4 - 1)
        elif kind == "powof2":
            self.k = term.var("log2 modulus below %d" % w, 1, w - 1)
            self.q = mk_pow(const(2), self.k)
        elif kind == "wrap":
            self.q = const(W)
        elif kind == "goldilocks":
            self.q = const(GP)
        elif kind == "babybear":
            self.q = const(BP)
        self.R = mk_quo(const(W * W), self.q) if kind == "barrett" else None

    def operand(self, nm):
        """an admissible operand"""
        if self.kind == "wrap":
            return term.var("%s u%d" % (nm, self.w), 0, (1 << self.w) - 1)
        if self.kind == "goldilocks":
            return term.var("%s u64" % nm, 0, (1 << 64) - 1)      # the operations accept non-canonical values
        return P(mk_atom("var", ("%s below %s" % (nm, show(self.q)),), 0, self.q - 1))

    def anyword(self, nm):
        return term.var("%s u%d" % (nm, self.w), 0, (1 << self.w) - 1)

    def value(self, ty):
        if self.kind == "native":
            return self.q
        if self.kind == "barrett":
            W = const(1 << self.w)
            return Agg(ty, None, [self.q, SLit([mk_rem(self.R, W), mk_quo(self.R, W)])])
        if self.kind == "powof2":
            return Agg(ty, None, [self.q - 1])
        return Agg(ty, None, [])


def classify(mod, self_ty):
    w = TY.get(self_ty.strip("&[]() ").split(",")[0].split(";")[0])
    if w is None:
        return None
    if mod == "()":
        return Mod("wrap", w)
    if "BarrettModulus<u" in mod:
        return Mod("barrett", w)
    if "PowOf2Modulus<u" in mod:
        return Mod("powof2", w)
    if "GoldilocksModulus" in mod:
        return Mod("goldilocks", w)
    if "BabyBearModulus" in mod:
        return Mod("babybear", w)
    if mod in ("", self_ty):
        return Mod("native", w)
    return None


def cong(q):
    def goal(a, b, ctx):
        def un(x):
            A = single_atom(x)
            return A.args[0] if A is not None and A.kind == "rem" and A.args[1] == const(q) else x
        return arith.goal_cong(q)(un(a), un(b), ctx)
    return goal


def two_words(I, fr, st, inst, info, path, a):
    """reduction of a two-word value by a BarrettModulus: decided on its own, used as a lemma by its callers"""
    if info is None or info.get("item") not in ("reduce", "lazy_reduce") or "BarrettModulus<u" not in info["name"]:
        return NotImplemented
    if isinstance(sem.leaf(sem.derefall(I, st, a[0])), Poly):
        return NotImplemented
    return sem.reduce_ops(I, fr, st, inst, info, path, a)


class Run:
    def __init__(self, S, prog, f, over, facts=(), key=None, I=None):
        self.S, self.f = S, f
        self.key = key or f.name
        self.I = I or engine.new_interp(prog)
        for ic in (inv_ops, two_words):
            if ic not in self.I.intercepts:
                self.I.intercepts = list(self.I.intercepts) + [ic]
        self.vals, self.before, self.res = spec.run(self.I, f, over=over, facts=facts)
        if self.res is None:
            S.rep.bad(self.key, "%s (%s) never returns for admissible operands" % (f.name, f.where()))
            return
        self.ret, self.st = self.res
        self.ctx = self.st.ctx
        seen = set()
        for fn, what, cx, line in self.I.panics:
            if any(cond_opq(c) for c in cx.facts):
                continue
            wit = S.inhabited(cx)
            if wit and (fn, what, line) not in seen:
                seen.add((fn, what, line))
                g = prog.fns.get(fn)
                S.rep.bad(self.key + ":panic", "%s: %s panics (%s) on admissible operands, e.g. %s" % (f.name, g.where(line) if g else "?", what, wit))


def inv_ops(I, fr, st, inst, info, path, a):
    """inverses are symbols: the division operations only have to multiply by the inverse of the divisor"""
    if info is None or info.get("item") not in ("inv_reduce",) or not (info.get("implof") or "").startswith("algebra::reduce::"):
        return NotImplemented
    q = const(GP) if "GoldilocksModulus" in info["name"] else const(BP) if "BabyBearModulus" in info["name"] else sem.modval(I, st, a[-1])
    x = sem.leaf(sem.derefall(I, st, a[0]))
    if q is None or not isinstance(x, Poly):
        return NotImplemented
    return mk_fn("inv", (x, q), 0, q - 1), st


def compare_residue(S, r, what, got, want, M):
    """got is the canonical residue (or, for goldilocks, any word congruent to it)"""
    key = r.key
    q = M.q
    if M.kind == "goldilocks":
        S.deep = lambda a, b, cx: arith.deep(a, b, cx, cong(GP))
        g = lift(lambda xs, c: mk_rem(xs[0], q) if isinstance(xs[0], Poly) else Opq("residue"), [got], r.ctx)
        S.compare(key, r.f, what, g, mk_rem(want, q), r.ctx)
    else:
        S.deep = arith.deep
        S.compare(key, r.f, what, got, mk_rem(want, q, r.ctx), r.ctx)


def upper(S, r, what, got, bound):
    """got < bound"""
    def goal(a, b, ctx):
        return ctx.ge0(bound - 1 - a)
    out = []
    try:
        cases(got, ZERO, r.ctx, out)
    except Unknown as e:
        S.rep.unknown(r.key + ":range", str(e))
        return
    for cx, a, b, why in out:
        if not isinstance(a, Poly):
            S.rep.unknown(r.key + ":range", "not a number")
            return
        if goal(a, b, cx) or arith.deep(a, b, cx, goal):
            continue
        w = S.inhabited(cx.add(ge(a - bound)))
        if w and not arith_opq(a):
            S.rep.bad(r.key + ":range", "%s (%s): %s: returns %s, which is not below %s, e.g. %s" % (r.f.name, r.f.where(), what, vshow(a)[:160], show(bound), w))
        else:
            S.rep.unknown(r.key + ":range", "cannot bound %s" % vshow(a)[:160])
        return
    S.rep.ok(r.key + ":range", what)


def arith_opq(p):
    return has_opq(p)


BIN = {"AddReduce": lambda x, y: x + y, "SubReduce": lambda x, y: x - y, "MulReduce": lambda x, y: x * y}


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    n = {}

    def count(k):
        n[k] = n.get(k, 0) + 1
    for f in prog.wsfns:
        with guard(rep, f.name):
            if "{closure" in f.name:
                continue
            pr = parse(f)
            if pr is None:
                continue
            tr, mod, slf, meth = pr
            assign = tr.endswith("Assign")
            base = tr[:-6] if assign else tr
            if base in BIN and "Shoup" not in f.name:
                M = classify(mod, slf)
                if M is None:
                    continue
                binary(S, prog, f, base, assign, M)
                count("%s %s" % (M.kind, tr))
            elif base == "NegReduce":
                M = classify(mod, slf)
                if M is None:
                    continue
                x = M.operand("x")
                go(S, prog, f, assign, M, [x], -x, "negation")
                count("%s %s" % (M.kind, tr))
            elif base in ("Reduce", "LazyReduce"):
                M = classify(mod, slf)
                if M is None:
                    continue
                if slf.startswith("&"):
                    slices(S, prog, f, base, M)
                    count("%s %s of a slice" % (M.kind, base))
                    continue
                reduce_(S, prog, f, base, assign, M, slf)
                count("%s %s" % (M.kind, tr))
            elif base == "DivReduce":
                M = classify(mod, slf)
                if M is None or M.kind == "wrap":      # dividing machine words is integer division
                    continue
                x, y = M.operand("x"), M.operand("y")
                inv = mk_fn("inv", (y, M.q), 0, M.q - 1)
                if M.kind == "babybear":
                    r = Run(S, prog, f, args(f, M, [x, y], assign))
                    if r.res:
                        monty(S, r, "division", result(r, assign), x * inv)
                else:
                    go(S, prog, f, assign, M, [x, y], x * inv, "division by multiplication with the inverse")
                count("%s %s" % (M.kind, tr))
            elif base == "DotProductReduce":
                M = classify(mod, slf)
                if M is None:
                    continue
                dotprod(S, prog, f, M)
                count("%s %s" % (M.kind, tr))
            elif base == "LazyMulReduce":
                M = classify(mod, slf)
                if M is None:
                    continue
                x, y = M.anyword("x"), M.anyword("y")
                lazy(S, prog, f, assign, M, [x, y], x * y, "lazy product")
                count("%s %s" % (M.kind, tr))
    shoup(S, prog, count)
    misc(S, prog, count)
    fields(S, prog, count)
    for k, least in FLOORS.items():
        rep.floor(k, sum(v for kk, v in n.items() if re.fullmatch(k, kk)), least)
    rep.notes["operations"] = n
    return rep.finish(
        "the value number of each operation's result equals the value number of the residue its trait requires, for symbolic operands and modulus; lazy forms are congruent and below twice the modulus; no panic is reachable on admissible operands",
        explanation="Every compiled instance of the reduction traits for native moduli, BarrettModulus, PowOf2Modulus, machine wrap-around, Goldilocks and Baby Bear (u8..u128), the Shoup factor type, the Montgomery conversions and the operators of four derived fields is interpreted over MIR with symbolic operands and a symbolic modulus; the resulting normal form is compared with the residue of the exact integer expression. A violation names the operation and operand values for which the two normal forms differ.",
        trusted=["rustc (nightly) front end and MIR construction", "the value-numbering rules in /verif/an (term.py, arith.py), in particular the quotient-estimate lemma", "the models of integer intrinsics in /verif/an/models.py", "Fermat's little theorem for the derived field inverse"])


FLOORS = {"native (Add|Sub|Neg)Reduce": 12, "native (Add|Sub|Neg)ReduceAssign": 12, "wrap (Add|Sub|Mul|Neg)Reduce(Assign)?": 32, "powof2 (Add|Sub|Mul|Neg)Reduce(Assign)?": 40,
          "barrett (Add|Sub|Neg)Reduce(Assign)?": 6, "barrett MulReduce(Assign)?": 8, "barrett (Lazy)?Reduce(Assign)?": 32, "barrett LazyMulReduce(Assign)?": 5, "barrett (Lazy)?Reduce of a slice": 8, "barrett DotProductReduce": 4,
          "goldilocks .*": 12, "babybear .*": 9, "shoup .*": 28, "(to|from)_monty": 2, "to_canonical": 1, "powof2 new": 5, "field .*": 84}


def args(f, M, xs, assign):
    """argument values: operands (the first behind a pointer for the assigning form), then the modulus"""
    def over(I, st):
        o = {}
        for i, x in enumerate(xs):
            o[i] = x
        if assign:
            c = I.newcell(st, xs[0], "x", None)
            o[0] = Ref(c)
        k = f.argc - 1
        if k not in o:
            o[k] = M.value(f.locals[k + 1])
        return o
    return over


def result(r, assign):
    return r.st.mem[r.vals[0].cell] if assign else r.ret


def go(S, prog, f, assign, M, xs, want, what):
    r = Run(S, prog, f, args(f, M, xs, assign))
    if r.res:
        compare_residue(S, r, what, result(r, assign), want, M)


def binary(S, prog, f, base, assign, M):
    x, y = M.operand("x"), M.operand("y")
    if base == "MulReduce" and M.kind == "babybear":
        r = Run(S, prog, f, args(f, M, [x, y], assign))
        if r.res:
            monty(S, r, "Montgomery product", result(r, assign), x * y)
        return
    go(S, prog, f, assign, M, [x, y], BIN[base](x, y), base)


def monty(S, r, what, got, want):
    """2^32 got = want mod P and got < P"""
    S.deep = lambda a, b, cx: arith.deep(a, b, cx, cong(BP))
    g = lift(lambda xs, c: mk_rem(xs[0].scale(1 << 32), const(BP)) if isinstance(xs[0], Poly) else Opq("residue"), [got], r.ctx)
    S.compare(r.key, r.f, what, g, mk_rem(want, const(BP)), r.ctx)
    upper(S, r, what, got, const(BP))


def reduce_(S, prog, f, base, assign, M, slf):
    W = 1 << M.w
    if slf.startswith("[") or slf.startswith("("):
        lo, hi = M.anyword("lo"), M.anyword("hi")
        x = lo + hi * W
        a = SLit([lo, hi]) if slf.startswith("[") else Agg(f.locals[1], None, [lo, hi])
    else:
        x = a = M.anyword("x")
    if base == "LazyReduce":
        lazy(S, prog, f, assign, M, [a], x, "lazy residue")
    else:
        go(S, prog, f, assign, M, [a], x, "residue")


def slices(S, prog, f, base, M):
    """multi-word values of 1 to 4 words, least significant word first"""
    for n in range(1, 5):
        ws = [M.anyword("word %d" % i) for i in range(n)]
        x = ZERO
        for w in reversed(ws):
            x = x * (1 << M.w) + w

        def over(I, st):
            return {0: Ref(I.newcell(st, SLit(ws), "words")), f.argc - 1: M.value(f.locals[f.argc])}
        I = engine.new_interp(prog)
        I.unroll = (lambda fr: True, 4)
        r = Run(S, prog, f, over, key=f.name + ":%d words" % n, I=I)
        if not r.res:
            continue
        if base == "LazyReduce":
            lazy_result(S, r, M, r.ret, x, "lazy residue of %d words" % n)
        else:
            compare_residue(S, r, "residue of %d words" % n, r.ret, x, M)


def lazy(S, prog, f, assign, M, xs, want, what):
    r = Run(S, prog, f, args(f, M, xs, assign))
    if not r.res:
        return
    lazy_result(S, r, M, result(r, assign), want, what)


def lazy_result(S, r, M, got, want, what):
    g = lift(lambda ys, c: mk_rem(ys[0], M.q, c) if isinstance(ys[0], Poly) else Opq("residue"), [got], r.ctx)
    S.deep = arith.deep
    S.compare(r.key, r.f, what, g, mk_rem(want, M.q), r.ctx)
    upper(S, r, what + " below twice the modulus", got, M.q * 2)


def accum(I, fr, st, inst, info, path, a):
    """the operations a dot product is built of, decided on their own above"""
    if info is None or not (info.get("implof") or "").startswith("algebra::reduce::") or len(I.callstack) < 1:
        return NotImplemented
    if info.get("item") in ("dot_product_reduce",):
        return NotImplemented
    nm = info["name"]
    q = None
    if "GoldilocksModulus" in nm:
        q = const(GP)
    if q is not None:
        if info["item"] not in ("mul_reduce", "add_reduce"):
            return NotImplemented
        x, y = [sem.leaf(sem.derefall(I, st, v)) for v in a[:2]]
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            return NotImplemented
        return mk_rem(x * y if info["item"] == "mul_reduce" else x + y, q), st
    return sem.reduce_ops(I, fr, st, inst, info, path, a)


def dotprod(S, prog, f, M):
    if M.kind == "babybear":
        return
    n = term.var("operand.len", 0, 1 << 40)

    def over(I, st):
        o = {}
        for i, nm in enumerate("ab"):
            k = term.fresh("i", 0)
            x = mk_sel("%s below %s" % (nm, show(M.q)), (k,))
            A = single_atom(k)
            term.set_sel_domain("%s below %s" % (nm, show(M.q)), 0, (1 << M.w) - 1 if M.kind in ("wrap", "goldilocks") else M.q - 1)
            x = mk_sel("%s below %s" % (nm, show(M.q)), (k,))
            v = SLam(n, A, x, None)
            t = prog.types[f.locals[i + 1]]
            for _ in range(4):
                if t["k"] in ("ref",):
                    v = Ref(I.newcell(st, v, nm, t["to"]))
                    t = prog.types[t["to"]]
                    if t["k"] in ("slice",):
                        break
                else:
                    break
            o[i] = v
        o[2] = M.value(f.locals[3])
        return o
    I = engine.new_interp(prog)
    I.intercepts = [accum] + list(I.intercepts)
    r = Run(S, prog, f, over, I=I)
    if r.res:
        k = term.fresh("k", 0)
        nm = " below %s" % show(M.q)
        want = term.mk_sum(mk_sel("a" + nm, (k,)) * mk_sel("b" + nm, (k,)), single_atom(k), n)
        compare_residue(S, r, "dot product", r.ret, want, M)


# ---------------------------------------------------------------- Shoup factors
def shoup(S, prog, count):
    S.deep = arith.deep
    for f in prog.wsfns:
        with guard(S.rep, f.name):
            m = re.search(r"ShoupFactor(?:::)?<u(\d+)>", f.name)
            if not m or "{closure" in f.name:
                continue
            w = int(m.group(1))
            W = 1 << w
            item = f.info["item"]
            q = term.var("modulus up to 2^%d" % (w - 1), 2, W // 2)
            v = P(mk_atom("var", ("v below %s" % show(q),), 0, q - 1))
            x = term.var("x u%d" % w, 0, W - 1)
            quot = mk_quo(v * W, q)

            def fac(ty, v=v, quot=quot):
                return Agg(ty, None, [v, quot])
            if item == "new" and f.argc == 2:
                r = Run(S, prog, f, {0: v, 1: q})
                if r.res:
                    S.compare(r.key, f, "precomputed factor", r.ret, fac(f.locals[0]), r.ctx)
                count("shoup new")
            elif item in ("set", "set_modulus"):
                old = Agg(prog.types[f.locals[1]]["to"], None, [v if item == "set_modulus" else term.var("old value u%d" % w, 0, W - 1), term.var("old quotient u%d" % w, 0, W - 1)])

                def over(I, st, old=old, item=item):
                    o = {0: Ref(I.newcell(st, old, "self", None))}
                    if item == "set":
                        o[1], o[2] = v, q
                    else:
                        o[1] = q
                    return o
                r = Run(S, prog, f, over)
                if r.res:
                    S.compare(r.key, f, "precomputed factor", r.st.mem[r.vals[0].cell], fac(old.ty), r.ctx)
                count("shoup set")
            elif item in ("mul_reduce", "mul_reduce_assign", "mul_reduce_lazy"):
                isfac = ["ShoupFactor" in prog.types[f.locals[i + 1]]["name"] for i in range(f.argc)]
                if sum(isfac) != 1 or f.argc != 3:
                    S.rep.unknown(f.name, "unexpected arguments")
                    continue
                k = isfac.index(True)
                j = 1 - k
                assign = item.endswith("assign")

                def over(I, st, k=k, j=j, assign=assign, f=f):
                    return {k: fac(f.locals[k + 1]), j: Ref(I.newcell(st, x, "self", None)) if assign else x, 2: q}
                r = Run(S, prog, f, over)
                if not r.res:
                    continue
                got = result(r, assign)
                if item == "mul_reduce_lazy":
                    g = lift(lambda ys, c: mk_rem(ys[0], q, c) if isinstance(ys[0], Poly) else Opq("residue"), [got], r.ctx)
                    S.compare(r.key, f, "lazy product", g, mk_rem(v * x, q), r.ctx)
                    upper(S, r, "lazy product below twice the modulus", got, q * 2)
                else:
                    S.compare(r.key, f, "product", got, mk_rem(v * x, q), r.ctx)
                count("shoup " + item)


# ---------------------------------------------------------------- constructors, conversions and word primitives
def misc(S, prog, count):
    for f in prog.wsfns:
        with guard(S.rep, f.name):
            if "{closure" in f.name or f.crate != "algebra":
                continue
            n = f.name
            if re.search(r"PowOf2Modulus::<u\d+>::new$", n):
                w = int(re.search(r"u(\d+)", n).group(1))
                k = term.var("log2 modulus below %d" % w, 1, w - 1)
                r = Run(S, prog, f, {0: mk_pow(const(2), k)})
                if r.res:
                    S.deep = None
                    S.compare(r.key, f, "mask", r.ret, Agg(f.locals[0], None, [mk_pow(const(2), k) - 1]), r.ctx)
                count("powof2 new")
            elif n.endswith("modulus::to_monty"):
                x = term.var("x below P", 0, BP - 1)
                r = Run(S, prog, f, {0: x})
                if r.res:
                    S.deep = lambda a, b, cx: arith.deep(a, b, cx)
                    S.compare(r.key, f, "Montgomery form", r.ret, mk_rem(x * (1 << 32), const(BP)), r.ctx)
                count("to_monty")
            elif n.endswith("modulus::from_monty"):
                x = term.var("x u32", 0, (1 << 32) - 1)
                r = Run(S, prog, f, {0: x})
                if r.res:
                    monty(S, r, "value of a Montgomery form", r.ret, x)
                count("from_monty")
            elif n.endswith("modulus::to_canonical_u64"):
                x = term.var("x u64", 0, (1 << 64) - 1)
                r = Run(S, prog, f, {0: x})
                if r.res:
                    S.deep = arith.deep
                    S.compare(r.key, f, "canonical residue", r.ret, mk_rem(x, const(GP)), r.ctx)
                count("to_canonical")



# ---------------------------------------------------------------- derived fields
FOPS = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}


def fields(S, prog, count):
    """operators of the derived fields, on canonical elements"""
    for f in prog.wsfns:
        with guard(S.rep, f.name):
            m = re.match(r"<roots::(F\d+) as (std::ops|num_traits|algebra)::(\w+)(?:<.*>)?>::(\w+)$", f.name)
            if not m or m.group(1) not in engine.FIELDQ:
                continue
            F, tr, item = m.group(1), m.group(3), m.group(4)
            assign = item.endswith("_assign") or item.endswith("_assign_fast")
            base = item.replace("_assign", "")
            q = const(engine.FIELDQ[F])
            x, y, z = [term.var("%s below %s" % (k, show(q)), 0, q - 1) for k in "xyz"]
            lazy_ = False
            inv = mk_fn("inv", (y, q), 0, q - 1)
            if tr in ("Add", "Sub", "Mul", "AddAssign", "SubAssign", "MulAssign") and base in FOPS:
                xs, want = [x, y], FOPS[base](x, y)
            elif tr in ("Div", "DivAssign"):
                xs, want = [x, y], x * inv
            elif tr == "Neg":
                xs, want = [x], -x
            elif tr == "Inv":
                xs, want = [y], inv
            elif tr == "FheField" and base in ("add_mul", "add_mul_fast"):
                xs, want, lazy_ = [x, y, z], x + y * z, base.endswith("fast")
            elif tr == "FheField" and base == "mul_fast":
                xs, want, lazy_ = [x, y], x * y, True
            elif tr == "Field" and item == "new":
                w = TY[prog.types[f.locals[1]]["name"]]
                v = term.var("v u%d" % w, 0, q - 1)
                r = Run(S, prog, f, {0: v})
                if r.res:
                    S.deep = None
                    S.compare(r.key, f, "canonical element", r.ret, Agg(f.locals[0], None, [v]), r.ctx)
                count("field new")
                continue
            else:
                continue
            fty = f.locals[0] if not assign else prog.types[f.locals[1]]["to"]

            def over(I, st, xs=xs, f=f, fty=fty):
                o = {}
                for i, v in enumerate(xs):
                    e = Agg(fty, None, [v])
                    o[i] = Ref(I.newcell(st, e, "x%d" % i, None)) if prog.types[f.locals[i + 1]]["k"] == "ref" else e
                return o
            I = engine.new_interp(prog)
            I.intercepts = [sem.reduce_ops] + list(I.intercepts)
            r = Run(S, prog, f, over, I=I)
            if not r.res:
                continue
            got = result(r, assign)
            got = lift(lambda v, c: v[0].f[0] if isinstance(v[0], Agg) else Opq("element"), [got], r.ctx)
            if tr == "Inv":
                fermat = mk_rem(mk_pow(y, q - 2), q)
                got = lift(lambda v, c: inv if v[0] == fermat else v[0], [got], r.ctx)
            S.deep = arith.deep
            if lazy_:
                g = lift(lambda v, c: mk_rem(v[0], q, c) if isinstance(v[0], Poly) else Opq("residue"), [got], r.ctx)
                S.compare(r.key, f, "lazy " + base, g, mk_rem(want, q), r.ctx)
                upper(S, r, base + " below twice the modulus", got, q * 2)
            else:
                S.compare(r.key, f, base, got, mk_rem(want, q), r.ctx)
            count("field " + item)
