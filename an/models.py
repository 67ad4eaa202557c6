"""Models of the std / num-traits / rand functions the workspace uses, selected by resolved path."""
import re
from values import *
from term import Fraction
import term

INLINE_CRATES = ("core", "std", "alloc", "num_traits")
NOINLINE = re.compile(r"fmt::|panicking|alloc::|intrinsics|sys::|thread|sync::|hash|ptr::|io::|rand|string::|raw_vec")


def strip_generics(p):
    """drop <...> groups that follow ::"""
    out = []
    d = 0
    i = 0
    while i < len(p):
        if p.startswith("::<", i) and d == 0 and not p.startswith("::<impl", i):
            d = 1
            i += 3
            while d:
                if p[i] == "<":
                    d += 1
                elif p[i] == ">" and p[i - 1] != "-":
                    d -= 1
                i += 1
            d = 0
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class Models:
    def __init__(self):
        self.tab = {}
        self.cache = {}

    def reg(self, *pats):
        def deco(f):
            for p in pats:
                self.tab[p] = f
            return f
        return deco

    def lookup(self, info, path):
        if info is not None and info["crate"] in ("algebra", "lattice", "fhe_core", "zkfhe", "roots"):
            return None
        if path in self.cache:
            return self.cache[path]
        r = None
        s = strip_generics(path)
        for p in (path, s):
            if p in self.tab:
                r = self.tab[p]
                break
        if r is None and info is not None:
            item = info["item"]
            of = info.get("implof") or info.get("trait")
            if of:
                r = self.tab.get("trait " + of + "::" + item)
            if r is None:
                m = re.match(r"core::num::<impl (\w+)>::(\w+)$", s)
                if m:
                    r = self.tab.get("num::" + m.group(2))
            if r is None and "slice" in s and "impl" in s:
                m = re.search(r"slice::<impl \[T\]>::(\w+)$", s)
                if m:
                    r = self.tab.get("slice::" + m.group(1))
            if r is None:
                m = re.search(r"(?:f64)(?:::<impl f64>|>)::(\w+)$", s)
                if m:
                    r = self.tab.get("f64::" + m.group(1))
        self.cache[path] = r
        return r

    def inline_std(self, info, fn):
        return info["crate"] in INLINE_CRATES and not NOINLINE.search(info["path"]) and len(fn.blocks) < 40


M = Models()
reg = M.reg
SOME, NONE = 1, 0


def some(v):
    return Agg("Option", 1, [v])


def none():
    return Agg("Option", 0, [])


def unit():
    return Agg("unit", None, [])


def width(I, info):
    m = re.search(r"<impl ([iu])(\d+|size)>", info["path"]) or re.search(r"<([iu])(\d+|size) as", info["path"])
    if not m:
        return 64, False
    return (64 if m.group(2) == "size" else int(m.group(2))), m.group(1) == "i"


def selfint(I, info):
    t = I.p.types[info["self"]] if info.get("self") is not None else None
    if t is not None and "_w" in t:
        return t["_w"]
    return width(I, info)


def deref(I, st, v):
    return I.load(st, v) if isinstance(v, (Ref,)) or (isinstance(v, Ch) and isinstance(leaf(v), Ref)) else v


def leaf(v):
    while isinstance(v, Ch):
        v = v.a
    return v


# ---------------------------------------------------------------- integers
def wrapping(op, mul=False):
    def f(I, fr, st, info, a, line):
        w, s = width(I, info)
        cut = I.cutmul if mul else None
        return lift(lambda xs, cx: I.wrap(op(*([cut(x, cx) for x in xs] if cut else xs)), w, s, cx) if all(isinstance(x, Poly) for x in xs) else Opq("wrapping"), list(a), st.ctx), st
    return f


M.tab["num::wrapping_add"] = wrapping(lambda x, y: x + y)
M.tab["num::wrapping_sub"] = wrapping(lambda x, y: x - y)
M.tab["num::wrapping_mul"] = wrapping(lambda x, y: x * y, True)
M.tab["num::wrapping_neg"] = wrapping(lambda x: -x)


def overflowing(opn, op):
    def f(I, fr, st, info, a, line):
        w, s = width(I, info)

        def g(xs, cx):
            if not all(isinstance(x, Poly) for x in xs):
                return Opq("overflowing")
            r = op(*xs)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            c = disj([lt(r, const(lo)), lt(const(hi), r)])
            return Agg(None, None, [I.wrap(r, w, s, cx), I.fold(c, cx)])
        return lift(g, list(a), st.ctx), st
    return f


M.tab["num::overflowing_add"] = overflowing("Add", lambda x, y: x + y)
M.tab["num::overflowing_sub"] = overflowing("Sub", lambda x, y: x - y)
M.tab["num::overflowing_mul"] = overflowing("Mul", lambda x, y: x * y)


def checked(op):
    def f(I, fr, st, info, a, line):
        w, s = width(I, info)

        def g(xs, cx):
            if not all(isinstance(x, Poly) for x in xs):
                return Opq("checked")
            r = op(*xs)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            c = I.fold(conj([le(const(lo), r), le(r, const(hi))]), cx)
            return choose(c, some(r), none(), cx)
        return lift(g, list(a), st.ctx), st
    return f


M.tab["num::checked_add"] = checked(lambda x, y: x + y)
M.tab["num::checked_sub"] = checked(lambda x, y: x - y)
M.tab["num::checked_mul"] = checked(lambda x, y: x * y)


def saturating_sub(I, fr, st, info, a, line):
    w, s = width(I, info)
    if s:
        return NotImplemented
    return lift(lambda xs, cx: choose(I.fold(le(xs[1], xs[0]), cx), xs[0] - xs[1], ZERO, cx), list(a), st.ctx), st


M.tab["num::saturating_sub"] = saturating_sub


@reg("num::is_power_of_two")
def _(I, fr, st, info, a, line):
    def g(xs, cx):
        if isinstance(xs[0], Poly):
            if I.is_pow2(xs[0]) or I.is_pow2(cx.simp(xs[0])):
                return T
            if xs[0].is_const():
                return F
            return ob("pow2", xs[0])
        return ob("opq", next_ix())
    return lift(g, list(a), st.ctx), st


def fnum(name, lo, hi, consteval=None):
    def f(I, fr, st, info, a, line):
        w, s = selfint(I, info)

        def g(xs, cx):
            x = xs[0]
            if not isinstance(x, Poly):
                return Opq(name)
            x = cx.simp(x)
            if x.is_const() and consteval:
                return const(consteval(x.cval(), w))
            if name in ("trailing_zeros", "ilog2") and I.is_pow2(x):
                return log2poly(x)
            if name == "leading_zeros":
                if I.is_pow2(x):
                    l = log2poly(x)
                    if l is not None:
                        return const(w - 1) - l
                p = lzatom(x, w)
                return p
            if name == "count_ones" and I.is_pow2(x):
                return ONE
            return mk_fn(name, (const(w), x), lo, hi(w))
        return lift(g, [deref(I, st, a[0])], st.ctx), st
    return f


def log2poly(x):
    """exponent of a power-of-two term"""
    if x.is_const():
        return const(x.cval().bit_length() - 1)
    (m, c), = x.d.items()
    r = const(c.bit_length() - 1)
    for a in m:
        A = term.atom_by_id(a)
        if A.kind == "pow":
            r = r + A.args[1] * (A.args[0].cval().bit_length() - 1)
        else:
            hi = None
            h = A.nhi
            if h is not None:
                hi = int(h).bit_length() - 1
            r = r + mk_fn("log2", (P(A),), (int(A.nlo).bit_length() - 1 if A.nlo and A.nlo >= 1 else 0), hi)
    return r


def lzatom(x, w):
    lo, hi = x.bounds()
    l = 0
    h = w
    if hi is not None:
        l = w - int(hi).bit_length()
    if lo is not None and lo >= 1:
        h = w - int(lo).bit_length()
    return mk_fn("lz", (const(w), x), max(l, 0), max(min(h, w), 0))


def ctz(v, w):
    return w if v == 0 else (v & -v).bit_length() - 1


M.tab["num::trailing_zeros"] = fnum("trailing_zeros", 0, lambda w: w, ctz)
M.tab["num::leading_zeros"] = fnum("leading_zeros", 0, lambda w: w, lambda v, w: w - v.bit_length())
M.tab["num::count_ones"] = fnum("count_ones", 0, lambda w: w, lambda v, w: bin(v).count("1"))
M.tab["num::ilog2"] = fnum("ilog2", 0, lambda w: w - 1, lambda v, w: v.bit_length() - 1)
M.tab["num::reverse_bits"] = fnum("reverse_bits", 0, lambda w: (1 << w) - 1, None)
M.tab["num::next_power_of_two"] = fnum("next_power_of_two", 1, lambda w: 1 << w, lambda v, w: 1 << max(v - 1, 0).bit_length())
M.tab["trait num_traits::PrimInt::trailing_zeros"] = M.tab["num::trailing_zeros"]
M.tab["trait num_traits::PrimInt::leading_zeros"] = M.tab["num::leading_zeros"]
M.tab["trait num_traits::PrimInt::count_ones"] = M.tab["num::count_ones"]


@reg("num::div_ceil")
def _(I, fr, st, info, a, line):
    return lift(lambda xs, cx: mk_quo(xs[0] + xs[1] - 1, xs[1], cx), list(a), st.ctx), st


@reg("num::abs_diff")
def _(I, fr, st, info, a, line):
    return lift(lambda xs, cx: choose(I.fold(le(xs[1], xs[0]), cx), xs[0] - xs[1], xs[1] - xs[0], cx), list(a), st.ctx), st


@reg("num::pow")
def _(I, fr, st, info, a, line):
    w, s = width(I, info)
    return lift(lambda xs, cx: I.wrap(mk_pow(xs[0], xs[1]), w, s, cx), list(a), st.ctx), st


@reg("num::wrapping_shr", "num::unchecked_shr")
def _(I, fr, st, info, a, line):
    w, s = width(I, info)
    return lift(lambda xs, cx: mk_quo(xs[0], mk_pow(const(2), mk_rem(xs[1], const(w), cx)), cx), list(a), st.ctx), st


@reg("num::wrapping_shl", "num::unchecked_shl")
def _(I, fr, st, info, a, line):
    w, s = width(I, info)
    return lift(lambda xs, cx: I.wrap(xs[0] * mk_pow(const(2), mk_rem(xs[1], const(w), cx)), w, s, cx), list(a), st.ctx), st


@reg("num::wrapping_div")
def _(I, fr, st, info, a, line):
    return lift(lambda xs, cx: mk_quo(xs[0], xs[1], cx), list(a), st.ctx), st


@reg("num::wrapping_rem")
def _(I, fr, st, info, a, line):
    return lift(lambda xs, cx: mk_rem(xs[0], xs[1], cx), list(a), st.ctx), st


def minmax(f, g):
    def h(I, fr, st, info, a, line):
        def k(xs, cx):
            if isinstance(xs[0], Poly) and isinstance(xs[1], Poly):
                return f(xs[0], xs[1], cx)
            if is_float(xs[0]):
                return ("fl", g, xs[0], xs[1])
            return Opq("minmax")
        return lift(k, list(a), st.ctx), st
    return h


M.tab["trait std::cmp::Ord::min"] = minmax(mk_min, "min")
M.tab["trait std::cmp::Ord::max"] = minmax(mk_max, "max")
M.tab["std::cmp::min"] = M.tab["trait std::cmp::Ord::min"]
M.tab["std::cmp::max"] = M.tab["trait std::cmp::Ord::max"]

OPS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr",
       "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}


def prim_op(op, assign):
    def f(I, fr, st, info, a, line):
        ty = info.get("self")
        t = I.p.types[ty] if ty is not None else None
        refself = False
        if t is not None and t["k"] == "ref":
            ty = t["to"]
            t = I.p.types[ty]
            refself = True
        if t is None or t["k"] not in ("int", "bool", "float"):
            return NotImplemented
        x = a[0]
        y = deref(I, st, a[1])
        xv = deref(I, st, x)
        if op in ("Add", "Sub", "Mul") and t["k"] == "int":
            ov = I.overflow(op, xv, y, ty, st.ctx)
            r = st.ctx.decide(ov)
            I.oblig(fr, "ovf", neg(ov), st.ctx, line)
            if r is True:
                I.panic(fr, "ovf", st.ctx, line)
                return None
            if r is None:
                I.panic(fr, "ovf", st.ctx.add(ov), line)
                st.ctx = st.ctx.add(neg(ov))
        v = I.binop(op, xv, y, ty, st.ctx)
        if assign:
            I.store(st, x, v)
            return unit(), st
        return v, st
    return f


for _n, _o in OPS.items():
    M.tab["trait std::ops::%s::%s" % (_o, _n)] = prim_op(_o, False)
    M.tab["trait std::ops::%sAssign::%s_assign" % (_o, _n)] = prim_op(_o, True)


@reg("trait std::ops::Neg::neg")
def _(I, fr, st, info, a, line):
    t = I.p.types[info["self"]]
    if t["k"] != "int":
        return NotImplemented
    w, s = t["_w"]
    return lift(lambda xs, cx: I.wrap(-xs[0], w, s, cx), [a[0]], st.ctx), st


@reg("trait std::ops::Not::not")
def _(I, fr, st, info, a, line):
    t = I.p.types[info["self"]]
    if t["k"] == "bool":
        return neg(I.b(a[0])), st
    if t["k"] != "int":
        return NotImplemented
    w, s = t["_w"]
    return lift(lambda xs, cx: (-xs[0] - 1) if s else ((1 << w) - 1 - xs[0]), [a[0]], st.ctx), st


def derefall(I, st, v):
    n = 0
    while isinstance(leaf(v), Ref) and n < 4:
        v = I.load(st, v)
        n += 1
    return v


def cmp_op(op):
    def f(I, fr, st, info, a, line):
        x, y = derefall(I, st, a[0]), derefall(I, st, a[1])
        if isinstance(leaf(x), Agg) or isinstance(leaf(x), Seq):
            return NotImplemented
        return I.binop(op, x, y, None, st.ctx), st
    return f


for _n, _o in (("eq", "Eq"), ("ne", "Ne")):
    M.tab["trait std::cmp::PartialEq::" + _n] = cmp_op(_o)
for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    M.tab["trait std::cmp::PartialOrd::" + _n] = cmp_op(_o)


@reg("trait num_traits::Zero::is_zero")
def _(I, fr, st, info, a, line):
    v = derefall(I, st, a[0])
    if isinstance(leaf(v), Poly):
        return I.binop("Eq", v, ZERO, None, st.ctx), st
    return NotImplemented


@reg("trait num_traits::One::is_one")
def _(I, fr, st, info, a, line):
    v = derefall(I, st, a[0])
    if isinstance(leaf(v), Poly):
        return I.binop("Eq", v, ONE, None, st.ctx), st
    return NotImplemented


@reg("trait num_traits::Zero::zero", "trait num_traits::ConstZero::zero")
def _(I, fr, st, info, a, line):
    t = I.p.types[info["self"]]
    return (ZERO, st) if t["k"] == "int" else NotImplemented


@reg("trait num_traits::One::one")
def _(I, fr, st, info, a, line):
    t = I.p.types[info["self"]]
    return (ONE, st) if t["k"] == "int" else NotImplemented


def int_conv(I, fr, st, v, sty, dty, trying):
    t = I.p.types[dty]
    if t["k"] != "int":
        return NotImplemented
    w, s = t["_w"]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)

    def g(xs, cx):
        x = xs[0]
        if is_bool(x):
            x = I.b2i(x)
        if not isinstance(x, Poly):
            return Opq("conv")
        if not trying:
            return I.wrap(x, w, s, cx)
        c = I.fold(conj([le(const(lo), x), le(x, const(hi))]), cx)
        return choose(c, Agg("Result", 0, [x]), Agg("Result", 1, [Agg("TryFromIntError", None, [])]), cx)
    return lift(g, [v], st.ctx), st


def type_of_generic(I, info, idx):
    a = info.get("args") or []
    return a[idx] if idx < len(a) else None


@reg("<T as std::convert::TryInto<U>>::try_into")
def _(I, fr, st, info, a, line):
    # args T, U
    ts = [x for x in info["args"] if isinstance(x, int)]
    if len(ts) >= 2 and I.p.types[ts[0]]["k"] == "int" and I.p.types[ts[1]]["k"] == "int":
        return int_conv(I, fr, st, a[0], ts[0], ts[1], True)
    return NotImplemented


@reg("<T as std::convert::Into<U>>::into")
def _(I, fr, st, info, a, line):
    ts = [x for x in info["args"] if isinstance(x, int)]
    if len(ts) >= 2 and I.p.types[ts[0]]["k"] == "int" and I.p.types[ts[1]]["k"] == "int":
        return int_conv(I, fr, st, a[0], ts[0], ts[1], False)
    return NotImplemented


@reg("trait std::convert::TryFrom::try_from")
def _(I, fr, st, info, a, line):
    t = I.p.types[info["self"]]
    if t["k"] == "int":
        return int_conv(I, fr, st, a[0], None, info["self"], True)
    return NotImplemented


@reg("trait std::convert::From::from")
def _(I, fr, st, info, a, line):
    if info.get("self") is None:
        return NotImplemented
    t = I.p.types[info["self"]]
    if t["k"] == "int":
        return int_conv(I, fr, st, a[0], None, info["self"], False)
    if t["k"] == "float":
        return lift(lambda xs, cx: ("fl", "i2f", xs[0]) if isinstance(xs[0], Poly) else xs[0], [a[0]], st.ctx), st
    return NotImplemented


@reg("<T as std::convert::From<T>>::from", "<T as std::convert::Into<T>>::into", "<I as std::iter::IntoIterator>::into_iter",
     "std::hint::black_box", "std::convert::identity", "<&mut I as std::iter::IntoIterator>::into_iter")
def _(I, fr, st, info, a, line):
    return a[0], st


@reg("trait num_traits::NumCast::from")
def _(I, fr, st, info, a, line):
    ty = info.get("self")
    if ty is None or I.p.types[ty]["k"] != "int":
        return NotImplemented
    w, s = I.p.types[ty]["_w"]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)

    def g(xs, cx):
        if not isinstance(xs[0], Poly):
            return Opq("numcast")
        return choose(I.fold(conj([le(const(lo), xs[0]), le(xs[0], const(hi))]), cx), some(xs[0]), none(), cx)
    return lift(g, [a[0]], st.ctx), st


@reg("trait num_traits::ToPrimitive::to_f64")
def _(I, fr, st, info, a, line):
    v = derefall(I, st, a[0])
    return lift(lambda xs, cx: some(("fl", "i2f", xs[0])) if isinstance(xs[0], Poly) else Opq("tof64"), [v], st.ctx), st


def toprim(w, s):
    def f(I, fr, st, info, a, line):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        v = derefall(I, st, a[0])

        def g(xs, cx):
            if not isinstance(xs[0], Poly):
                return Opq("toprim")
            return choose(I.fold(conj([le(const(lo), xs[0]), le(xs[0], const(hi))]), cx), some(xs[0]), none(), cx)
        return lift(g, [v], st.ctx), st
    return f


for _k, _w in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", 64), ("u128", 128)):
    M.tab["trait num_traits::ToPrimitive::to_" + _k] = toprim(_w, False)


def ascast(I, fr, st, info, a, line):
    ts = [x for x in (info.get("args") or []) if isinstance(x, int)]
    return NotImplemented


@reg("trait std::clone::Clone::clone", "trait std::borrow::ToOwned::to_owned")
def _(I, fr, st, info, a, line):
    v = I.load(st, a[0])
    if isinstance(leaf(v), (Poly, Seq, It, Rng)) or is_bool(leaf(v)) or is_float(leaf(v)):
        return v, st
    if isinstance(leaf(v), Ref):
        return v, st
    n = info["path"]
    if "std::" in n or "core::" in n or "alloc::" in n:
        return v, st
    return v, st


@reg("trait std::default::Default::default")
def _(I, fr, st, info, a, line):
    t = I.p.types[info["self"]] if info.get("self") is not None else None
    if t is None:
        return NotImplemented
    if t["k"] == "int":
        return ZERO, st
    if t["k"] == "bool":
        return F, st
    if t["k"] == "adt" and t["path"] == "std::vec::Vec":
        return SConst(ZERO, UNDEF, t["args"][0]), st
    return NotImplemented


# ---------------------------------------------------------------- floats
def flfn(name):
    def f(I, fr, st, info, a, line):
        return lift(lambda xs, cx: ("fl", name) + tuple(xs) if all(is_float(x) or isinstance(x, Poly) for x in xs) else Opq(name), list(a), st.ctx), st
    return f


for _n in ("round", "abs", "floor", "ceil", "trunc", "sqrt", "powi", "exp2", "log2"):
    M.tab["f64::" + _n] = flfn(_n)

def to_bits(I, fr, st, info, a, line):
    def g(xs, cx):
        x = xs[0]
        if not is_float(x):
            return Opq("to_bits")
        if x[1] == "const":
            return const(int.from_bytes(bytes.fromhex(x[2]), "little"))
        return mk_fn("bits", (x,), 0, (1 << 64) - 1)
    return lift(g, [a[0]], st.ctx), st


M.tab["f64::to_bits"] = to_bits

# ---------------------------------------------------------------- Option / Result


def opt(name):
    return ("std::option::Option::<T>::" + name,)


def unwrap_like(variant):
    def f(I, fr, st, info, a, line):
        v = prune(a[0], st.ctx)
        v2, st2 = split_variant(I, fr, st, v, variant, line, info["path"])
        if st2 is None:
            return None
        return v2, st2
    return f


def is_variant(I, v, k):
    if isinstance(v, Ch):
        a, b = is_variant(I, v.a, k), is_variant(I, v.b, k)
        return disj([conj([v.c, a]), conj([neg(v.c), b])])
    if isinstance(v, Agg):
        return T if (v.var or 0) == k else F
    return ob("opq", next_ix())


def split_variant(I, fr, st, v, k, line, what):
    c = is_variant(I, v, k)
    r = st.ctx.decide(c)
    if r is False:
        I.panic(fr, what, st.ctx, line)
        return None, None
    if r is None:
        I.oblig(fr, "unwrap", c, st.ctx, line)
        I.panic(fr, what, st.ctx.add(neg(c)), line)
        st.ctx = st.ctx.add(c)
    x = I.getp(v, (("v", k), ("f", 0)), st.ctx)
    return (Opq("unwrap") if x is None else x), st


for _p in ("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect", "std::option::Option::<T>::unwrap_unchecked"):
    M.tab[_p] = unwrap_like(1)
for _p in ("std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect"):
    M.tab[_p] = unwrap_like(0)


@reg("std::result::Result::<T, E>::unwrap_err")
def _(I, fr, st, info, a, line):
    v, st2 = split_variant(I, fr, st, a[0], 1, line, info["path"])
    return None if st2 is None else (v, st2)


def isv(k):
    def f(I, fr, st, info, a, line):
        return is_variant(I, derefall(I, st, a[0]), k), st
    return f


M.tab["std::option::Option::<T>::is_some"] = isv(1)
M.tab["std::option::Option::<T>::is_none"] = isv(0)
M.tab["std::result::Result::<T, E>::is_ok"] = isv(0)
M.tab["std::result::Result::<T, E>::is_err"] = isv(1)


@reg("std::result::Result::<T, E>::ok")
def _(I, fr, st, info, a, line):
    def g(xs, cx):
        x = xs[0]
        if isinstance(x, Agg):
            return some(x.f[0]) if (x.var or 0) == 0 else none()
        return Opq("ok")
    return lift(g, [a[0]], st.ctx), st


@reg("std::option::Option::<T>::ok_or")
def _(I, fr, st, info, a, line):
    def g(xs, cx):
        x = xs[0]
        if isinstance(x, Agg):
            return Agg("Result", 0, [x.f[0]]) if x.var == 1 else Agg("Result", 1, [a[1]])
        return Opq("ok_or")
    return lift(g, [a[0]], st.ctx), st


def map_variant(k, wrap):
    def f(I, fr, st, info, a, line):
        v = prune(a[0], st.ctx)
        c = is_variant(I, v, k)
        r = st.ctx.decide(c)
        if r is False:
            return v, st
        s1 = st.copy()
        if r is None:
            s1.ctx = s1.ctx.add(c)
        x = I.getp(v, (("v", k), ("f", 0)), s1.ctx)
        rr = I.models_call(fr, s1, a[1], [x])
        if rr is None:
            if r is True:
                return None
            st.ctx = st.ctx.add(neg(c))
            return v, st
        y, s1 = rr
        y = wrap(y)
        if r is True:
            return y, s1
        s2 = st.copy()
        s2.ctx = s2.ctx.add(neg(c))
        tmp = I.tmpcell(s1, y)
        s2.mem[tmp] = v
        out = I.merge([s1, s2])
        return out.mem.pop(tmp), out
    return f


M.tab["std::option::Option::<T>::map"] = map_variant(1, some)
M.tab["std::result::Result::<T, E>::map"] = map_variant(0, lambda y: Agg("Result", 0, [y]))
M.tab["std::result::Result::<T, E>::map_err"] = map_variant(1, lambda y: Agg("Result", 1, [y]))
M.tab["std::option::Option::<T>::and_then"] = map_variant(1, lambda y: y)


def unwrap_or(k):
    def f(I, fr, st, info, a, line):
        v = prune(a[0], st.ctx)

        def g(xs, cx):
            x = xs[0]
            if isinstance(x, Agg):
                return x.f[0] if (x.var or 0) == k else a[1]
            return Opq("unwrap_or")
        return lift(g, [v], st.ctx), st
    return f


M.tab["std::option::Option::<T>::unwrap_or"] = unwrap_or(1)
M.tab["std::result::Result::<T, E>::unwrap_or"] = unwrap_or(0)


@reg("trait std::ops::Try::branch")
def _(I, fr, st, info, a, line):
    isres = "Result" in info["path"]

    def g(xs, cx):
        x = xs[0]
        if not isinstance(x, Agg):
            return Opq("branch")
        if isres:
            if (x.var or 0) == 0:
                return Agg("ControlFlow", 0, [x.f[0]])
            return Agg("ControlFlow", 1, [x])
        if x.var == 1:
            return Agg("ControlFlow", 0, [x.f[0]])
        return Agg("ControlFlow", 1, [x])
    return lift(g, [a[0]], st.ctx), st


@reg("trait std::ops::FromResidual::from_residual")
def _(I, fr, st, info, a, line):
    return a[0], st


# ---------------------------------------------------------------- Vec, slices, Box, Arc
def seq_of(I, st, v):
    v = derefall(I, st, v)
    return v


IDENT = ("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
         "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
         "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut",
         "<[T] as std::convert::AsRef<[T]>>::as_ref", "<[T] as std::convert::AsMut<[T]>>::as_mut",
         "trait std::borrow::Borrow::borrow", "trait std::borrow::BorrowMut::borrow_mut",
         "<std::boxed::Box<T, A> as std::ops::Deref>::deref", "<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut",
         "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref", "slice::as_ptr", "slice::as_mut_ptr",
         "std::vec::Vec::<T, A>::into_boxed_slice", "std::slice::<impl [T]>::into_vec",
         "trait std::convert::AsRef::as_ref_",
         "std::array::<impl [T; N]>::as_slice", "std::boxed::Box::<T>::new", "std::ptr::NonNull::<T>::as_ptr")
for _p in IDENT:
    M.tab[_p] = lambda I, fr, st, info, a, line: (a[0], st)


@reg("std::boxed::Box::<T>::new_uninit")
def _(I, fr, st, info, a, line):
    return Agg("uninit", None, [UNDEF, Agg("manually drop", None, [UNDEF])]), st


@reg("std::boxed::box_assume_init_into_vec_unsafe")
def _(I, fr, st, info, a, line):
    return lift(lambda xs, cx: xs[0].f[1].f[0] if isinstance(xs[0], Agg) and xs[0].ty == "uninit" else xs[0], [a[0]], st.ctx), st


@reg("<&T as std::convert::AsRef<U>>::as_ref", "<&mut T as std::convert::AsRef<U>>::as_ref", "<&mut T as std::convert::AsMut<U>>::as_mut")
def _(I, fr, st, info, a, line):
    v = I.load(st, a[0])
    if isinstance(leaf(v), Ref):
        inner = I.load(st, v)
        if isinstance(leaf(inner), Seq):
            return v, st
    return NotImplemented


@reg("<std::sync::Arc<T, A> as std::ops::Deref>::deref", "<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref")
def _(I, fr, st, info, a, line):
    return I.load(st, a[0]), st


@reg("std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new")
def _(I, fr, st, info, a, line):
    c = I.newcell(st, a[0], "arc")
    return Ref(c), st


@reg("std::vec::Vec::<T, A>::len", "slice::len", "std::collections::VecDeque::<T, A>::len")
def _(I, fr, st, info, a, line):
    return I.seqlen(prune(I.load(st, a[0]), st.ctx)), st


@reg("std::vec::Vec::<T, A>::is_empty", "slice::is_empty")
def _(I, fr, st, info, a, line):
    n = I.seqlen(I.load(st, a[0]))
    return I.binop("Eq", n, ZERO, None, st.ctx), st


@reg("std::vec::from_elem")
def _(I, fr, st, info, a, line):
    ety = info["args"][0] if info.get("args") else None
    n = a[1]
    if not isinstance(n, Poly):
        return Opq("from_elem"), st
    return SConst(n, a[0], ety), st


@reg("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T, A>::with_capacity_in")
def _(I, fr, st, info, a, line):
    ety = info["args"][0] if info.get("args") else None
    return SConst(ZERO, UNDEF, ety), st


@reg("std::vec::Vec::<T, A>::push")
def _(I, fr, st, info, a, line):
    v = prune(I.load(st, a[0]), st.ctx)
    if not isinstance(v, Seq):
        I.store(st, a[0], Opq("push"))
        return unit(), st
    if isinstance(v, SConst) and v.n == ZERO:
        v = SLit([], v.ety)
    if isinstance(v, SLit):
        nv = SLit(v.vals + [a[1]], v.ety)
    else:
        nv = SUpd(v, v.n, a[1], v.n + 1)
    I.store(st, a[0], nv)
    return unit(), st


@reg("std::vec::Vec::<T, A>::truncate")
def _(I, fr, st, info, a, line):
    v = I.load(st, a[0])
    if isinstance(v, Seq) and isinstance(a[1], Poly):
        I.store(st, a[0], SView(v, ZERO, mk_min(v.n, a[1], st.ctx)))
    else:
        I.store(st, a[0], Opq("truncate"))
    return unit(), st


@reg("std::vec::Vec::<T, A>::clear")
def _(I, fr, st, info, a, line):
    v = I.load(st, a[0])
    I.store(st, a[0], SConst(ZERO, UNDEF, getattr(v, "ety", None)))
    return unit(), st


@reg("std::vec::Vec::<T, A>::resize")
def _(I, fr, st, info, a, line):
    v = I.load(st, a[0])
    if not (isinstance(v, Seq) and isinstance(a[1], Poly)):
        I.store(st, a[0], Opq("resize"))
        return unit(), st
    grown = SSplice(SConst(a[1], a[2], v.ety), ZERO, SView(v, ZERO, mk_min(v.n, a[1], st.ctx)), a[1])
    I.store(st, a[0], grown)
    return unit(), st


@reg("std::vec::Vec::<T, A>::extend_from_slice")
def _(I, fr, st, info, a, line):
    v, w = I.load(st, a[0]), I.load(st, a[1])
    if isinstance(v, Seq) and isinstance(w, Seq):
        I.store(st, a[0], SSplice(SView(v, ZERO, v.n + w.n), v.n, w, v.n + w.n))
    else:
        I.store(st, a[0], Opq("extend"))
    return unit(), st


@reg("slice::to_vec", "std::slice::<impl [T]>::to_vec", "<[T] as std::borrow::ToOwned>::to_owned", "std::slice::<impl [T]>::to_vec_in")
def _(I, fr, st, info, a, line):
    return I.load(st, a[0]), st


@reg("slice::copy_from_slice", "slice::clone_from_slice")
def _(I, fr, st, info, a, line):
    d, s = I.load(st, a[0]), I.load(st, a[1])
    dn, sn = I.seqlen(d), I.seqlen(s)
    if isinstance(dn, Poly) and isinstance(sn, Poly):
        c = eq(dn, sn)
        r = st.ctx.decide(c)
        I.oblig(fr, "copy_len", c, st.ctx, line)
        if r is False:
            I.panic(fr, "copy_from_slice length", st.ctx, line)
            return None
        if r is None:
            I.panic(fr, "copy_from_slice length", st.ctx.add(neg(c)), line)
            st.ctx = st.ctx.add(c)
    if isinstance(d, Seq) and isinstance(s, Seq):
        if s.n != d.n:
            s = SView(s, ZERO, d.n)
    I.store(st, a[0], s)
    return unit(), st


@reg("slice::fill")
def _(I, fr, st, info, a, line):
    d = I.load(st, a[0])
    I.store(st, a[0], SConst(d.n, a[1], d.ety) if isinstance(d, Seq) else Opq("fill"))
    return unit(), st


@reg("slice::swap")
def _(I, fr, st, info, a, line):
    r1, r2 = I.ext(a[0], ("i", a[1])), I.ext(a[0], ("i", a[2]))
    x, y = I.load(st, r1), I.load(st, r2)
    I.store(st, r1, y)
    I.store(st, r2, x)
    return unit(), st


@reg("slice::reverse")
def _(I, fr, st, info, a, line):
    d = I.load(st, a[0])
    if isinstance(d, Seq):
        n = d.n
        I.store(st, a[0], SPerm(d, lambda i, cx, n=n: n - 1 - i))
    else:
        I.store(st, a[0], Opq("reverse"))
    return unit(), st


def rotate(right):
    def f(I, fr, st, info, a, line):
        d = I.load(st, a[0])
        k = a[1]
        if not (isinstance(d, Seq) and isinstance(k, Poly)):
            I.store(st, a[0], Opq("rotate"))
            return unit(), st
        n = d.n
        c = le(k, n)
        r = st.ctx.decide(c)
        I.oblig(fr, "rotate", c, st.ctx, line)
        if r is False:
            I.panic(fr, "rotate", st.ctx, line)
            return None
        if r is None:
            I.panic(fr, "rotate", st.ctx.add(neg(c)), line)
            st.ctx = st.ctx.add(c)
        if right:
            perm = lambda i, cx: choose(I.fold(lt(i, k), cx), i + n - k, i - k, cx)
        else:
            perm = lambda i, cx: choose(I.fold(lt(i, n - k), cx), i + k, i + k - n, cx)
        I.store(st, a[0], SPerm(d, perm))
        return unit(), st
    return f


M.tab["slice::rotate_right"] = rotate(True)
M.tab["slice::rotate_left"] = rotate(False)


def need(I, fr, st, c, what, line):
    """condition that must hold or the program panics; False when it surely panics"""
    r = st.ctx.decide(c)
    I.oblig(fr, what, c, st.ctx, line)
    if r is False:
        I.panic(fr, what, st.ctx, line)
        return False
    if r is None:
        I.panic(fr, what, st.ctx.add(neg(c)), line)
        st.ctx = st.ctx.add(c)
    return True


def split_at(I, fr, st, info, a, line):
    v = I.load(st, a[0])
    n = I.seqlen(v)
    k = a[1]
    if not (isinstance(n, Poly) and isinstance(k, Poly)):
        return Opq("split_at"), st
    if not need(I, fr, st, le(k, n), "split_at", line):
        return None
    return Agg(None, None, [I.ext(a[0], ("s", ZERO, k)), I.ext(a[0], ("s", k, n - k))]), st


for _n in ("split_at", "split_at_mut", "split_at_unchecked", "split_at_mut_unchecked"):
    M.tab["slice::" + _n] = split_at


def getu(I, fr, st, info, a, line):
    k = a[1]
    v = I.load(st, a[0])
    n = I.seqlen(v)
    if isinstance(k, Poly) and isinstance(n, Poly):
        I.oblig(fr, "get_unchecked", conj([le(ZERO, k), lt(k, n)]), st.ctx, line)
        return I.ext(a[0], ("i", k)), st
    r = range_of(I, st, k, n)
    if r is None:
        return Opq("get_unchecked"), st
    lo, hi = r
    I.oblig(fr, "get_unchecked", conj([le(lo, hi), le(hi, n)]), st.ctx, line)
    return I.ext(a[0], ("s", lo, hi - lo)), st


M.tab["slice::get_unchecked"] = getu
M.tab["slice::get_unchecked_mut"] = getu


def slice_get(I, fr, st, info, a, line):
    k = a[1]
    v = I.load(st, a[0])
    n = I.seqlen(v)
    if isinstance(k, Poly) and isinstance(n, Poly):
        c = I.fold(conj([le(ZERO, k), lt(k, n)]), st.ctx)
        return choose(c, some(I.ext(a[0], ("i", k))), none(), st.ctx), st
    return NotImplemented


M.tab["slice::get"] = slice_get
M.tab["slice::get_mut"] = slice_get


def range_of(I, st, k, n):
    """(lo, hi) of a range value"""
    if not isinstance(k, Agg):
        return None
    t = I.p.types[k.ty] if isinstance(k.ty, int) else None
    path = t.get("path", "") if t else ""
    f = k.f
    if path.endswith("RangeFull"):
        return ZERO, n
    if path.endswith("RangeFrom"):
        r = (f[0], n)
    elif path.endswith("RangeTo"):
        r = (ZERO, f[0])
    elif path.endswith("RangeInclusive"):
        r = (f[0], f[1] + 1) if isinstance(f[1], Poly) else (None, None)
    elif path.endswith("RangeToInclusive"):
        r = (ZERO, f[0] + 1) if isinstance(f[0], Poly) else (None, None)
    elif path.endswith("Range"):
        r = (f[0], f[1])
    else:
        return None
    if all(isinstance(x, Poly) for x in r):
        return r
    return None


def index(I, fr, st, info, a, line):
    k = a[1]
    v = prune(I.load(st, a[0]), st.ctx)
    if not isinstance(leaf(v), Seq):
        return NotImplemented
    n = I.seqlen(v)
    if isinstance(k, Ch):
        return Opq("index choice"), st
    if isinstance(k, Poly):
        if isinstance(n, Poly) and not need(I, fr, st, conj([le(ZERO, k), lt(k, n)]), "index", line):
            return None
        return I.ext(a[0], ("i", k)), st
    if not isinstance(n, Poly):
        return Opq("index"), st
    r = range_of(I, st, k, n)
    if r is None:
        return Opq("range index"), st
    lo, hi = r
    if not need(I, fr, st, conj([le(lo, hi), le(hi, n)]), "slice", line):
        return None
    return I.ext(a[0], ("s", lo, hi - lo)), st


M.tab["trait std::ops::Index::index"] = index
M.tab["trait std::ops::IndexMut::index_mut"] = index


def endref(last):
    def f(I, fr, st, info, a, line):
        n = I.seqlen(I.load(st, a[0]))
        if not isinstance(n, Poly):
            return Opq("last"), st
        c = I.fold(le(ONE, n), st.ctx)
        return choose(c, some(I.ext(a[0], ("i", n - 1 if last else ZERO))), none(), st.ctx), st
    return f


for _n, _l in (("last", True), ("last_mut", True), ("first", False), ("first_mut", False)):
    M.tab["slice::" + _n] = endref(_l)


@reg("slice::contains")
def _(I, fr, st, info, a, line):
    return ob("opq", next_ix()), st


@reg("std::mem::replace")
def _(I, fr, st, info, a, line):
    old = I.load(st, a[0])
    I.store(st, a[0], a[1])
    return old, st


@reg("std::mem::take")
def _(I, fr, st, info, a, line):
    old = I.load(st, a[0])
    if isinstance(old, Seq):
        I.store(st, a[0], SConst(ZERO, UNDEF, old.ety))
        return old, st
    return NotImplemented


@reg("std::mem::swap")
def _(I, fr, st, info, a, line):
    x, y = I.load(st, a[0]), I.load(st, a[1])
    I.store(st, a[0], y)
    I.store(st, a[1], x)
    return unit(), st


@reg("std::mem::size_of")
def _(I, fr, st, info, a, line):
    t = I.p.types[info["args"][0]]
    return const(t["size"]) if t.get("size") is not None else Opq("size_of"), st


@reg("std::mem::drop", "std::mem::forget")
def _(I, fr, st, info, a, line):
    return unit(), st


# ---------------------------------------------------------------- iterators
def ref_iter(I, st, r, by_value=False):
    """iterator over the slice behind reference r"""
    v = I.load(st, r)
    n = I.seqlen(prune(v, st.ctx))
    if not isinstance(n, Poly):
        return Opq("iter len")

    def elem(I, st, k):
        return I.ext(r, ("i", k)), st
    return It(n, elem)


@reg("slice::iter", "slice::iter_mut")
def _(I, fr, st, info, a, line):
    return ref_iter(I, st, a[0]), st


def to_iter(I, st, v):
    """IntoIterator for an abstract value"""
    v = prune(v, st.ctx)
    if isinstance(v, It):
        return v, st
    if isinstance(v, Ref):
        inner = prune(I.load(st, v), st.ctx)
        if isinstance(inner, Seq):
            return ref_iter(I, st, v), st
        if isinstance(inner, It):
            # &mut iterator: share state -- only supported through next()
            return v, st
        if isinstance(inner, Agg) and range_like(I, inner) is not None:
            return range_like(I, inner), st
        return None, st
    if isinstance(v, Seq):
        c = I.newcell(st, v, "into_iter")

        def elem(I, st, k):
            return I.load(st, Ref(c, (("i", k),))), st
        return It(v.n, elem), st
    if isinstance(v, Agg):
        r = range_like(I, v)
        if r is not None:
            return r, st
        if v.ty == "Option":
            if v.var == 1:
                return It(ONE, lambda I, st, k: (v.f[0], st)), st
            return It(ZERO, lambda I, st, k: (UNDEF, st)), st
    return None, st


def range_like(I, v):
    t = I.p.types[v.ty] if isinstance(v.ty, int) else None
    path = t.get("path", "") if t else ""
    if path.endswith("ops::Range") or path.endswith("RangeInclusive"):
        lo, hi = v.f[0], v.f[1]
        if isinstance(lo, Poly) and isinstance(hi, Poly):
            n = hi - lo + (1 if path.endswith("RangeInclusive") else 0)
            return It(n, lambda I, st, k: (lo + k, st), ZERO, "range")
    if path.endswith("RangeFrom") and isinstance(v.f[0], Poly):
        lo = v.f[0]
        return It(None, lambda I, st, k: (lo + k, st))
    return None


def clampn(st, n):
    if n is None:
        return None
    if st.ctx.ge0(n):
        return n
    return mk_max(n, ZERO, st.ctx)


def nmin(st, a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    return mk_min(a, b, st.ctx)


SHORT = ("any", "all", "position", "find", "find_map")     # take the iterator by reference and stop early


def with_iter(f):
    def g(I, fr, st, info, a, line):
        it, st = to_iter(I, st, a[0])
        if it is None and hasattr(I, "into_iter_user"):
            it, st = I.into_iter_user(fr, st, a[0], info)
        if isinstance(it, Ref) and info is not None and info["path"].rsplit("::", 1)[-1] in SHORT:
            r, it = it, prune(I.load(st, it), st.ctx)
            I.store(st, r, Opq("iterator searched"))
        if not isinstance(it, It):
            return NotImplemented if it is None else (Opq("iterator by reference"), st)
        if isinstance(it, It) and it.n is not None:
            it = It(clampn(st, it.n), it.elem, it.pos, it.tag)
        if it.pos != ZERO:
            p, e = it.pos, it.elem
            it = It(None if it.n is None else clampn(st, it.n - p), lambda I, st, k: e(I, st, k + p))
        return f(I, fr, st, info, it, a, line)
    return g


def it_method(name):
    def deco(f):
        M.tab["trait std::iter::Iterator::" + name] = with_iter(f)
        M.tab["std::iter::Iterator::" + name] = M.tab["trait std::iter::Iterator::" + name]
        return f
    return deco


@it_method("zip")
def _(I, fr, st, info, it, a, line):
    other, st = user_iter(I, fr, st, a[1])
    if not isinstance(other, It):
        return Opq("zip"), st
    n2 = clampn(st, other.n)
    n = nmin(st, it.n, n2)
    if it.n is not None and n2 is not None and it.n != n2:
        I.oblig(fr, "zip_len", eq(it.n, n2), st.ctx, line)

    def elem(I, st, k):
        x, st = it.elem(I, st, k)
        y, st = other.elem(I, st, k)
        return Agg(None, None, [x, y]), st
    return It(n, elem), st


def user_iter(I, fr, st, v):
    it, st = to_iter(I, st, v)
    if it is None:
        # a workspace type implementing IntoIterator: newtype around a Vec
        w = prune(v, st.ctx)
        if isinstance(w, Ref):
            inner = prune(I.load(st, w), st.ctx)
            if isinstance(inner, Agg) and len(inner.f) == 1 and isinstance(inner.f[0], Seq):
                return ref_iter(I, st, I.ext(w, ("f", 0))), st
        if isinstance(w, Agg) and len(w.f) == 1 and isinstance(w.f[0], Seq):
            return to_iter(I, st, w.f[0])
        return Opq("into_iter"), st
    return it, st


@reg("std::iter::zip")
def _(I, fr, st, info, a, line):
    x, st = user_iter(I, fr, st, a[0])
    if not isinstance(x, It):
        return Opq("zip"), st
    return M.tab["std::iter::Iterator::zip"](I, fr, st, info, [x, a[1]], line)


@it_method("enumerate")
def _(I, fr, st, info, it, a, line):
    def elem(I, st, k):
        x, st = it.elem(I, st, k)
        return Agg(None, None, [k, x]), st
    return It(it.n, elem), st


@it_method("rev")
def _(I, fr, st, info, it, a, line):
    n = it.n
    if n is None:
        return Opq("rev"), st
    return It(n, lambda I, st, k: it.elem(I, st, n - 1 - k)), st


@it_method("take")
def _(I, fr, st, info, it, a, line):
    if not isinstance(a[1], Poly):
        return Opq("take"), st
    return It(nmin(st, it.n, a[1]), it.elem), st


@it_method("skip")
def _(I, fr, st, info, it, a, line):
    m = a[1]
    if not isinstance(m, Poly):
        return Opq("skip"), st
    n = None if it.n is None else clampn(st, it.n - m)
    return It(n, lambda I, st, k: it.elem(I, st, k + m)), st


@it_method("step_by")
def _(I, fr, st, info, it, a, line):
    s = a[1]
    if not isinstance(s, Poly):
        if isinstance(s, Ch):
            return Opq("step_by choice"), st
        return Opq("step_by"), st
    if not need(I, fr, st, le(ONE, s), "step_by", line):
        return None
    n = None if it.n is None else mk_quo(it.n + s - 1, s, st.ctx)
    return It(n, lambda I, st, k: it.elem(I, st, k * s)), st


@it_method("chain")
def _(I, fr, st, info, it, a, line):
    other, st = user_iter(I, fr, st, a[1])
    if not isinstance(other, It) or it.n is None:
        return Opq("chain"), st
    n1 = it.n

    def elem(I, st, k):
        c = I.fold(lt(k, n1), st.ctx)
        if c == T:
            return it.elem(I, st, k)
        if c == F:
            return other.elem(I, st, k - n1)
        x, _ = it.elem(I, st, k)
        y, _ = other.elem(I, st, k - n1)
        return choose(c, x, y, st.ctx), st
    return It(None if other.n is None else n1 + clampn(st, other.n), elem), st


@it_method("copied")
def _(I, fr, st, info, it, a, line):
    def elem(I, st, k):
        x, st = it.elem(I, st, k)
        return I.load(st, x), st
    return It(it.n, elem), st


M.tab["trait std::iter::Iterator::cloned"] = M.tab["trait std::iter::Iterator::copied"]
M.tab["std::iter::Iterator::cloned"] = M.tab["trait std::iter::Iterator::copied"]


@it_method("by_ref")
def _(I, fr, st, info, it, a, line):
    return a[0], st


@it_method("map")
def _(I, fr, st, info, it, a, line):
    c = I.newcell(st, a[1], "closure")

    def elem(I, st, k):
        x, st = it.elem(I, st, k)
        r = I.models_call(fr, st, Ref(c), [x])
        if r is None:
            raise Diverge()
        return r
    elem.effects = True
    return It(it.n, elem), st


class Diverge(Exception):
    pass


def chunk_iter(exact, mutable=False):
    def f(I, fr, st, info, a, line):
        r, c = a[0], a[1]
        n = I.seqlen(prune(I.load(st, r), st.ctx))
        if not (isinstance(n, Poly) and isinstance(c, Poly)):
            return Opq("chunks"), st
        if not need(I, fr, st, le(ONE, c), "chunk size", line):
            return None
        if exact:
            m = mk_quo(n, c, st.ctx)
            it = It(m, lambda I, st, k: (I.ext(r, ("s", c * k, c)), st), ZERO, ("chunks", r, n, c, m))
            return it, st
        m = mk_quo(n + c - 1, c, st.ctx)
        full = st.ctx.ge0(-mk_rem(n, c, st.ctx))

        def elem(I, st, k):
            if full:
                return I.ext(r, ("s", c * k, c)), st
            ln = mk_min(c, n - c * k, st.ctx)
            return I.ext(r, ("s", c * k, ln)), st
        return It(m, elem), st
    return f


M.tab["slice::chunks_exact"] = chunk_iter(True)
M.tab["slice::chunks_exact_mut"] = chunk_iter(True)
M.tab["slice::chunks"] = chunk_iter(False)
M.tab["slice::chunks_mut"] = chunk_iter(False)


def remainder(I, fr, st, info, a, line):
    it = derefall(I, st, a[0])
    if isinstance(it, It) and isinstance(it.tag, tuple) and it.tag[0] == "chunks":
        _, r, n, c, m = it.tag
        return I.ext(r, ("s", c * m, n - c * m)), st
    return Opq("remainder"), st


for _p in ("std::slice::ChunksExactMut::<'a, T>::into_remainder", "std::slice::ChunksExact::<'a, T>::remainder"):
    M.tab[_p] = remainder


@reg("slice::windows")
def _(I, fr, st, info, a, line):
    r, c = a[0], a[1]
    n = I.seqlen(I.load(st, r))
    if not (isinstance(n, Poly) and isinstance(c, Poly)):
        return Opq("windows"), st
    return It(clampn(st, n - c + 1), lambda I, st, k: (I.ext(r, ("s", k, c)), st)), st


@reg("trait std::iter::IntoIterator::into_iter")
def _(I, fr, st, info, a, line):
    it, st2 = to_iter(I, st, a[0])
    if it is None or isinstance(it, Opq):
        return NotImplemented
    if isinstance(it, Ref):
        return it, st2
    return It(clampn(st2, it.n), it.elem, it.pos, it.tag), st2


@reg("trait std::iter::Iterator::next", "trait std::iter::DoubleEndedIterator::next_")
def _(I, fr, st, info, a, line):
    r = a[0]
    v = prune(I.load(st, r), st.ctx)
    n = 0
    while isinstance(v, Ref) and n < 3:
        r = v
        v = prune(I.load(st, r), st.ctx)
        n += 1
    if isinstance(v, Agg):
        rl = range_like(I, v)
        if rl is not None:
            # a Range value used directly as iterator
            lo, hi = v.f[0], v.f[1]
            path = I.p.types[v.ty]["path"]
            if path.endswith("RangeInclusive"):
                return NotImplemented
            c = I.fold(lt(lo, hi), st.ctx)
            I.store(st, r, Agg(v.ty, v.var, [choose(c, lo + 1, lo, st.ctx), hi]))
            return choose(c, some(lo), none(), st.ctx), st
    if not isinstance(v, It):
        return Opq("next of %s" % type(v).__name__), st
    if v.n is None:
        c = T
    else:
        c = I.fold(lt(v.pos, v.n), st.ctx)
    if c == F:
        return none(), st
    s2 = st
    if getattr(v.elem, "effects", False) and c != T:
        s1 = st.copy()
        s1.ctx = s1.ctx.add(c)
        x, s1 = v.elem(I, s1, v.pos)
        I.store(s1, r, It(v.n, v.elem, v.pos + 1, v.tag))
        tmp = I.tmpcell(s1, some(x))
        s2 = st.copy()
        s2.ctx = s2.ctx.add(neg(c))
        s2.mem[tmp] = none()
        out = I.merge([s1, s2])
        return out.mem.pop(tmp), out
    x, st = v.elem(I, st, v.pos)
    nxt = It(v.n, v.elem, v.pos + 1, v.tag)
    I.store(st, r, nxt if c == T else Ch(c, nxt, v))
    return choose(c, some(x), none(), st.ctx), st


def closure_call(I, fr, st, f, args):
    """call an abstract callable; f is a value or a Ref to it"""
    r = None
    v = f
    if isinstance(f, Ref):
        r = f
        v = prune(I.load(st, f), st.ctx)
        n = 0
        while isinstance(v, Ref) and n < 3:
            r = v
            v = prune(I.load(st, v), st.ctx)
            n += 1
    if isinstance(v, FnV):
        info = I.p.insts.get(v.inst)
        return I.call(fr, st, v.inst, {"path": info["path"] if info else "?"}, list(args))
    if isinstance(v, Agg) and isinstance(v.ty, int) and I.p.types[v.ty]["k"] == "closure":
        inst = I.p.types[v.ty].get("inst")
        fn = I.p.fns.get(inst)
        if fn is None:
            return Opq("closure body"), st
        lt0 = I.p.types[fn.locals[1]]
        if lt0["k"] == "ref":
            if r is None:
                r = Ref(I.newcell(st, v, "closure"))
            env = r
        else:
            env = v
        for h in I.intercepts:
            x = h(I, fr, st, inst, fn.info, fn.path, [env] + list(args))
            if x is not NotImplemented:
                return x
        if len(I.callstack) > I.maxdepth:
            return Opq("depth"), st
        return I.exec_fn(fn, [env] + list(args), st)
    for x in args:
        I.smash(st, x, "unknown callable")
    return Opq("unknown callable"), st


@reg("trait std::ops::FnOnce::call_once", "trait std::ops::FnMut::call_mut", "trait std::ops::Fn::call",
     "<std::boxed::Box<F, A> as std::ops::Fn<Args>>::call")
def _(I, fr, st, info, a, line):
    args = a[1].f if isinstance(a[1], Agg) else [a[1]]
    return closure_call(I, fr, st, a[0], list(args))


import loops  # noqa: E402  (needs the definitions above)


@it_method("for_each")
def _(I, fr, st, info, it, a, line):
    c = I.newcell(st, a[1], "closure")

    def body(st, k):
        x, st = it.elem(I, st, k)
        r = closure_call(I, fr, st, Ref(c), [x])
        return None if r is None else r[1]
    st = loops.counted(I, fr, st, it.n, body, "for_each")
    return None if st is None else (unit(), st)


@it_method("fold")
def _(I, fr, st, info, it, a, line):
    c = I.newcell(st, a[2], "closure")
    acc = I.newcell(st, a[1], "acc")

    def body(st, k):
        x, st = it.elem(I, st, k)
        r = closure_call(I, fr, st, Ref(c), [st.mem[acc], x])
        if r is None:
            return None
        v, st = r
        st.mem[acc] = v
        return st
    st = loops.counted(I, fr, st, it.n, body, "fold")
    return None if st is None else (st.mem[acc], st)


def rfold(I, fr, st, info, it, a, line):
    n = it.n
    if n is None:
        return Opq("rfold"), st
    return M.tab["std::iter::Iterator::fold"](I, fr, st, info, [It(n, lambda I, st, k: it.elem(I, st, n - 1 - k))] + list(a[1:]), line)


for _p in ("trait std::iter::DoubleEndedIterator::rfold", "std::iter::DoubleEndedIterator::rfold"):
    M.tab[_p] = with_iter(rfold)


@it_method("sum")
def _(I, fr, st, info, it, a, line):
    acc = I.newcell(st, ZERO, "acc")

    def body(st, k):
        x, st = it.elem(I, st, k)
        x = derefall(I, st, x)
        st.mem[acc] = lift(lambda xs, cx: xs[0] + xs[1] if isinstance(xs[1], Poly) else Opq("sum"), [st.mem[acc], x], st.ctx)
        return st
    st = loops.counted(I, fr, st, it.n, body, "sum")
    return None if st is None else (st.mem[acc], st)


def quantifier(is_all):
    def f(I, fr, st, info, it, a, line):
        """any/all over a pure predicate: opaque but canonical boolean keyed by the predicate template"""
        c = I.newcell(st, a[1], "closure")
        k = mk_atom("var", ("qk%d" % next_ix(),), 0)
        if it.n is None:
            return ob("opq", next_ix()), st
        s1 = st.copy()
        s1.ctx = s1.ctx.add(le(ZERO, P(k)), lt(P(k), it.n))
        x, s1 = it.elem(I, s1, P(k))
        r = closure_call(I, fr, s1, Ref(c), [x])
        if r is None:
            return ob("opq", next_ix()), st
        v = I.b(r[0])
        if not is_bool(v):
            return ob("opq", next_ix()), st
        if k.id not in cond_deps(v):
            return (disj([v, eq(it.n)]) if is_all else conj([v, ne(it.n)])), st
        if cond_opq(v):
            return ob("opq", next_ix()), st
        w = eq(term.mk_mu(term.indicator(neg(v) if is_all else v), k, it.n), it.n)      # no witness
        return (w if is_all else neg(w)), st
    return f


it_method("all")(quantifier(True))
it_method("any")(quantifier(False))


@it_method("count")
def _(I, fr, st, info, it, a, line):
    return it.n if it.n is not None else Opq("count"), st


@it_method("collect")
def _(I, fr, st, info, it, a, line):
    if it.n is None:
        return Opq("collect infinite"), st
    n = it.n
    ety = None
    out = I.newcell(st, SConst(n, UNDEF, ety), "collect")

    def body(st, k):
        x, st = it.elem(I, st, k)
        I.store(st, Ref(out, (("i", k),)), x)
        return st
    st = loops.counted(I, fr, st, n, body, "collect")
    if st is None:
        return None
    v = st.mem[out]
    # collecting Results
    ts = [x for x in (info.get("args") or []) if isinstance(x, int)]
    if ts:
        t = I.p.types[ts[-1]]
        if t["k"] == "adt" and t["path"] in ("std::result::Result", "std::option::Option"):
            return Opq("collect into result"), st
        if isinstance(v, Seq) and t["k"] == "adt" and t["path"] == "std::vec::Vec":
            v = reety(v, t["args"][0])
        elif t["k"] == "adt" and t["path"] not in ("std::vec::Vec", "std::boxed::Box"):
            return Opq("collect into " + t["name"]), st
    return v, st


def reety(v, ety):
    if v.ety is None:
        v = SView(v, ZERO, v.n)
        v.ety = ety
    return v


@reg("trait std::iter::Extend::extend")
def _(I, fr, st, info, a, line):
    it, st = user_iter(I, fr, st, a[1])
    v = I.load(st, a[0])
    if not (isinstance(it, It) and isinstance(v, Seq) and it.n is not None):
        I.store(st, a[0], Opq("extend"))
        return unit(), st
    out = I.newcell(st, SConst(it.n, UNDEF, v.ety), "extend")

    def body(st, k):
        x, st = it.elem(I, st, k)
        I.store(st, Ref(out, (("i", k),)), x)
        return st
    st = loops.counted(I, fr, st, it.n, body, "extend")
    if st is None:
        return None
    w = st.mem[out]
    I.store(st, a[0], SSplice(SView(v, ZERO, v.n + w.n), v.n, w, v.n + w.n))
    return unit(), st


@reg("std::vec::Vec::<T, A>::resize_with")
def _(I, fr, st, info, a, line):
    v = I.load(st, a[0])
    n = a[1]
    if not (isinstance(v, Seq) and isinstance(n, Poly)):
        I.store(st, a[0], Opq("resize_with"))
        return unit(), st
    r = closure_call(I, fr, st, a[2], [])
    if r is None:
        return None
    x, st = r
    I.store(st, a[0], SSplice(SConst(n, x, v.ety), ZERO, SView(v, ZERO, mk_min(v.n, n, st.ctx)), n))
    return unit(), st


@reg("std::array::<impl [T; N]>::map")
def _(I, fr, st, info, a, line):
    v = a[0]
    if not (isinstance(v, SLit)):
        return NotImplemented
    c = I.newcell(st, a[1], "closure")
    out = []
    for x in v.vals:
        r = closure_call(I, fr, st, Ref(c), [x])
        if r is None:
            return None
        y, st = r
        out.append(y)
    return SLit(out), st


@reg("rayon_core::join::join", "rayon::join")
def _(I, fr, st, info, a, line):
    r = closure_call(I, fr, st, a[0], [])
    if r is None:
        return None
    x, st = r
    r = closure_call(I, fr, st, a[1], [])
    if r is None:
        return None
    y, st = r
    return Agg(None, None, [x, y]), st


# ---------------------------------------------------------------- panics
def diverge(what):
    def f(I, fr, st, info, a, line):
        I.panic(fr, what, st.ctx, line)
        return None
    return f


for _p in ("core::panicking::panic", "core::panicking::assert_failed", "std::rt::panic_fmt", "core::panicking::panic_fmt",
           "core::panicking::panic_explicit", "core::panicking::unreachable_display", "std::rt::begin_panic", "core::panicking::panic_display",
           "std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed"):
    M.tab[_p] = diverge("panic")


@reg("trait std::string::ToString::to_string", "std::fmt::format", "std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::from_str",
     "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "std::fmt::Arguments::<'a>::new_const",
     "<T as std::string::ToString>::to_string")
def _(I, fr, st, info, a, line):
    return Agg("String", None, []), st


def carry_chain(w, sign):
    """x86 add-with-carry / subtract-with-borrow: (carry, a, b, &mut result) -> carry"""
    def f(I, fr, st, info, a, line):
        W = const(1 << w)

        def g(xs, cx):
            if not all(isinstance(x, Poly) for x in xs):
                return Opq("carry")
            cin = xs[0] if cx.ge0(ONE - xs[0]) else I.b2i(neg(eq(xs[0])))
            if not isinstance(cin, Poly):
                return Opq("carry")
            r = xs[1] + xs[2] + cin if sign > 0 else xs[1] - xs[2] - cin
            c = ge(r - W) if sign > 0 else lt(r, ZERO)
            return Agg(None, None, [I.wrap(r, w, False, cx), I.b2i(I.fold(c, cx))])
        v = lift(g, list(a[:3]), st.ctx)

        def part(k):
            return lift(lambda xs, cx: xs[0].f[k] if isinstance(xs[0], Agg) else Opq("carry"), [v], st.ctx)
        I.store(st, a[3], part(0))
        return part(1), st
    return f


for _w in (32, 64):
    for _m in ("core::arch::x86_64", "std::arch::x86_64"):
        M.tab["%s::_addcarry_u%d" % (_m, _w)] = carry_chain(_w, 1)
        M.tab["%s::_subborrow_u%d" % (_m, _w)] = carry_chain(_w, -1)
