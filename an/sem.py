"""Level-2 semantics: the modular arithmetic, NTT and sampling operators as operators of the domain.

C02 establishes the arithmetic of each modulus type from its body; the other checks use the operators
`x + y mod q`, ... at the trait methods of algebra::reduce, so that what a polynomial, ciphertext or key
routine computes is a term over these operators."""
import re
from values import *
import term
from models import deref, derefall, leaf, unit, some, none
import loops

RX = re.compile(r"algebra::reduce::(\w+)<(.*)> for (.+)>::(\w+)$")
RX2 = re.compile(r"<(.+) as algebra::reduce::(\w+)(?:<(.*)>)?>::(\w+)")


def modval(I, st, m):
    """numeric modulus of a modulus argument, or None"""
    m = derefall(I, st, m)
    m = prune(m, st.ctx)
    if isinstance(m, Poly):
        return m
    if isinstance(m, Agg) and isinstance(m.ty, int):
        t = I.p.types[m.ty]
        n = t["name"]
        if "BarrettModulus<" in n:
            return m.f[0] if isinstance(m.f[0], Poly) and ratio_ok(I, st, m, n) else None
        if "PowOf2Modulus<" in n:
            return m.f[0] + 1 if isinstance(m.f[0], Poly) else None
    return None


def ratio_ok(I, st, m, n):
    """a literal BarrettModulus must carry floor(b^2 / q): only then do its operations reduce"""
    w = re.search(r"BarrettModulus<u(\d+)>", n)
    if not m.f[0].is_const() or not w or not isinstance(m.f[1], Seq):
        return True
    W = 1 << int(w.group(1))
    r = [m.f[1].read(ZERO, st.ctx), m.f[1].read(ONE, st.ctx)]
    if not all(isinstance(x, Poly) and x.is_const() for x in r):
        return True
    return r[0].cval() + W * r[1].cval() == W * W // m.f[0].cval()


def reduce_ops(I, fr, st, inst, info, path, a):
    if info is None or info.get("crate") != "algebra":
        return NotImplemented
    of = info.get("implof") or ""
    if not of.startswith("algebra::reduce::"):
        return NotImplemented
    op = of.split("::")[-1]
    item = info["item"]
    assign = item.endswith("_assign")
    base = item[:-7] if assign else item
    if base not in ("add_reduce", "sub_reduce", "neg_reduce", "mul_reduce", "reduce", "lazy_reduce", "dot_product_reduce",
                    "exp_reduce", "exp_power_of_2_reduce", "inv_reduce", "try_inv_reduce", "div_reduce", "lazy_mul_reduce"):
        return NotImplemented
    q = modval(I, st, a[-1])
    if q is None:
        return NotImplemented
    xs = [derefall(I, st, x) for x in a[:-1]]
    if any(not isinstance(leaf(x), Poly) for x in xs):
        # digit arrays, tuples, slices
        if base in ("reduce", "lazy_reduce") and len(xs) == 1:
            x = digits(I, st, xs[0], info)
            if x is None:
                return NotImplemented
            xs = [x]
        elif base == "dot_product_reduce":
            return dot(I, st, xs, q)
        else:
            return NotImplemented
    w = word(I, st, info)

    def f(v, cx):
        if not all(isinstance(x, Poly) for x in v):
            return Opq("reduce")
        if base in ("add_reduce", "sub_reduce", "neg_reduce", "mul_reduce", "lazy_mul_reduce") and not (base == "mul_reduce" and False):
            for x in v:
                I.oblig(fr, "operand<q:" + base, conj([ge(x), lt(x, q)]), cx, None)
        if base == "add_reduce":
            return mk_rem(v[0] + v[1], q, cx)
        if base == "sub_reduce":
            return mk_rem(v[0] - v[1], q, cx)
        if base == "neg_reduce":
            return mk_rem(-v[0], q, cx)
        if base == "mul_reduce":
            return mk_rem(v[0] * v[1], q, cx)
        if base == "reduce":
            return mk_rem(v[0], q, cx)
        if base in ("lazy_reduce", "lazy_mul_reduce"):
            x = v[0] if base == "lazy_reduce" else v[0] * v[1]
            if term.in_range(x, q, cx):
                return x
            return mk_rem(x, q, cx) + q * mk_fn("lazybit", (x, q), 0, 1)
        if base == "exp_reduce":
            return mk_rem(mk_pow(v[0], v[1]), q, cx)
        if base == "exp_power_of_2_reduce":
            return mk_rem(mk_pow(v[0], mk_pow(const(2), v[1])), q, cx)
        if base == "inv_reduce":
            return mk_fn("inv", (v[0], q), 0, q - 1)
        if base == "div_reduce":
            return mk_rem(v[0] * mk_fn("inv", (v[1], q), 0, q - 1), q, cx)
        return Opq("reduce")
    if base == "try_inv_reduce":
        return NotImplemented
    r = lift(f, xs, st.ctx)
    if assign:
        I.store(st, a[0], r)
        return unit(), st
    return r, st


def word(I, st, info):
    return None


def digits(I, st, v, info):
    v = prune(v, st.ctx)
    t = info["name"]
    m = re.search(r"for \[?\(?&?\[?([ui])(\d+)", t)
    w = int(m.group(2)) if m else None
    if w is None:
        return None
    if isinstance(v, Agg) and len(v.f) == 2 and all(isinstance(x, Poly) for x in v.f):
        return v.f[0] + v.f[1] * (1 << w)
    if isinstance(v, Seq) and v.n == const(2):
        a, b = v.read(ZERO, st.ctx), v.read(ONE, st.ctx)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a + b * (1 << w)
    return None


def dot(I, st, xs, q):
    x, y = [prune(v, st.ctx) for v in xs]
    if not (isinstance(x, Seq) and isinstance(y, Seq)):
        return NotImplemented
    k = term.mk_atom("var", ("dot%d" % next_ix(),), 0)
    a, b = x.read(P(k), st.ctx), y.read(P(k), st.ctx)
    if not (isinstance(a, Poly) and isinstance(b, Poly)):
        return Opq("dot"), st
    n = x.n if x.n == y.n else mk_min(x.n, y.n, st.ctx)
    return mk_rem(term.mk_sum(a * b, k, n), q, st.ctx), st



# ---------------------------------------------------------------- random streams
# A generator is Agg(RNG, None, [stream id, position]); every draw reads `rnd:<kind>[stream, position]` and
# advances the position by one, so different draws are different (independent) atoms.
RNGTY = "rng"
RNGRX = re.compile(r"rand_chacha::ChaCha\d+Rng$|rand::(prelude|rngs)::(StdRng|ThreadRng|SmallRng|OsRng)$|^algebra::utils::Prg$")
_streams = {}


def stream(name):
    return const(_streams.setdefault(name, len(_streams)))


def new_rng(name):
    return Agg(RNGTY, None, [stream(name), ZERO])


def symtype(I, t, name, idxs, st):
    if t["k"] == "adt" and RNGRX.search(t["name"]):
        return new_rng("%s%s" % (name, "".join("," + show(x) for x in idxs)))
    if t["k"] == "adt" and t["path"].endswith("transformation::NTTTable") or t["name"].endswith("::NTTTable"):
        return Agg("table", None, [var(name + ".n", 1, 1 << 40)])
    return None


def find_rng(I, st, v):
    last = None
    for _ in range(6):
        if isinstance(v, Ref):
            last = v
            v = prune(I.load(st, v), st.ctx)
        else:
            break
    if isinstance(v, Agg) and v.ty == RNGTY:
        return last, v
    return None, None


def draw(I, st, rv, kind, ty):
    """one value of type ty"""
    ref, r = find_rng(I, st, rv)
    if r is None:
        I.note("draw from an unknown generator")
        return Opq("draw"), st
    v = I.symval(ty, "rnd:" + kind, (r.f[0], r.f[1]), st)
    if ref is not None:
        I.store(st, ref, Agg(RNGTY, None, [r.f[0], r.f[1] + 1]))
    else:
        I.note("generator by value")
    I.draws.append((kind, r.f[0], r.f[1], tuple(I.callstack)))
    return v, st


def flat(I, st, v, d=0):
    v = derefall(I, st, v)
    if isinstance(v, Agg) and d < 4:
        return ",".join(flat(I, st, x, d + 1) for x in v.f)
    return vshow(v)


def sampler_kind(I, st, dist, tyname):
    n = tyname.split("<")[0].split("::")[-1]
    d = derefall(I, st, dist)
    return n, d


def sample(I, st, dist, dname, ty, rv):
    n, d = sampler_kind(I, st, dist, dname)
    if n == "Uniform":
        if isinstance(d, Agg) and d.ty == "uniform":
            lo, hi = d.f
            ref, r = find_rng(I, st, rv)
            if r is None or not isinstance(lo, Poly) or not isinstance(hi, Poly):
                return Opq("uniform"), st
            v = lo + uniform_atom(r.f[0], r.f[1], hi - lo)
            if ref is not None:
                I.store(st, ref, Agg(RNGTY, None, [r.f[0], r.f[1] + 1]))
            I.draws.append(("Uniform", r.f[0], r.f[1], tuple(I.callstack)))
            return v, st
        return Opq("uniform"), st
    if n in ("FieldDiscreteGaussianSampler", "DiscreteGaussian"):
        return draw(I, st, rv, "%s(%s)" % (n, flat(I, st, d)), ty)
    if n in ("FieldUniformSampler", "FieldBinarySampler", "FieldTernarySampler", "BinarySampler", "TernarySampler", "Standard"):
        return draw(I, st, rv, n, ty)
    if n == "Normal":
        ref, r = find_rng(I, st, rv)
        if r is None:
            return Opq("normal"), st
        v = ("fl", "rnd:Normal(%s)" % flat(I, st, d), r.f[0], r.f[1])
        if ref is not None:
            I.store(st, ref, Agg(RNGTY, None, [r.f[0], r.f[1] + 1]))
        return v, st
    return None, st


def uniform_atom(s, pos, span):
    return P(term.mk_atom("unif", (s, pos, span), 0, span - 1))


term.REBUILD["unif"] = lambda A, args, ctx: P(term.mk_atom("unif", args, 0, args[2] - 1))


def it_draw(I, dist, dname, ty, rv):
    def elem(I, st, k):
        v, st2 = sample(I, st, dist, dname, ty, rv)
        return (v if v is not None else Opq("sample")), st2
    return It(None, elem)


def rng_ops(I, fr, st, inst, info, path, a):
    if info is None:
        return NotImplemented
    item = info["item"]
    args = info["args"]
    T = I.p.types
    if item in ("next_u32", "next_u64") and (info.get("implof") or info.get("trait") or "").endswith("RngCore") or path.endswith("RngCore::" + item):
        ref, r = find_rng(I, st, a[0])
        if r is None:
            return NotImplemented
        w = 32 if item == "next_u32" else 64
        I.store(st, ref, Agg(RNGTY, None, [r.f[0], r.f[1] + 1]))
        I.draws.append((item, r.f[0], r.f[1], tuple(I.callstack)))
        term.set_sel_domain("rnd:" + item, const(0), const((1 << w) - 1))
        return mk_sel("rnd:" + item, (r.f[0], r.f[1])), st
    if path == "rand::Rng::gen":
        ref, r = find_rng(I, st, a[0])
        if r is None:
            return NotImplemented
        return draw(I, st, a[0], "gen:" + T[args[1]]["name"], args[1])
    if path == "rand::Rng::sample":
        v, st2 = sample(I, st, a[1], T[args[2]]["name"], args[1], a[0])
        return NotImplemented if v is None else (v, st2)
    if path == "rand::distributions::Distribution::sample_iter":
        return it_draw(I, a[0], T[args[0]]["name"], args[1], a[1]), st
    if item == "sample" and (info.get("implof") or "").endswith("Distribution"):
        m = re.match(r"<(.+) as rand::", info["name"])
        if not m:
            return NotImplemented
        fn = I.p.fns.get(inst)
        if fn is not None and inst in I.open_samplers:
            return NotImplemented
        ty = fn.locals[0] if fn is not None else args[0]
        v, st2 = sample(I, st, a[0], m.group(1), ty, a[1])
        return NotImplemented if v is None else (v, st2)
    if path.startswith("rand::distributions::Uniform::<X>::new"):
        lo, hi = [derefall(I, st, x) for x in a]
        if isinstance(lo, Poly) and isinstance(hi, Poly):
            I.oblig(fr, "Uniform::new:lo<hi", lt(lo, hi) if not path.endswith("inclusive") else le(lo, hi), st.ctx, None)
            return Agg("uniform", None, [lo, hi + 1 if path.endswith("inclusive") else hi]), st
        return Opq("uniform"), st
    if path.endswith("Normal::<F>::new"):
        rt = I.p.fns[fr.fn.key] if False else None
        n = Agg("normal", None, [a[0], a[1]])
        c = ob("badnormal", vshow(a[1]))
        return Ch(c, Agg("normalres", 1, [Agg("NormalError", None, [])]), Agg("normalres", 0, [n])), st
    if path.endswith("Normal::<F>::mean"):
        d = derefall(I, st, a[0])
        return (d.f[0], st) if isinstance(d, Agg) and len(d.f) == 2 else NotImplemented
    if path.endswith("Normal::<F>::std_dev"):
        d = derefall(I, st, a[0])
        return (d.f[1], st) if isinstance(d, Agg) and len(d.f) == 2 else NotImplemented
    if item == "sample_cbd_field_vec" and inst not in I.open_samplers:
        fn = I.p.fns.get(inst)
        ref, r = find_rng(I, st, a[-1])
        n = derefall(I, st, a[0])
        rt = I.p.types[fn.locals[0]] if fn else None
        if r is None or not isinstance(n, Poly) or rt is None or rt.get("path") != "std::vec::Vec":
            return NotImplemented
        ety = rt["args"][0]
        v = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
        val = I.symval(ety, "rnd:cbd", (r.f[0], r.f[1] + P(v)), st)
        I.store(st, ref, Agg(RNGTY, None, [r.f[0], r.f[1] + n]))
        I.draws.append(("cbd", r.f[0], r.f[1], tuple(I.callstack)))
        return SLam(n, v, val, ety), st
    if path == "rand::thread_rng":
        I.nrng = getattr(I, "nrng", 0) + 1
        return new_rng("thread_rng#%d" % I.nrng), st
    return NotImplemented


# ---------------------------------------------------------------- number theoretic transforms
def seq_terms(seq, ctx):
    """(index variable, value tree with Poly leaves whose choices do not depend on the index, wrapper)"""
    v = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
    cx = ctx.add(lt(P(v), seq.n))
    t = prune(seq.read(P(v), cx), cx)

    def flatp(x):
        if isinstance(x, Agg) and len(x.f) == 1:
            return flatp(x.f[0])
        if isinstance(x, Ch):
            a, b = flatp(x.a), flatp(x.b)
            if a is None or b is None:
                return None
            if v.id in cond_deps(x.c):
                i = indicator(x.c)
                return comb(lambda p, q: i * p + (1 - i) * q, a, b)
            return Ch(x.c, a, b)
        if isinstance(x, Poly):
            return x
        return None
    return v, flatp(t)


def comb(f, a, b):
    if isinstance(a, Ch):
        return Ch(a.c, comb(f, a.a, b), comb(f, a.b, b))
    if isinstance(b, Ch):
        return Ch(b.c, comb(f, a, b.a), comb(f, a, b.b))
    return f(a, b)


def tmap(f, t):
    if isinstance(t, Ch):
        return Ch(t.c, tmap(f, t.a), tmap(f, t.b))
    return f(t)


def field_q(I, ty):
    t = I.p.types[ty] if isinstance(ty, int) else None
    return None if t is None else I.fieldq.get(t["name"])


def lin_seq(I, st, op, seq, ety):
    q = field_q(I, ety)
    if q is None:
        return None
    v, t = seq_terms(seq, st.ctx)
    if t is None:
        return None
    q = const(q)
    j = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
    val = tmap(lambda p: Agg(ety, None, [mk_rem(term.mk_lin(op, q, seq.n, p, v, P(j)), q)]), t)
    return SLam(seq.n, j, val, ety)


def ntt_ops(I, fr, st, inst, info, path, a):
    if info is None or info["crate"] not in ("algebra", "roots", "fhe_core"):
        return NotImplemented
    item = info["item"]
    if item == "get_ntt_table":
        fn = I.p.fns.get(inst)
        n = lift(lambda v, cx: mk_pow(const(2), v[0]), [derefall(I, st, a[0])], st.ctx)
        c = I.newcell(st, Agg("table", None, [n]), "table")
        rty = fn.locals[0] if fn else None
        c2 = ob("no_ntt_table", vshow(n))
        I.tables.append((n, st.ctx))
        return Agg(rty, 0, [Ref(c)]), st
    if item in ("transform_slice", "inverse_transform_slice"):
        if inst in I.open_samplers:
            return NotImplemented
        tab = derefall(I, st, a[0])
        ref = a[1]
        if not (isinstance(tab, Agg) and tab.ty == "table"):
            return NotImplemented
        s = prune(I.load(st, ref), st.ctx)
        if isinstance(s, Ref):
            ref, s = s, prune(I.load(st, s), st.ctx)
        if not isinstance(s, Seq):
            I.smash(st, ref, "ntt")
            return unit(), st
        if isinstance(tab.f[0], Poly):
            I.oblig(fr, "table size = slice length", eq(tab.f[0], s.n), st.ctx, None)
        ety = elem_type(I, fr, inst)
        r = lin_seq(I, st, "ntt" if item == "transform_slice" else "intt", s, ety)
        I.store(st, ref, r if r is not None else Opq("ntt"))
        return unit(), st
    if item in ("transform_monomial", "transform_coeff_one_monomial", "transform_coeff_neg_one_monomial"):
        if inst in I.open_samplers:
            return NotImplemented
        tab = derefall(I, st, a[0])
        if not (isinstance(tab, Agg) and tab.ty == "table"):
            return NotImplemented
        ety = elem_type(I, fr, inst)
        q = field_q(I, ety)
        if q is None:
            return NotImplemented
        if item == "transform_monomial":
            co = leaf_poly(derefall(I, st, a[1]))
            deg, ref = derefall(I, st, a[2]), a[3]
        else:
            co = ONE if "neg" not in item else const(-1)
            deg, ref = derefall(I, st, a[1]), a[2]
        s = prune(I.load(st, ref), st.ctx)
        if isinstance(s, Ref):
            ref, s = s, prune(I.load(st, s), st.ctx)
        if not isinstance(s, Seq) or not isinstance(co, Poly) or not isinstance(deg, (Poly, Ch)):
            I.smash(st, ref, "ntt")
            return unit(), st
        n = s.n
        v = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
        j = term.mk_atom("var", ("ix%d" % next_ix(),), 0)

        def f(xs, cx):
            d = mk_rem(xs[0], n * 2, cx)
            body = co * (indicator(eq(P(v), d)) - indicator(eq(P(v) + n, d)))
            if cx.ge0(n - d - 1):
                body = co * indicator(eq(P(v), d))
            return Agg(ety, None, [mk_rem(term.mk_lin("ntt", const(q), n, body, v, P(j)), const(q))])
        val = lift(f, [deg], st.ctx)
        I.store(st, ref, SLam(n, j, val, ety))
        return unit(), st
    return NotImplemented


def leaf_poly(v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v


def elem_type(I, fr, inst):
    """element type of the slice argument of a transform"""
    fn = I.p.fns.get(inst)
    if fn is None:
        return None
    for i in range(fn.argc, 0, -1):
        t = I.p.types[fn.locals[i]]
        if t["k"] == "ref" and I.p.types[t["to"]]["k"] == "slice":
            return I.p.types[t["to"]]["elem"]
    return None


INTERCEPTS = [reduce_ops, rng_ops, ntt_ops]
