"""Samplers and secret keys: which value every random bit pattern is mapped to, and that no bit is used twice."""
import math, os, re
import struct as pk
import engine, spec, term, sem, arith, ring, fhe, samples
from common import Report, guard
from spec import *
from ring import N, L, NL, QB, Q, f0, seqof, coef, getter, lin
from checks.c09 import struct, length, only_seq

TWO = const(2)
QV = mk_pow(TWO, QB)


def open_samplers(I, prog):
    I.open_samplers = set(prog.fns)
    I.intercepts.insert(0, bits)


def bits(I, fr, st, inst, info, path, a):
    """bytes of a generator as sums of their bits"""
    if info is None:
        return NotImplemented
    if info["item"] == "fill_bytes" and len(a) == 2:
        ref, r = sem.find_rng(I, st, a[0])
        buf = prune(a[1], st.ctx)
        s = prune(I.load(st, buf), st.ctx) if isinstance(buf, Ref) else None
        while isinstance(s, Ref):
            buf, s = s, prune(I.load(st, s), st.ctx)
        if r is None or not isinstance(s, Seq) or not s.n.is_const() or s.n.cval() > 64:
            return NotImplemented
        I.store(st, ref, Agg(sem.RNGTY, None, [r.f[0], r.f[1] + 1]))
        term.set_sel_domain("rnd:bit", ZERO, ONE)
        out = []
        for i in range(int(s.n.cval())):
            v = ZERO
            for k in range(8):
                v = v + mk_sel("rnd:bit", (r.f[0], r.f[1], const(8 * i + k))) * (1 << k)
            out.append(v)
        I.store(st, buf, SLit(out))
        return UNIT, st
    if info["item"] == "count_ones" and len(a) == 1:
        x = prune(a[0], st.ctx)
        m = re.search(r"u(8|16|32|64)\b", info["name"])
        if m and isinstance(x, Poly):
            v = ZERO
            for k in range(int(m.group(1))):
                v = v + mk_rem(mk_quo(x, const(1 << k), st.ctx), TWO, st.ctx)
            return v, st
    return NotImplemented


UNIT = Agg("unit", None, [])


# ---------------------------------------------------------------- bit fields
SPAN = 64  # bits reserved per draw in a bit address


class Code:
    """w bits of one word: (word >> shift) mod 2^w"""
    def __init__(self, atom, word, shift, w):
        self.atom, self.word, self.shift, self.w = atom, word, shift, w
        self.size = 64 if "64" in str(word.args[0]) else 32

    def addr(self):
        return self.word.args[2] * self.size + self.shift


def word_of(p):
    A = single_atom(p)
    return A if A is not None and A.kind == "sel" and str(A.args[0]) in ("rnd:next_u32", "rnd:next_u64", "rnd:gen:u32", "rnd:gen:u64") and p == P(A) else None


def codes(xs):
    """the bit fields of generator words some values depend on; None when a word is used in another way"""
    out = {}
    used = set()
    ats = samples.atoms(tuple(xs))
    for A in ats.values():
        if A.kind == "rem" and A.args[1].is_const():
            m = int(A.args[1].cval())
            if m & (m - 1) or m < 2:
                continue
            W, sh = word_of(A.args[0]), ZERO
            if W is None:
                B_ = single_atom(A.args[0])
                if B_ is not None and A.args[0] == P(B_) and B_.kind == "quo":
                    W = word_of(B_.args[0])
                    sh = log2(B_.args[1])
            if W is None or sh is None:
                continue
            out[A.id] = Code(A, W, sh, m.bit_length() - 1)
            used.add(W.id)
    for A in ats.values():
        if word_of(P(A)) is not None and A.id not in used:
            return None
    return list(out.values())


def log2(p):
    """exponent of a power of two"""
    if p.is_const():
        m = int(p.cval())
        return const(m.bit_length() - 1) if m > 0 and m & (m - 1) == 0 else None
    A = single_atom(p)
    if A is not None and A.kind == "pow" and p == P(A) and A.args[0].is_const():
        b = int(A.args[0].cval())
        if b & (b - 1) == 0:
            return A.args[1] * (b.bit_length() - 1)
    return None


def tidy(cx):
    """the facts of a context without the disjunctions that the others imply"""
    hard = [c for c in cx.facts if c[0] != "or"]
    soft = [c for c in cx.facts if c[0] == "or"]
    for _ in range(3):
        base = term.EMPTY.add(*hard)
        again = []
        for c in soft:
            live = []
            for x in c[1]:
                d = base.decide(x)
                if d is True:
                    break
                if d is None:
                    live.append(x)
            else:
                (hard if len(live) == 1 else again).append(live[0] if len(live) == 1 else ("or", tuple(live)) if live else c)
        if again == soft:
            break
        soft = again
    return term.EMPTY.add(*hard, *soft)


def split(cx, depth=8):
    """the cases of a context by the conditions of its disjunctions that involve no random words"""
    t = tidy(cx)
    if t.infeasible():
        return []
    for c in t.facts:
        if c[0] != "or" or not depth:
            continue
        for x in c[1]:
            if not any(word_of(P(A)) is not None for A in samples.atoms((x,)).values()):
                return split(t.add(x), depth - 1) + split(t.add(neg(x)), depth - 1)
    return [t]


def table(S, key, f, what, got, cx, want, fams, idx):
    """got maps the patterns of one bit field to the wanted values with the wanted multiplicities.
    want: {name: (value, share)}"""
    rep = S.rep
    groups = {}
    for y, t in [(y, t) for y, c in samples.alternatives(got, cx) for t in split(c)]:
        if not isinstance(y, Poly) or has_opq(y):
            rep.unknown(key, "%s: unknown value %s" % (what, vshow(y)[:80]))
            return
        cs = codes([y] + list(t.facts))
        if cs is None:
            rep.unknown(key, "%s: depends on random words in an unknown way: %s" % (what, show(y)[:100]))
            return
        if not cs:
            w = S.inhabited(t)
            if w:
                rep.bad(key, "%s (%s): %s does not depend on any random bits: it is %s, e.g. %s" % (f.name, f.where(), what, show(y)[:80], w))
                return
            continue
        g = groups.setdefault(tuple(sorted(k.atom.id for k in cs)), (cs, []))
        g[1].append((y, t))
    # fewer bits in one case than in another: keep the widest sets
    for ids in sorted(groups, key=len):
        sup = [i for i in groups if set(ids) < set(i)]
        if sup:
            for i in sup:
                groups[i][1].extend(groups[ids][1])
            del groups[ids]
    if not groups:
        rep.unknown(key, "%s: no alternatives" % what)
        return
    total = sum(s for _, s in want.values())
    for cs, alts in groups.values():
        if any(a.word is b.word and cx.decide(eq(a.shift - b.shift)) is not False for i, a in enumerate(cs) for b in cs[:i]):
            rep.unknown(key, "%s: overlapping bit fields" % what)
            return
        bits = sum(k.w for k in cs)
        if bits > 8:
            rep.unknown(key, "%s: %d bits" % (what, bits))
            return
        own = {k.atom.id for k in cs}
        base = [c for c in alts[0][1].facts if not own & set(samples.atoms((c,)))]
        where = term.EMPTY.add(*base)
        for k in cs:
            out = where.add(ge(k.shift + k.w - k.size - 1))
            if not out.infeasible():
                w = S.inhabited(out)
                if w:
                    rep.bad(key, "%s (%s): %s is made of bits beyond the %d of a draw, which are always 0, e.g. %s" % (f.name, f.where(), what, k.size, w))
                    return
        count = {nm: 0 for nm in want}
        for d in range(1 << bits):
            m, z = {}, d
            for k in cs:
                m[k.atom.id] = const(z & ((1 << k.w) - 1))
                z >>= k.w
            hit = []
            for y, c in alts:
                facts = [term.subst_cond(x, m) for x in c.facts]
                if "F" in [x[0] for x in facts]:
                    continue
                c2 = term.EMPTY.add(*facts)
                if not c2.infeasible():
                    hit.append((subst(y, m), c2))
            names = set()
            for y, c2 in hit:
                name = [nm for nm, (v, _) in want.items() if S.decide(y, v, c2)[0] is True]
                if len(name) == 1:
                    names.add(name[0])
                    continue
                w = S.inhabited(c2)
                if all(S.decide(y, v, c2)[0] is False for v, _ in want.values()) and w:
                    rep.bad(key, "%s (%s): %s: bit pattern %d yields %s, which is none of %s, e.g. %s" % (f.name, f.where(), what, d, show(y)[:80], ", ".join(want), w))
                    return
                names.add("?")
            if len(names) != 1 or "?" in names:
                rep.unknown(key, "%s: pattern %d yields %s" % (what, d, [show(y)[:60] for y, _ in hit]))
                return
            count[names.pop()] += 1
        if any(c * total != (s << bits) for c, s in zip(count.values(), [s for _, s in want.values()])):
            w = S.inhabited(where)
            msg = "%s: of the %d patterns of the bits used, %s; required are %s" % (what, 1 << bits, ", ".join("%d yield %s" % (c, nm) for nm, c in count.items()),
                                                                                  ", ".join("%d/%d for %s" % (s, total, nm) for nm, (_, s) in want.items()))
            (rep.bad(key, "%s (%s): %s, e.g. %s" % (f.name, f.where(), msg, w)) if w else rep.unknown(key, msg))
            return
        for k in cs:
            fams.append((k, where, idx))
    rep.ok(key, what + ": " + ", ".join("%s %d/%d" % (nm, s, total) for nm, (_, s) in want.items()))


def disjoint(S, key, f, what, fams, n):
    """the bit fields of different indices never overlap"""
    rep = S.rep
    if not fams:
        return
    und = None
    i, d = (P(term.mk_atom("var", (nm,), 0)) for nm in ("index i of the vector", "gap"))
    num = 0
    for A, ca, ja in fams:
        for B_, cb, jb in fams:
            if term.EMPTY.decide(eq(A.word.args[1] - B_.word.args[1])) is False:
                continue
            num += 1
            m1, m2 = {ja.id: i}, {jb.id: i + 1 + d}
            p, q = subst(A.addr(), m1), subst(B_.addr(), m2)
            facts = [term.subst_cond(c, m1) for c in ca.facts] + [term.subst_cond(c, m2) for c in cb.facts]
            cx = term.EMPTY.add(lt(i + 1 + d, n)).add(*facts)
            if A.size != B_.size:
                und = und or "draws of different sizes"
                continue
            # the shorter rule: addresses grow with the index by at least the width
            if cx.infeasible() or cx.decide(ge(q - p - A.w)) is True or cx.decide(ge(p - q - B_.w)) is True:
                continue
            hit = cx.add(ge(p + A.w - q - 1), ge(q + B_.w - p - 1))
            if hit.infeasible():
                continue
            w = S.inhabited(hit)
            if w:
                rep.bad(key, "%s (%s): %s: two entries share random bits, e.g. %s" % (f.name, f.where(), what, w))
                return
            und = und or "cannot separate %s and %s" % (show(p)[:100], show(q)[:100])
    if und:
        rep.unknown(key, und)
    else:
        rep.ok(key, "%s: %d pairs of bit fields never overlap" % (what, num))


BIN = {"0": (ZERO, 1), "1": (ONE, 1)}


def tern(q):
    return {"0": (ZERO, 2), "1": (ONE, 1), "-1": (q - 1, 1)}


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    S.deep = arith.deep
    n = {}
    for f in prog.wsfns:
        item = f.info["item"]
        if "{closure" in f.name:
            continue
        m = re.match(r"sample_(binary|ternary)_(values|field_vec)$", item)
        if m:
            with guard(rep, f.name):
                n["vec"] = n.get("vec", 0) + 1
                vector(S, prog, f, m.group(1))
        m = re.search(r"(Field)?(Binary|Ternary)Sampler", f.name)
        if item == "sample" and m:
            with guard(rep, f.name):
                n["one"] = n.get("one", 0) + 1
                single(S, prog, f, m.group(2))
        if item == "sample_cbd_field_vec":
            with guard(rep, f.name):
                n["cbd"] = n.get("cbd", 0) + 1
                cbd(S, prog, f)
        m = re.match(r"<algebra::FieldUniformSampler<", f.name)
        if item == "sample" and m:
            with guard(rep, f.name):
                n["uniform"] = n.get("uniform", 0) + 1
                uniform(S, prog, f)
        if item == "sample" and re.match(r"<(algebra::Field|lattice::)DiscreteGaussian", f.name):
            with guard(rep, f.name):
                n["gauss"] = n.get("gauss", 0) + 1
                gauss(S, prog, f)
        if re.match(r"(algebra::Field|lattice::)DiscreteGaussian", f.name) and item in ("new", "new_with_max"):
            with guard(rep, f.name):
                n["gauss new"] = n.get("gauss new", 0) + 1
                gauss_new(S, prog, f)
        m = re.match(r"algebra::(NTT)?Polynomial::<roots::F\d+>::random(_with_\w+)?::", f.name)
        if m:
            with guard(rep, f.name):
                n["random"] = n.get("random", 0) + 1
                random_poly(S, prog, f, item)
        if f.name.startswith(("fhe_core::SecretKeyPack::<u16, roots::F32>::new::", "zkfhe::KeyGen::generate_secret_key::<u16, roots::F32")):
            for steps in fhe.STEPS:
                for lk in ("Binary", "Ternary"):
                    for rk in ("Binary", "Ternary") + (("Gaussian",) if steps == "BrKsMs" else ()):
                        with guard(rep, f.name):
                            n["keys"] = n.get("keys", 0) + 1
                            secret_key(S, prog, f, steps, lk, rk)
    for k, least in (("random", 7), ("keys", 28), ("vec", 11), ("one", 14), ("cbd", 4), ("uniform", 4), ("gauss", 8), ("gauss new", 6)):
        rep.floor(k, n.get(k, 0), least)
    return rep.finish("a sample is a function of generator bits with the documented multiplicities; entries share no bits; keys consist of draws of the configured kind",
                      explanation="Every sampler, random polynomial and secret key constructor is evaluated with generator words, bytes and normal variates as symbols. "
                      "For vectors of symbolic length, entry j is split into its cases, every pattern of the bits it uses is looked up, and the bit addresses of two different entries are separated.")


def inner(v, cx):
    return f0(prune(v, cx))


def modulus_of(prog, f):
    """the modulus of the entries: that of the field, or the modulus argument"""
    ret = prog.types[f.locals[0]]
    t = ret["args"][0] if ret.get("path") == "std::vec::Vec" else f.locals[0]
    return prog.types[t]["name"]


def vector(S, prog, f, kind):
    key = "%s<%s>" % (f.path, modulus_of(prog, f))
    I = ring.interp(prog)
    open_samplers(I, prog)
    ety = modulus_of(prog, f)
    q = QV if not ety.startswith("F") else const(engine.FIELDQ[ety])
    ln = term.var("length", 0, 1 << 40)
    over, names = {}, {}
    for k in range(1, f.argc + 1):
        t = prog.types[f.locals[k]]
        if t["name"] == "usize":
            over[k - 1] = ln
        elif t["k"] == "int":
            over[k - 1] = q
    if ety.startswith("F") and kind == "ternary" and "values" in f.info["item"]:
        # the sampler of integers instantiated with a field: not meant for it
        return
    vals, before, res = spec.run(I, f, over=over, facts=[ge(QB - 2)])
    if res is None:
        S.rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    cx = st.ctx
    s = seqof(prune(ret, cx), cx)
    if not length(S, key + ":length", f, "vector", s, ln, cx):
        return
    j = term.mk_atom("var", ("index j of the vector",), 0)
    cj = cx.add(lt(P(j), ln))
    fams = []
    table(S, key, f, "entry j", inner(s.read(P(j), cj), cj), cj, BIN if kind == "binary" else tern(q), fams, j)
    disjoint(S, key + ":bits", f, "entries", fams, ln)


def single(S, prog, f, kind):
    ety = modulus_of(prog, f)
    key = "%s<%s>" % (f.path, ety)
    I = ring.interp(prog)
    open_samplers(I, prog)
    if ety.startswith("F") and "Field" not in f.name.split(" as ")[0]:
        return
    q = QV if not ety.startswith("F") else const(engine.FIELDQ[ety])
    over = None
    if not ety.startswith("F") and kind == "Ternary":
        g = [x for x in prog.wsfns if x.name == "lattice::TernarySampler::<%s>::new" % ety]
        if not g:
            S.rep.bad(key, "TernarySampler::new is not found")
            return
        vals, before, res = spec.run(ring.interp(prog), g[0], over={0: q}, facts=[ge(QB - 2)])
        if res is None:
            S.rep.bad(key, "%s never returns" % g[0].name)
            return
        me = prune(res[0], res[1].ctx)

        def over(I, st):
            return {0: Ref(I.newcell(st, me), ())}
    vals, before, res = spec.run(I, f, over=over, names={0: "self"}, facts=[ge(QB - 2)])
    if res is None:
        S.rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    neg1 = q - 1
    fams = []
    t = term.mk_atom("var", ("unused",), 0)
    table(S, key, f, "sample", inner(ret, st.ctx), st.ctx, BIN if kind == "Binary" else {"0": (ZERO, 2), "1": (ONE, 1), "-1": (neg1, 1)}, fams, t)


def cbd(S, prog, f):
    rep = S.rep
    ety = modulus_of(prog, f)
    key = "%s<%s>" % (f.path, ety)
    I = ring.interp(prog)
    open_samplers(I, prog)
    q = const(engine.FIELDQ[ety])
    if engine.FIELDQ[ety] <= 21:
        return      # the distribution needs a modulus above 21
    ln = term.var("length", 0, 1 << 40)
    vals, before, res = spec.run(I, f, over={0: ln})
    if res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    cx = st.ctx
    s = seqof(prune(ret, cx), cx)
    if not length(S, key + ":length", f, "vector", s, ln, cx):
        return
    j = term.mk_atom("var", ("index j of the vector",), 0)
    cj = cx.add(lt(P(j), ln))
    got = inner(s.read(P(j), cj), cj)
    ref, n = None, 0
    for y, c in samples.alternatives(got, cj):
        n += 1
        if not isinstance(y, Poly) or has_opq(y):
            rep.unknown(key, "unknown value %s" % vshow(y)[:80])
            return
        plus, minus, rest = set(), set(), ZERO
        A = single_atom(y)
        core = A.args[0] if A is not None and A.kind == "rem" and y == P(A) and A.args[1] == q else y
        for m, v in core.d.items():
            x = term.atom_by_id(m[0]) if len(m) == 1 else None
            if x is not None and x.kind == "sel" and x.args[0] == "rnd:bit" and v in (1, -1):
                (plus if v == 1 else minus).add(x.id)
            else:
                rest = rest + Poly({m: v})
        if not rest.is_const():
            rep.unknown(key, "not a sum of bits: %s" % show(y)[:100])
            return
        w = S.inhabited(c)
        if core is y and not (c.decide(ge(y)) is True and c.decide(lt(y, q)) is True):
            st_, why = S.decide(y, mk_rem(y, q, c), c)
            if st_ is not True:
                (rep.bad(key, "%s (%s): entry j is not a residue modulo q: %s" % (f.name, f.where(), why)) if st_ is False and w else rep.unknown(key, "range of %s" % show(y)[:80]))
                return
        if not w:
            continue
        if len(plus) != 21 or len(minus) != 21 or int(rest.cval()) % int(q.cval()):
            rep.bad(key, "%s (%s): entry j is the sum of %d random bits minus the sum of %d others plus %s modulo q; required are 21, 21 and 0, e.g. %s" % (
                f.name, f.where(), len(plus), len(minus), show(rest), w))
            return
        places = {(term.atom_by_id(i).args[1], term.atom_by_id(i).args[2]) for i in plus | minus}
        if ref is None:
            ref = (plus, minus)
        elif ref != (plus, minus):
            rep.bad(key, "%s (%s): entry j uses different bits in different cases, e.g. %s" % (f.name, f.where(), w))
            return
        for s1, p1 in places:
            for s2, p2 in places:
                i, d = (P(term.mk_atom("var", (nm,), 0)) for nm in ("index i of the vector", "gap"))
                a, b = subst(p1, {j.id: i}), subst(p2, {j.id: i + 1 + d})
                c2 = term.EMPTY.add(lt(i + 1 + d, ln), eq(a - b))
                if c2.infeasible():
                    continue
                ww = S.inhabited(c2)
                (rep.bad(key, "%s (%s): two entries share random bits, e.g. %s" % (f.name, f.where(), ww)) if ww else rep.unknown(key, "cannot separate the draws"))
                return
    if ref is None:
        rep.unknown(key, "no alternatives")
    else:
        rep.ok(key, "entry j = sum of 21 bits - sum of 21 other bits modulo q, %d cases" % n)




def field_of(prog, I, ty, v, name):
    t = prog.types[ty]
    names = [x for x, _ in t["variants"][v.var or 0]["fields"]]
    return v.f[names.index(name)]


def uniform(S, prog, f):
    """new: (q, 2^w mod q); sample: the high word of draw * q, accepted iff the low word is at least the threshold"""
    rep = S.rep
    ety = modulus_of(prog, f)
    q = engine.FIELDQ[ety]
    w = 64 if q > 1 << 32 else 32
    key = "%s<%s>" % (f.path, ety)
    g = [x for x in prog.wsfns if x.name == "algebra::FieldUniformSampler::<roots::%s>::new" % ety]
    if not g:
        rep.bad(key, "FieldUniformSampler::new is not found")
        return
    I = ring.interp(prog)
    vals, before, res = spec.run(I, g[0])
    if res is None:
        rep.bad(key, "%s never returns" % g[0].name)
        return
    ret, st = res
    r = prune(ret, st.ctx)
    rg, th = (prune(field_of(prog, I, g[0].locals[0], r, nm), st.ctx) for nm in ("range", "thresh"))
    I = ring.interp(prog)
    open_samplers(I, prog)

    def over(I, st):
        return {0: Ref(I.newcell(st, r), ())}
    vals, before, res = spec.run(I, f, over=over)
    if res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    M = const(1 << w)
    n = 0
    for y, c in samples.alternatives(ret, st.ctx):
        n += 1
        ats = [A for A in samples.atoms((y,) + tuple(c.facts)).values() if A.kind == "sel" and str(A.args[0]).startswith("rnd:")]
        if len(ats) != 1 or str(ats[0].args[0]) != "rnd:gen:u%d" % w and str(ats[0].args[0]) != "rnd:next_u%d" % w:
            rep.unknown(key, "draws: %s" % ", ".join(show(P(a)) for a in ats)[:120])
            return
        x = term.var("draw", 0, (1 << w) - 1)
        y = subst(y, {ats[0].id: x})
        cx = term.EMPTY.add(*[term.subst_cond(t, {ats[0].id: x}) for t in c.facts])
        if cx.infeasible():
            continue
        lo, hi = mk_rem(x * q, M, cx), mk_quo(x * q, M, cx)
        stt, why = S.decide(y, hi, cx)
        if stt is not True:
            S.report(key, f, "sample = high word of draw * q", stt, why)
            return
        T_ = const((1 << w) % q)
        low, edge = cx.add(lt(lo, T_)), cx.add(eq(lo - T_))
        if not low.infeasible():
            wit = S.inhabited(low)
            (rep.bad(key, "%s (%s): accepts draws whose low word is below 2^%d mod q, which favours some values, e.g. %s" % (f.name, f.where(), w, wit)) if wit else rep.unknown(key, "acceptance"))
            return
        if n == 1 and edge.infeasible():
            rep.bad(key, "%s (%s): rejects draws whose low word is exactly 2^%d mod q = %d (threshold %s), which makes some values rarer" % (f.name, f.where(), w, (1 << w) % q, show(th)))
            return
    rep.ok(key, "each value from exactly floor(2^%d / q) draws" % w)


# ---------------------------------------------------------------- floating point
def fconst(x):
    return ("fl", "const", pk.pack("<d", x).hex())


def fval(t, env):
    """value of a floating-point expression under env: expression -> number"""
    if t in env:
        return env[t]
    if isinstance(t, Poly):
        return float(pval(t, env))
    op = t[1]
    if op == "const":
        return pk.unpack("<d", bytes.fromhex(t[2]))[0]
    if op == "i2f":
        return float(pval(t[2], env))
    a = [fval(x, env) for x in t[2:]]
    if op == "abs":
        return abs(a[0])
    if op == "neg":
        return -a[0]
    if op == "round":
        return math.copysign(math.floor(abs(a[0]) + 0.5), a[0])
    if op in ("floor", "ceil", "trunc"):
        return float(getattr(math, op)(a[0]))
    if op in ("Add", "Sub", "Mul", "Div"):
        return {"Add": a[0] + a[1], "Sub": a[0] - a[1], "Mul": a[0] * a[1], "Div": a[0] / a[1] if a[1] else math.inf}[op]
    raise KeyError(op)


def pval(p, env):
    v = 0
    for m, c in p.d.items():
        z = c
        for i in m:
            z = z * aval(term.atom_by_id(i), env)
        v = v + z
    return v


def aval(A, env):
    if A.id in env:
        return env[A.id]
    if A.kind == "fn" and A.args[0] == "f2i":
        lo, hi = {"u": (0, (1 << int(A.args[1][1:])) - 1), "i": (-(1 << int(A.args[1][1:]) - 1), (1 << int(A.args[1][1:]) - 1) - 1)}[A.args[1][0]]
        return min(max(int(fval(A.args[2], env)), lo), hi)
    if A.kind == "fn" and A.args[0] == "bits":
        return bits_of(fval(A.args[1], env))
    if A.kind == "rem":
        return pval(A.args[0], env) % pval(A.args[1], env)
    if A.kind == "quo":
        return pval(A.args[0], env) // pval(A.args[1], env)
    if A.kind == "pow":
        return pval(A.args[0], env) ** pval(A.args[1], env)
    raise KeyError(show(P(A)))


def cval(c, env):
    k = c[0]
    if k in ("T", "F"):
        return k == "T"
    if k in ("ge", "eq", "ne"):
        v = pval(c[1], env)
        return v >= 0 if k == "ge" else (v == 0) == (k == "eq")
    if k in ("and", "or"):
        return (all if k == "and" else any)(cval(x, env) for x in c[1])
    if k in ("ob", "nb") and c[1] in ("flLt", "flLe", "flEq", "flNe"):
        a, b = fval(c[2], env), fval(c[3], env)
        r = {"flLt": a < b, "flLe": a <= b, "flEq": a == b, "flNe": a != b}[c[1]]
        return r == (k == "ob")
    if k in ("ob", "nb") and c[1] == "badnormal":
        return k == "nb"
    raise KeyError(str(c[1]))


def gauss(S, prog, f):
    """v accepted iff |v - mean| < max; value round(v) modulo q"""
    rep = S.rep
    ety = modulus_of(prog, f)
    key = "%s<%s>" % (f.path, ety)
    I = ring.interp(prog)
    open_samplers(I, prog)
    isf = ety.startswith("F")
    vals, before, res = spec.run(I, f, names={0: "self"}, facts=[ge(QB - 4)])
    if res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    me = before[vals[0].cell]
    sty = prog.types[f.locals[1]]["to"] if prog.types[f.locals[1]]["k"] == "ref" else f.locals[1]
    nm = [x for x, _ in prog.types[sty]["variants"][0]["fields"]]
    mx = me.f[nm.index("max_std_dev")]
    q = const(engine.FIELDQ[ety]) if isf else me.f[nm.index("modulus")]
    normal = [x for x in me.f if isinstance(x, Agg) and len(x.f) == 2][0]
    mean, std = normal.f
    bits_ = 32 if not isf else {"F8": 8, "F16": 16, "F32": 32, "F64": 64}[ety]
    alts = []
    for y, c in samples.alternatives(ret, st.ctx):
        # the iteration of the rejection loop does not matter
        z = {A.id: ZERO for A in samples.atoms((y,) + tuple(c.facts)).values() if A.kind == "opq" and "trip" in str(A.args[0])}
        alts.append((subst(y, z) if isinstance(y, Poly) else y, term.EMPTY.add(*[term.subst_cond(t, z) for t in c.facts])))
    draws = {x for y, c in alts for x in normals(y, c)}
    if len(draws) != 1:
        rep.unknown(key, "%d draws" % len(draws))
        return
    v = draws.pop()
    want = ("ob", "flLt", ("fl", "abs", ("fl", "Sub", v, mean)), mx)
    rd = ("fl", "round", v)
    negc = ("ob", "flLt", rd, fconst(0.0))
    und = None
    for y, c in alts:
        if not isinstance(y, Poly) or has_opq(y):
            und = und or "value %s" % vshow(y)[:80]
            continue
        if want not in c.facts:
            und = und or "acceptance condition"
        # the value: round(v) in either sign
        ints = [A for A in samples.atoms((y,)).values() if A.kind == "fn" and A.args[0] == "f2i"]
        if len(ints) != 1:
            und = und or "%d conversions" % len(ints)
            continue
        k = P(ints[0])
        pos, ng = (d == ints[0].args[2] for d in (rd, ("fl", "neg", rd)))
        sign = 1 if pos and neg(negc) in c.facts else -1 if ng and negc in c.facts else None
        cy = c.add(ge(q - 1 - k), ge(k - (1 if sign == -1 else 0)))
        if cy.infeasible():
            continue    # beyond the modulus
        if sign is None or S.decide(y, mk_rem(k * sign, q, cy), cy)[0] is not True:
            und = und or "value %s" % show(y)[:120]
    if und is None:
        rep.ok(key, "round(v) modulo q for a normal v with |v - mean| < max, %d cases" % len(alts))
        return
    # differing normal forms: a valuation
    for me_, sd in ((0.0, 3.2), (0.0, 1.0), (2.0, 1.5), (-2.0, 1.5), (0.5, 0.7)):
        mxv = 6 * sd
        for d in [x / 8 for x in range(-int(8 * mxv) - 24, int(8 * mxv) + 24)] + [mxv, -mxv]:
            env = {mean: me_, std: sd, mx: mxv, v: me_ + d}
            env[single_atom(QB).id] = 6
            qv = engine.FIELDQ[ety] if isf else 64
            if not isf:
                env[single_atom(q).id] = 64
            for A in samples.atoms((q,)).values() if not isf else ():
                env.setdefault(A.id, 6)
            got = []
            try:
                for y, c in alts:
                    if all(cval(x, env) for x in c.facts):
                        got.append(pval(y, env))
            except (KeyError, TypeError, AttributeError) as e:
                if os.environ.get("AN_DEBUG"):
                    print(repr(e)[:300])
                got = None
                break
            acc = abs(d) < mxv
            ref = int(math.copysign(math.floor(abs(me_ + d) + 0.5), me_ + d)) % qv
            if abs(me_ + d) + 1 >= qv or abs(abs(d) - mxv) == 0:
                continue
            if (got and not acc) or (acc and got != [ref] and len(got) <= 1):
                rep.bad(key, "%s (%s): the draw v = %s with mean %s and deviation %s (limit %s) is %s; required: %s" % (
                    f.name, f.where(), me_ + d, me_, sd, mxv, "mapped to %s" % got[0] if got else "rejected", "value %d modulo %d" % (ref, qv) if acc else "rejected"))
                return
        if got is None:
            break
    rep.unknown(key, und)


def normals(y, c):
    """the draws of normal variates occurring in a value and its condition"""
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "fl" and len(x) > 1 and str(x[1]).startswith("rnd:Normal"):
                out.add(x)
                return
            for z in x:
                go(z)
        elif isinstance(x, Poly):
            for i in x.atoms():
                for z in term.atom_by_id(i).args:
                    go(z)
    go(y)
    for x in c.facts:
        go(x)
    return out


def gauss_new(S, prog, f):
    """the limit is six deviations (or the one given); negative deviations are refused"""
    rep = S.rep
    I = ring.interp(prog)
    base = re.sub(r"::<(roots::)?(\w+)>", r"<\2>", f.name)
    key = base
    argn = {}
    fargs = [k for k in range(1, f.argc + 1) if prog.types[f.locals[k]]["name"] == "f64"]
    names = dict(zip((k - 1 for k in fargs), ("mean", "std_dev", "max")))
    vals, before, res = spec.run(I, f, names=names, facts=[ge(QB - 4)])
    if res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    sty = ret_of(prog, f)
    nm = [x for x, _ in prog.types[sty]["variants"][0]["fields"]]
    sm, ss, sx = (("fl", "sym", x) for x in ("mean", "std_dev", "max"))
    given = len(fargs) == 3
    limit = [sx] if given else [("fl", "Mul", ss, fconst(6.0)), ("fl", "Mul", fconst(6.0), ss)]
    cbd_c = conj([eq(term.mk_fn("bits", (sm,), 0, (1 << 64) - 1)), eq(term.mk_fn("bits", (ss,), 0, (1 << 64) - 1) - bits_of(3.2))])
    refuse = [("ob", "flLt", ss, fconst(0.0))] + ([("ob", "flLe", sx, ss)] if given else [])
    alts, und = [], None

    def go(x, c):
        x = prune(x, c)
        if isinstance(x, Ch):
            for d, y in ((x.c, x.a), (neg(x.c), x.b)):
                c2 = c.add(d)
                if not c2.infeasible():
                    go(y, c2)
            return
        alts.append((x, c))
    go(ret, st.ctx)
    for x, c in alts:
        if not isinstance(x, Agg):
            und = und or "unknown result"
            continue
        if (x.var or 0) == 1:
            if not any(r in c.facts for r in refuse) and not any(t[0] == "ob" and t[1] == "badnormal" or t[0] == "or" and set(t[1]) <= set(refuse) for t in c.facts):
                und = und or "refused under other conditions"
            continue
        if not all(neg(r) in c.facts for r in refuse):
            und = und or "accepted without the checks"
        y = prune(x.f[0], c)
        for a, b in zip(nm, y.f):
            b = prune(b, c)
            good = {"max_std_dev": b in limit, "cbd_enable": b == cbd_c, "modulus": True}.get(a, isinstance(b, Agg) and list(b.f) == [sm, ss])
            if not good:
                und = und or "field %s = %s" % (a, vshow(b)[:100])
    if und is None and alts:
        rep.ok(key, "limit %s, %d cases" % ("as given" if given else "6 deviations", len(alts)))
        return
    for m in (0.0, -0.0, 1.0, 3.2):
        for sd in (3.2, 0.0, 1.0, -1.0, 3.19, 3.3):
            for mxv in ((20.0, 3.2, 1.0, 0.5, 4.0) if given else (None,)):
                env = {sm: m, ss: sd, sx: mxv}
                try:
                    hit = [x for x, c in alts if all(cval(t, env) for t in c.facts if t not in st.ctx.facts or t[0] != "ge")]
                    if len(hit) != 1:
                        continue
                    x = hit[0]
                    no = sd < 0 or given and mxv <= sd
                    ans = None
                    if (x.var or 0) == 1:
                        if not no:
                            ans = "refused"
                    elif no:
                        ans = "accepted"
                    else:
                        for a, b in zip(nm, x.f[0].f):
                            if a == "max_std_dev" and fval(b, env) != (mxv if given else sd * 6.0):
                                ans = "given the limit %s" % fval(b, env)
                            elif a == "cbd_enable" and cval(b, env) != (bits_of(m) == 0 and sd == 3.2):
                                ans = "sampled %s a binomial distribution" % ("by" if cval(b, env) else "without")
                            elif isinstance(b, Agg) and len(b.f) == 2 and [fval(t, env) for t in b.f] != [m, sd]:
                                ans = "sampled with mean and deviation %s" % [fval(t, env) for t in b.f]
                except (KeyError, TypeError, AttributeError):
                    continue
                if ans:
                    rep.bad(key, "%s (%s): mean %s, deviation %s%s: %s" % (f.name, f.where(), m, sd, ", limit %s" % mxv if given else "", ans))
                    return
    rep.unknown(key, und or "no result")


def bits_of(x):
    return int.from_bytes(pk.pack("<d", x), "little")


def ret_of(prog, f):
    """the success type of a constructor"""
    t = prog.types[f.locals[0]]
    return t["variants"][0]["fields"][0][1]


# ---------------------------------------------------------------- keys
def vecs(I, fr, st, inst, info, path, a):
    """vectors of binary and ternary samples as draws"""
    m = re.match(r"sample_(binary|ternary)_(values|field_vec)$", info["item"] if info else "")
    fn = I.p.fns.get(inst)
    if not m or fn is None or len(a) not in (2, 3):
        return NotImplemented
    ref, r = sem.find_rng(I, st, a[-1])
    n = prune(a[-2], st.ctx)
    rt = I.p.types[fn.locals[0]]
    if r is None or not isinstance(n, Poly) or rt.get("path") != "std::vec::Vec":
        return NotImplemented
    ety = rt["args"][0]
    q = prune(a[0], st.ctx) if len(a) == 3 else QV if I.p.types[ety]["k"] == "int" else const(engine.FIELDQ.get(I.p.types[ety]["name"].split("::")[-1], 0))
    v = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
    term.set_sel_domain("rnd:" + m.group(1), ZERO, const(1 if m.group(1) == "binary" else 2))
    d = mk_sel("rnd:" + m.group(1), (r.f[0], r.f[1] + P(v)))
    val = d if m.group(1) == "binary" else Ch(eq(d), ZERO, Ch(eq(d - 1), ONE, q - 1))
    if I.p.types[ety]["k"] == "adt":
        val = Agg(ety, None, [val])
    I.store(st, ref, Agg(sem.RNGTY, None, [r.f[0], r.f[1] + n]))
    return SLam(n, v, val, ety), st


def of_draw(d, q):
    """the value a draw stands for modulo q"""
    lab = str(d.args[0])
    x = P(d)
    return Ch(eq(x), ZERO, Ch(eq(x - 1), ONE, q - 1)) if lab == "rnd:ternary" else x


def one_draw(S, key, f, what, s, n, q, labels, cx):
    """entry j is one draw of its own of the given kind; returns the position as a function of the index"""
    rep = S.rep
    j = term.mk_atom("var", ("index j of the vector",), 0)
    cj = cx.add(lt(P(j), n))
    got = coef(s, P(j), cj)
    ds = [d for d in samples.atoms((got,)).values() if d.kind == "sel" and str(d.args[0]).startswith("rnd:")]
    ds = [d for d in ds if any(str(d.args[0]).startswith("rnd:" + l) for l in labels)] if len(labels) > 1 else ds
    if has_opq(got):
        rep.unknown(key, "%s: entry j is unknown: %s" % (what, vshow(got)[:120]))
        return None
    if not ds:
        w = S.inhabited(cj)
        (rep.bad(key, "%s (%s): entry j of the %s contains no random draw: %s, e.g. %s" % (f.name, f.where(), what, vshow(got)[:100], w)) if w else rep.unknown(key, "%s: no draw" % what))
        return None
    bad = [str(d.args[0]) for d in ds if not any(str(d.args[0]).startswith("rnd:" + l) for l in labels)]
    if bad:
        w = S.inhabited(cj)
        (rep.bad(key, "%s (%s): %s: entry j is drawn by %s, required is %s, e.g. %s" % (f.name, f.where(), what, bad[0][4:120], " / ".join(l[:100] for l in labels), w)) if w else rep.unknown(key, "%s: draws" % what))
        return None
    pos = {d.args[1:3] for d in ds}
    if len(pos) != 1:
        # several draws per entry (rejected alternatives of a conversion)
        rep.unknown(key, "%s: %d draws" % (what, len(pos)))
        return None
    stream, p = pos.pop()
    i, g = (P(term.mk_atom("var", (nm,), 0)) for nm in ("index i of the vector", "gap"))
    a, b = subst(p, {j.id: i}), subst(p, {j.id: i + 1 + g})
    c2 = cx.add(lt(i + 1 + g, n), eq(a - b))
    if not c2.infeasible():
        w = S.inhabited(c2)
        (rep.bad(key, "%s (%s): %s: two entries share a draw, e.g. %s" % (f.name, f.where(), what, w)) if w else rep.unknown(key, "%s: cannot separate draws" % what))
        return None
    return stream, (lambda k: subst(p, {j.id: k})), got, ds, j, cj


def gaussian_label(I, mean, std):
    return "FieldDiscreteGaussianSampler(%s,%s," % (mean, std)


def random_poly(S, prog, f, item):
    rep = S.rep
    I = ring.interp(prog)
    I.intercepts.insert(0, vecs)
    key = f.path
    ln = term.var("length", 0, 1 << 40)
    over, names = {}, {}
    for k in range(1, f.argc + 1):
        if prog.types[f.locals[k]]["name"] == "usize":
            over[k - 1] = ln
        else:
            names[k - 1] = "arg"
    vals, before, res = spec.run(I, f, over=over, names=names)
    if res is None:
        rep.bad(key, "%s never returns" % f.name)
        return
    ret, st = res
    cx = st.ctx
    s = seqof(prune(ret, cx), cx)
    if not isinstance(s, Seq):
        rep.unknown(key, "not a sequence")
        return
    if not length(S, key + ":length", f, "polynomial", s, ln, cx):
        return
    q = const(engine.FIELDQ["F32"])
    labels = {"random": ["FieldUniformSampler"], "random_with_binary": ["binary"], "random_with_ternary": ["ternary"],
              "random_with_gaussian": ["cbd", "FieldDiscreteGaussianSampler"], "random_with_distribution": ["FieldDiscreteGaussianSampler"]}.get(item)
    if labels is None:
        return
    r = one_draw(S, key, f, "polynomial", s, ln, q, labels, cx)
    if r is None:
        return
    stream, p, got, ds, j, cj = r
    if item == "random_with_gaussian":
        flag = ("ob", "sym", "arg.cbd_enable")
        for y, c in samples.alternatives(got, cj):
            ws = [c2 for fl in (flag, neg(flag)) for c2 in [c.add(fl)] if not c2.infeasible()]
            for c2 in ws:
                on = c2.decide(flag)
                d = single_atom(y) if isinstance(y, Poly) else None
                if d is None or y != P(d):
                    rep.unknown(key, "entry j is not a draw: %s" % vshow(y)[:80])
                    return
                if str(d.args[0]).startswith("rnd:cbd") != (on is True):
                    rep.bad(key, "%s (%s): entry j is drawn by %s when the sampler's binomial flag is %s" % (f.name, f.where(), str(d.args[0])[4:80], on))
                    return
        rep.ok(key, "one fresh draw per entry; binomial exactly when the sampler says so")
        return
    S.compare(key, f, "entry j is its own draw by %s" % labels[0], got, of_draw(ds[0], q), cj)


def secret_key(S, prog, f, steps, lk, rk):
    rep = S.rep
    key = "%s:%s,%s,%s" % (f.path, steps, lk, rk)
    n = N if steps == "BrMs" else NL
    qb = term.var("log q, at least 2", 2, 16)
    QV = mk_pow(TWO, qb)
    I = fhe.interp(prog, steps, lk, rk, n=n, qb=qb, tb=term.var("log t", 0, 1))
    I.intercepts.insert(0, vecs)
    vals, before, res = spec.run(I, f)
    if res is None:
        rep.bad(key, "%s (%s) never returns for %s with %s LWE and %s ring keys" % (f.name, f.where(), steps, lk, rk))
        return
    ret, st = res
    cx = st.ctx
    x = prune(ret, cx)
    fs = [nm for nm, _ in prog.types[x.ty]["variants"][0]["fields"]] if isinstance(x, Agg) and isinstance(x.ty, int) else []
    part = dict(zip(fs, x.f)) if isinstance(x, Agg) else {}
    if not {"lwe_secret_key", "ring_secret_key", "ntt_ring_secret_key"} <= set(part):
        rep.unknown(key, "fields of the key pack")
        return
    lwe, rsk, nsk = (seqof(prune(part[nm], cx), cx) for nm in ("lwe_secret_key", "ring_secret_key", "ntt_ring_secret_key"))
    for s, m, nm in ((lwe, n, "LWE secret key"), (rsk, N, "ring secret key"), (nsk, N, "transformed ring secret key")):
        if not length(S, key + ":" + nm, f, nm, s, m, cx):
            return
    r1 = one_draw(S, key + ":lwe", f, "LWE secret key", lwe, n, QV, [lk.lower()], cx)
    if r1 is None:
        return
    stream, p, got, ds, j, cj = r1
    S.compare(key + ":lwe", f, "entry j of the LWE secret key is its own %s draw" % lk.lower(), got, of_draw(ds[0], QV), cj)
    j2 = term.mk_atom("var", ("index j of the ring key",), 0)
    c2 = cx.add(lt(P(j2), N))
    gotr = coef(rsk, P(j2), c2)
    if steps == "BrMs":
        want = of_draw(term.atom_by_id(next(iter(mk_sel(str(ds[0].args[0]), (stream, p(P(j2)))).atoms()))), Q)
        S.compare(key + ":ring", f, "entry j of the ring secret key is entry j of the LWE secret key", gotr, want, c2)
    else:
        labels = [rk.lower()] if rk != "Gaussian" else ["cbd", "FieldDiscreteGaussianSampler"]
        r2 = one_draw(S, key + ":ring", f, "ring secret key", rsk, N, Q, labels, cx)
        if r2 is None:
            return
        s2, p2, got2, ds2, jj, cjj = r2
        if rk != "Gaussian":
            S.compare(key + ":ring", f, "entry j of the ring secret key is its own %s draw" % rk.lower(), got2, of_draw(ds2[0], Q), cjj)
        else:
            other = [d for d in ds2 if not str(d.args[0]).startswith("rnd:cbd") and not re.match(r"rnd:FieldDiscreteGaussianSampler\(const\('0000000000000000'\),sym\('\w*(\.\w+)*\.blind_rotation_params\.noise_standard_deviation'\),", str(d.args[0]))]
            if other:
                w = S.inhabited(cjj)
                if w:
                    rep.bad(key + ":ring", "%s (%s): the ring secret key is drawn by %s, required is the ring noise distribution (mean 0, deviation of the blind rotation parameters), e.g. %s" % (f.name, f.where(), str(other[0].args[0])[4:160], w))
            else:
                rep.ok(key + ":ring", "entry j of the ring secret key is its own draw of the ring noise distribution")
        if term.EMPTY.decide(eq(stream - s2)) is not False:
            a, b = P(j), P(jj)
            c3 = cx.add(lt(a, n), lt(b, N), eq(p(a) - p2(b)))
            if c3.infeasible():
                rep.ok(key + ":independent", "the two keys share no draw")
            else:
                w = S.inhabited(c3)
                (rep.bad(key + ":independent", "%s (%s): the LWE and ring secret keys share draws, e.g. %s" % (f.name, f.where(), w)) if w else rep.unknown(key + ":independent", "cannot separate"))
    # the transformed key
    k = term.mk_atom("var", ("index k of the transform",), 0)
    ck = cx.add(lt(P(k), N))
    gotn = coef(nsk, P(k), ck)
    wantn = lin("ntt", N, lambda i, c: coef(rsk, i, c), cx)(P(k), ck)
    S.compare(key + ":ntt", f, "the transformed ring key is the transform of the ring key", gotn, wantn, ck)
