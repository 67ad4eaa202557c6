"""Monomial multiplication and sample extraction: value of every coefficient compared with the negacyclic shift."""
import engine, spec, term
from common import Report, guard
from spec import *

N = term.var("N", 1, 1 << 40, pow2=True)
Q = const(engine.FIELDQ["F32"])


def interp(prog, lens=None):
    I = engine.sem_interp(prog)
    I.lenfix = lens or (lambda name, idxs: N)
    return I


def f0(v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v


def coef(seq, j, ctx):
    return f0(seq.read(j, ctx))


def polys(v):
    """coefficient sequences of an RLWE value"""
    return [f0(x) for x in v.f]


def shift(y, r, case, n, j, ctx):
    """coefficient j of y * X^r mod X^N + 1 as a term (guards are indicators of index order)"""
    if case == "lo":        # r <= N
        k, flip = r, False
    else:                   # N < r <= 2N
        k, flip = r - n, True
    wrap = coef(y, j + n - k, ctx.add(lt(j, k)))
    stay = coef(y, j - k, ctx.add(ge(j - k)))
    s = const(-1) if flip else ONE
    return Ch(lt(j, k), -wrap * s, stay * s)


def lin_of(*terms):
    """sum of choice trees, reduced mod Q"""
    def go(ts, cx):
        t = ZERO
        for x in ts:
            t = t + x
        return mk_rem(t, Q, cx)
    return lambda cx: lift(go, list(terms), cx)


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    n = 0
    CASES = [("r <= N", "lo", lambda r: [ge(N - r)]), ("N < r <= 2N", "hi", lambda r: [ge(r - N - 1), ge(N * 2 - r)])]
    fns = S.find("RLWE", "::mul_monic_monomial_sub_one_inplace")
    fns = [f for f in fns if f.info["item"] == "mul_monic_monomial_sub_one_inplace"]
    rep.floor("mul_monic_monomial_sub_one_inplace", len(fns), 1)
    for f in fns:
        with guard(rep, f.name):
            for cname, cs, facts in CASES:
                n += 1
                I = interp(prog)
                r = var("r", 0, 1 << 41)
                key = "%s:%s" % (f.path, cname)
                vals, before, res = spec.run(I, f, over={1: N, 2: r}, names={0: "self", 3: "destination"}, facts=facts(r))
                if res is None:
                    rep.bad(key, "%s diverges for every exponent with %s" % (f.name, cname))
                    continue
                panics(rep, S, I, key, f)
                _, st = res
                x0 = polys(before[vals[0].cell])
                dst = polys(st.mem[vals[3].cell])
                for comp in (0, 1):
                    cx = st.ctx
                    S.compare_seq(key + ":" + "ab"[comp], f, "component %s = X^r*x - x" % "ab"[comp], dst[comp], N,
                                  lambda j: lin_of(shift(x0[comp], r, cs, N, j, cx.add(lt(j, N))), -coef(x0[comp], j, cx))(cx.add(lt(j, N), ge(j))), cx)
    fns = [f for f in S.find("add_assign_rhs_mul_monic_monomial") if f.info["item"] == "add_assign_rhs_mul_monic_monomial"]
    rep.floor("add_assign_rhs_mul_monic_monomial", len(fns), 1)
    for f in fns:
        with guard(rep, f.name):
            for cname, cs, facts in CASES:
                n += 1
                I = interp(prog)
                r = var("r", 0, 1 << 41)
                key = "%s:%s" % (f.path, cname)
                vals, before, res = spec.run(I, f, over={2: N, 3: r}, names={0: "self", 1: "rhs"}, facts=facts(r))
                if res is None:
                    rep.bad(key, "%s diverges for every exponent with %s" % (f.name, cname))
                    continue
                panics(rep, S, I, key, f)
                _, st = res
                s0 = polys(before[vals[0].cell])
                y0 = polys(before[vals[1].cell])
                dst = polys(st.mem[vals[0].cell])
                for comp in (0, 1):
                    cx = st.ctx
                    S.compare_seq(key + ":" + "ab"[comp], f, "component %s = self + X^r*rhs" % "ab"[comp], dst[comp], N,
                                  lambda j: lin_of(shift(y0[comp], r, cs, N, j, cx.add(lt(j, N))), coef(s0[comp], j, cx))(cx.add(lt(j, N), ge(j))), cx)
    # sample extraction: b' = b_0 and a'.s' = (a*s)_0
    for item, rev, partial in (("extract_lwe", 0, 0), ("extract_lwe_locally", 0, 0), ("extract_lwe_reverse_locally", 1, 0),
                               ("extract_partial_lwe_reverse_locally", 1, 1), ("extract_partial_lwe_locally", 0, 1)):
        fns = [f for f in S.find(item) if f.info["item"] == item]
        rep.floor(item, len(fns), 1)
        for f in fns:
            with guard(rep, f.name):
                n += 1
                I = interp(prog)
                key = f.path
                d = var("dimension", 1, 1 << 40)
                vals, before, res = spec.run(I, f, over={1: d} if partial else None, names={0: "self"}, facts=[le(d, N)] if partial else [])
                if res is None:
                    rep.bad(key, "%s diverges" % f.name)
                    continue
                panics(rep, S, I, key, f)
                ret, st = res
                x = vals[0]
                if isinstance(x, Ref):
                    x = before[x.cell]
                a, b = polys(x)
                ra, rb = prune(ret, st.ctx).f
                cx = st.ctx
                ln = d if partial else N
                if rev:
                    want = lambda j: coef(a, j, cx)
                else:
                    want = lambda j: Ch(eq(j), coef(a, ZERO, cx), lift(lambda v, c: mk_rem(-v[0], Q, c), [coef(a, N - j, cx)], cx))
                S.compare_seq(key + ":a", f, "mask", ra, ln, want, cx)
                S.compare(key + ":b", f, "body = constant coefficient of b", rb, coef(b, ZERO, cx), cx)
    return rep.finish(
        rule="abstract value of every coefficient (at a generic index, every exponent case) equals the negacyclic shift",
        explanation="Abstract interpretation of the MIR with closed-form loop summaries; the dimension, exponent and all coefficients are symbolic, so one comparison covers every input.")


def panics(rep, S, I, key, f):
    """explicit panics reachable within the documented domain"""
    for fn, what, cx, line in I.panics:
        w = S.inhabited(cx)
        if w and not any(cond_opq(c) for c in cx.facts):
            rep.bad(key + ":panic", "%s (%s) panics (%s) on admissible input, e.g. %s" % (f.name, f.where(line), what, w))
