"""Modulus switching: every component becomes the nearest multiple in the new modulus."""
import re
import engine, spec, term, sem, arith, ring
from common import Report, guard
from spec import *
from ring import coef, compare_poly

FQ = engine.FIELDQ


def want(v, before, after, cx):
    """round(v * after / before), reduced"""
    return lift(lambda xs, c: mk_rem(mk_quo(xs[0] * after * 2 + before, before * 2, c), after, c) if isinstance(xs[0], Poly) else Opq("component"), [v], cx)


def lens(n):
    return lambda name, idxs: n


def lwe(v, ctx):
    return [prune(x, ctx) for x in prune(v, ctx).f]


def run(prog, pid):
    rep = Report(pid)
    S = Spec(prog, rep)
    S.deep = arith.deep
    n = {}
    for f in prog.wsfns:
        with guard(rep, f.name):
            item = f.info["item"]
            if item not in ("lwe_modulus_switch", "lwe_modulus_switch_inplace", "lwe_modulus_switch_assign_between_modulus") or "{closure" in f.name:
                continue
            m = re.search(r"::<u(\d+)(?:, (?:\w+::)*(\w+))?>$", f.name)
            if not m or (m.group(2) and m.group(2) not in FQ):
                continue
            w = int(m.group(1))
            if w > 16:
                continue            # beyond the exact range of the floating-point computation
            N = term.var("n", 1, 1 << 24)
            after = term.var("modulus after u%d" % w, 1, (1 << w) - 1)
            before = const(FQ[m.group(2)]) if m.group(2) else term.var("modulus before u%d" % w, 1, (1 << w) - 1)
            dom = "c below %s" % show(before)
            I = engine.sem_interp(prog)
            I.lenfix = lens(N)
            k = term.mk_atom("var", ("ix%d" % next_ix(),), 0)
            term.set_sel_domain(dom, 0, before - 1)
            vt = [None]
            b0 = P(term.mk_atom("var", ("b below %s" % show(before),), 0, before - 1))

            def wrapf(v, ty):
                t = prog.types[ty]
                return Agg(ty, None, [v]) if t["k"] == "adt" else v

            def over(I, st, f=f):
                o = {}
                t = f.locals[1]
                ref = prog.types[t]["k"] == "ref"
                lt_ = prog.types[t]["to"] if ref else t
                fl = prog.types[lt_]["variants"][0]["fields"]
                ety = fl[1][1]
                vec = prog.types[fl[0][1]]
                v = SLam(N, k, wrapf(mk_sel(dom, (P(k),)), ety), ety)
                c = Agg(lt_, None, [v, wrapf(b0, ety)])
                vt[0] = c
                o[0] = Ref(I.newcell(st, c, "c", lt_)) if ref else c
                if item.endswith("between_modulus"):
                    o[1], o[2] = before, after
                else:
                    o[1] = after
                return o
            vals, mem, res = spec.run(I, f, over=over, names={2: "destination"})
            key = f.path
            if res is None:
                rep.bad(key, "%s (%s) never returns" % (f.name, f.where()))
                continue
            ret, st = res
            out = ret if item == "lwe_modulus_switch" else st.mem[vals[2 if item.endswith("inplace") else 0].cell]
            cx = st.ctx
            ga, gb = lwe(out, cx)
            for fn, what, px, line in I.panics:
                wit = S.inhabited(px)
                if wit and not any(cond_opq(c) for c in px.facts):
                    rep.bad(key + ":panic", "%s (%s): %s panics on admissible input, e.g. %s" % (f.name, f.where(line), what, wit))
            compare_poly(S, key + ":mask", f, "mask component", ga, lambda j, c: want(mk_sel(dom, (j,)), before, after, c), cx, N)
            S.compare(key + ":body", f, "body", gb, want(b0, before, after, cx), cx)
            n[item] = n.get(item, 0) + 1
    for item in ("lwe_modulus_switch", "lwe_modulus_switch_inplace", "lwe_modulus_switch_assign_between_modulus"):
        rep.floor(item, n.get(item, 0), 1)
    return rep.finish(
        "the value number of every component of the result equals floor((2*v*after + before) / (2*before)) mod after",
        explanation="Abstract interpretation of the MIR; dimension, components and both moduli are symbolic. The floating-point computation is followed as an exact quotient of integers (one correctly rounded operation, an/flt.py), within the range in which that is exact.",
        trusted=["rustc (nightly) front end and MIR construction", "the analyses in /verif/an", "IEEE double arithmetic: exact integers to 2^53, correctly rounded quotients", "the models of std functions in /verif/an/models.py"])
