"""Abstract interpreter over MIR facts.

Forward dataflow with joins: every function body is processed once per call context in reverse post
order; states meeting at a block are merged into gated choices; natural loops are replaced by their
summary (recurrence solving over the modified locations, see loops.py)."""
import heapq
from facts import WS
from values import *
import flt
import term


class St:
    __slots__ = ("mem", "ctx")

    def __init__(self, mem, ctx):
        self.mem, self.ctx = mem, ctx

    def copy(self):
        return St(dict(self.mem), self.ctx)

    def assume(self, *cs):
        return St(dict(self.mem), self.ctx.add(*cs))


class Frame:
    __slots__ = ("fn", "id", "depth", "live")

    def __init__(self, fn, id, depth):
        self.fn, self.id, self.depth = fn, id, depth


class Stuck(Exception):
    pass


INTW = {}


def intinfo(ty):
    """(bits, signed) for int types, None otherwise"""
    if ty["k"] == "int":
        return ty["_w"]
    if ty["k"] == "char":
        return (32, False)
    return None


def prep_types(prog):
    for t in prog.types:
        if t["k"] == "int":
            n = t["name"]
            s = n[0] == "i"
            w = n[1:]
            t["_w"] = (64 if w == "size" else int(w), s)
        elif t["k"] == "char":
            t["_w"] = (32, False)
        elif t["k"] in ("ref", "ptr"):
            t["to"] = t["elem"]


def trange(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def kept(p):
    """conditions that are carried through a join"""
    if p[0] in ("ge", "eq", "ne"):
        return True
    if p[0] in ("ob", "nb"):
        return p[1] in ("pow2", "sym")
    return p[0] == "or" and len(p[1]) <= 4 and all(kept(x) for x in p[1])


class Interp:
    def __init__(self, prog, models, intercepts=()):
        self.p = prog
        if not getattr(prog, "_prepped", False):
            prep_types(prog)
            prog._prepped = True
        self.models = models
        self.intercepts = list(intercepts)
        self.opaque = None
        self.cutmul = None
        self.unroll = None
        self.symtype = None
        self.lenfix = None
        self.open_samplers = set()
        self.draws = []
        self.tables = []
        self.nframe = 0
        self.ncell = 0
        self.record = True
        self.panics = []          # (fn, what, ctx, line)
        self.obls = []            # (fn, kind, cond, ctx, line)
        self.unmodelled = {}
        self.notes = []
        self.maxdepth = 60
        self.cellty = {}
        self.fieldq = {}          # adt type name -> modulus value
        self.dom = {}             # name -> (lo, hi)
        self.callstack = []
        self.visited = set()
        self.steps = 0
        self.max_steps = 400000
        self.constcells = {}
        self.frames = {}
        self.smashed = False

    # ------------------------------------------------------------ symbolic inputs
    def newcell(self, st, v, name=None, ty=None):
        self.ncell += 1
        c = ("h", name or "c", self.ncell)
        st.mem[c] = v
        if ty is not None:
            self.cellty[c] = ty
        return c

    def symval(self, ty, name, idxs=(), st=None):
        t = self.p.types[ty] if isinstance(ty, int) else ty
        k = t["k"]
        if self.symtype is not None:
            r = self.symtype(self, t, name, idxs, st)
            if r is not None:
                return r
        if k == "int" or k == "char":
            w, s = t["_w"]
            lo, hi = trange(w, s)
            if name in self.dom:
                lo, hi = self.dom[name]
            if idxs:
                term.set_sel_domain(name, P(lo), P(hi))
                return mk_sel(name, idxs)
            return var(name, P(lo), P(hi))
        if k == "bool":
            return ob("sym", name, *idxs)
        if k == "float":
            return ("fl", "sym", name) + tuple(idxs)
        if k == "tuple":
            return Agg(ty, None, [self.symval(e, "%s.%d" % (name, i), idxs, st) for i, e in enumerate(t["elems"])])
        if k == "array":
            return SBase(name, idxs, const(t["len"]), t["elem"], self.symval)
        if k == "slice":
            return SBase(name, idxs, self.symlen(name, idxs), t["elem"], self.symval)
        if k == "adt":
            q = self.fieldq.get(t["name"])
            if q is not None:
                f = t["variants"][0]["fields"][0]
                if idxs:
                    term.set_sel_domain(name, const(0), const(q - 1))
                    v = mk_sel(name, idxs)
                else:
                    v = var(name, 0, q - 1)
                return Agg(ty, None, [v])
            if t["path"] in ("std::vec::Vec",):
                return SBase(name, idxs, self.symlen(name, idxs), t["args"][0], self.symval)
            if t["path"] == "std::boxed::Box":
                return self.symval(t["args"][0], name, idxs, st)
            if len(t["variants"]) == 1:
                return Agg(ty, None, [self.symval(f[1], "%s.%s" % (name, f[0]), idxs, st) for f in t["variants"][0]["fields"]])
            if all(not v["fields"] for v in t["variants"]):
                out = Agg(ty, len(t["variants"]) - 1, [])
                for i in range(len(t["variants"]) - 2, -1, -1):
                    out = Ch(eq(self._tag(name, idxs, len(t["variants"])), const(i)), Agg(ty, i, []), out)
                return out
            n = len(t["variants"])
            out = None
            for i in range(n - 1, -1, -1):
                a = Agg(ty, i, [self.symval(f[1], "%s#%d.%s" % (name, i, f[0]), idxs, st) for f in t["variants"][i]["fields"]])
                out = a if out is None else Ch(eq(self._tag(name, idxs, n), const(i)), a, out)
            return out
        if k == "ref" and st is not None:
            c = self.newcell(st, self.symval(t["to"], name, idxs, st), name, t["to"])
            return Ref(c)
        return Opq("sym:" + t["name"], ty)

    def _tag(self, name, idxs, n):
        if idxs:
            term.set_sel_domain(name + "#tag", const(0), const(n - 1))
            return mk_sel(name + "#tag", idxs)
        return var(name + "#tag", 0, n - 1)

    def symlen(self, name, idxs):
        if self.lenfix is not None:
            r = self.lenfix(name, idxs)
            if r is not None:
                return r
        if idxs:
            term.set_sel_domain(name + ".len", const(0), const((1 << 62)))
            return mk_sel(name + ".len", idxs)
        return var(name + ".len", 0, (1 << 62))

    # ------------------------------------------------------------ memory
    def getp(self, v, path, ctx):
        for n, p in enumerate(path):
            if isinstance(v, Ch):
                rest = path[n:]
                r = ctx.decide(v.c)
                if r is True:
                    return self.getp(v.a, rest, ctx)
                if r is False:
                    return self.getp(v.b, rest, ctx)
                if p[0] == "v":
                    # a downcast only happens where the variant is the active one
                    a = self.getp(v.a, rest, ctx)
                    b = self.getp(v.b, rest, ctx)
                    if a is None:
                        return b
                    if b is None:
                        return a
                    return choose(v.c, a, b, ctx)
                a = self.getp(v.a, rest, ctx.add(v.c))
                b = self.getp(v.b, rest, ctx.add(neg(v.c)))
                if a is None or b is None:
                    return a if b is None else b
                return choose(v.c, a, b, ctx)
            if isinstance(v, Opq):
                return v
            if v is UNDEF:
                return Opq("undef")
            k = p[0]
            if k == "f":
                if isinstance(v, Agg):
                    if p[1] >= len(v.f):
                        return Opq("no field")
                    v = v.f[p[1]]
                else:
                    return Opq("field of %s" % type(v).__name__)
            elif k == "v":
                if isinstance(v, Agg):
                    if (v.var or 0) != p[1]:
                        return None
                else:
                    return Opq("variant")
            elif k == "i":
                if isinstance(v, Seq):
                    v = rd(v, p[1], ctx)
                else:
                    return Opq("index of %s" % type(v).__name__)
            elif k == "s":
                if isinstance(v, Seq):
                    if p[1] == ZERO and p[2] == v.n:
                        continue
                    v = SView(v, p[1], p[2])
                else:
                    return Opq("slice of %s" % type(v).__name__)
            elif k == "bx":
                pass
            else:
                return Opq("path %s" % k)
        return v

    def setp(self, v, path, new, ctx):
        if not path:
            return new
        if isinstance(v, Ch):
            r = ctx.decide(v.c)
            if r is True:
                return self.setp(v.a, path, new, ctx)
            if r is False:
                return self.setp(v.b, path, new, ctx)
            return choose(v.c, self.setp(v.a, path, new, ctx.add(v.c)), self.setp(v.b, path, new, ctx.add(neg(v.c))), ctx)
        p = path[0]
        k = p[0]
        if isinstance(v, Opq):
            return v
        if k == "f":
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= p[1]:
                    f.append(UNDEF)
                f[p[1]] = self.setp(f[p[1]], path[1:], new, ctx)
                return Agg(v.ty, v.var, f)
            if v is UNDEF:
                f = [UNDEF] * (p[1] + 1)
                f[p[1]] = self.setp(UNDEF, path[1:], new, ctx)
                return Agg(None, None, f)
            return Opq("write field of %s" % type(v).__name__)
        if k == "v":
            if v is UNDEF:
                v = Agg(None, p[1], [])
            return self.setp(v, path[1:], new, ctx)
        if k == "i":
            if isinstance(v, Seq):
                old = rd(v, p[1], ctx) if len(path) > 1 else None
                nv = self.setp(old, path[1:], new, ctx)
                if isinstance(p[1], Ch):
                    return Opq("write at choice index")
                if isinstance(v, SLit) and ctx.simp(p[1]).is_const():
                    j = ctx.simp(p[1]).cval()
                    if 0 <= j < len(v.vals):
                        vals = list(v.vals)
                        vals[j] = nv
                        return SLit(vals, v.ety)
                if isinstance(v, SUpd) and v.idx == p[1]:
                    return SUpd(v.base, p[1], nv, v.n)
                return SUpd(v, p[1], nv)
            return Opq("write index of %s" % type(v).__name__)
        if k == "s":
            if isinstance(v, Seq):
                old = SView(v, p[1], p[2]) if len(path) > 1 else None
                nv = self.setp(old, path[1:], new, ctx)
                if not isinstance(nv, Seq):
                    return Opq("splice")
                if p[1] == ZERO and p[2] == v.n and nv.n == v.n:
                    return nv
                return SSplice(v, p[1], nv)
            return Opq("write slice of %s" % type(v).__name__)
        if k == "bx":
            return self.setp(v, path[1:], new, ctx)
        return Opq("write path")

    def load(self, st, ref):
        if isinstance(ref, Ch):
            r = st.ctx.decide(ref.c)
            if r is True:
                return self.load(st, ref.a)
            if r is False:
                return self.load(st, ref.b)
            return choose(ref.c, self.load(st, ref.a), self.load(st, ref.b), st.ctx)
        if not isinstance(ref, Ref):
            return Opq("load through %r" % (ref,))
        v = st.mem.get(ref.cell, UNDEF)
        r = self.getp(v, ref.path, st.ctx)
        return Opq("dead") if r is None else r

    def store(self, st, ref, val):
        if isinstance(ref, Ch):
            r = st.ctx.decide(ref.c)
            if r is True:
                return self.store(st, ref.a, val)
            if r is False:
                return self.store(st, ref.b, val)
            # conditional write to each
            for c, x in ((ref.c, ref.a), (neg(ref.c), ref.b)):
                old = self.load(st, x)
                self.store(st, x, choose(c, val, old, st.ctx))
            return
        if not isinstance(ref, Ref):
            self.note("store through unknown pointer")
            st.mem[("h", "smash", 0)] = Opq("smash")
            self.smashed = True
            return
        old = st.mem.get(ref.cell, UNDEF)
        st.mem[ref.cell] = self.setp(old, ref.path, val, st.ctx)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # ------------------------------------------------------------ places
    def place_ref(self, fr, st, pl):
        """Ref for a MIR place"""
        cell = ("l", fr.id, pl[0])
        path = ()
        cur = Ref(cell)
        ty = fr.fn.locals[pl[0]]
        for e in pl[1]:
            k = e[0]
            t = self.p.types[ty] if ty is not None else None
            if k == "d":
                v = self.load(st, cur)
                if t is not None and t["k"] == "adt" and t.get("path") == "std::boxed::Box":
                    cur = self.ext(cur, ("bx",))
                    ty = t["args"][0]
                    continue
                cur = v
                ty = t.get("to") if t else None
                if isinstance(cur, Opq) or cur is UNDEF:
                    return Opq("deref of unknown"), ty
                continue
            if k == "f":
                if t is not None and t["k"] == "adt" and t.get("path") == "std::boxed::Box":
                    # pointer inside a box: a reference to the content
                    c = cur
                    tmp = self.tmpcell(st, c)
                    cur = Ref(tmp)
                    ty = None
                    continue
                if t is None:
                    # inside a box pointer: stays the same reference
                    v = self.load(st, cur)
                    if isinstance(v, Ref):
                        continue
                cur = self.ext(cur, ("f", e[1]))
                ty = self.field_ty(t, e[1], getattr(self, "_var", 0)) if t else None
                if len(e) > 2 and e[2] is not None:
                    ty = e[2]
                continue
            if k == "v":
                cur = self.ext(cur, ("v", e[1]))
                self._var = e[1]
                ty = ("variant", ty, e[1]) if not isinstance(ty, tuple) else ty
                ty = ty[1]
                self._var = e[1]
                continue
            if k == "i":
                idx = self.load(st, Ref(("l", fr.id, e[1])))
                idx = prune(idx, st.ctx)
                cur = self.ext(cur, ("i", idx))
                ty = t.get("elem") if t else None
                continue
            if k == "ci":
                # constant index: offset, min length, from_end
                off, frm = e[1], e[-1]
                if frm is True or frm == 1:
                    n = self.load(st, cur)
                    if not isinstance(n, Seq):
                        return Opq("cidx"), None
                    idx = n.n - off
                else:
                    idx = const(off)
                cur = self.ext(cur, ("i", idx))
                ty = t.get("elem") if t else None
                continue
            if k == "ss":
                f_, to_, fe = e[1], e[2], e[3]
                v = self.load(st, cur)
                if not isinstance(v, Seq):
                    return Opq("subslice"), None
                n = (v.n - to_ - f_) if fe else const(to_ - f_)
                cur = self.ext(cur, ("s", const(f_), n))
                continue
            if k == "oc":
                continue
            return Opq("proj %s" % k), None
        return cur, ty

    def tmpcell(self, st, v):
        self.ncell += 1
        c = ("t", self.ncell)
        st.mem[c] = v
        return c

    def field_ty(self, t, i, var=0):
        if t["k"] == "tuple":
            return t["elems"][i] if i < len(t["elems"]) else None
        if t["k"] == "closure":
            return t["elems"][i] if i < len(t.get("elems", [])) else None
        if t["k"] == "adt":
            vs = t["variants"]
            v = vs[var] if var < len(vs) else vs[0]
            if len(vs) == 1:
                v = vs[0]
            return v["fields"][i][1] if i < len(v["fields"]) else None
        return None

    def ext(self, ref, p):
        if isinstance(ref, Ch):
            return Ch(ref.c, self.ext(ref.a, p), self.ext(ref.b, p))
        if not isinstance(ref, Ref):
            return Opq("ext")
        path = ref.path
        if path and path[-1][0] == "s":
            off = path[-1][1]
            if p[0] == "i" and not isinstance(p[1], Ch):
                return Ref(ref.cell, path[:-1] + (("i", p[1] + off),))
            if p[0] == "s":
                return Ref(ref.cell, path[:-1] + (("s", off + p[1], p[2]),))
        return Ref(ref.cell, path + (p,))

    # ------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        if o[0] in ("c", "m"):
            r, ty = self.place_ref(fr, st, o[1])
            v = self.load(st, r)
            return prune(v, st.ctx) if isinstance(v, Ch) else v
        if o[0] == "k":
            return self.constant(st, o[1])
        if o[0] == "rc":
            # runtime check flags (ub_checks, overflow checks): on/off
            return F if "UbChecks" in str(o[1]) else T
        return Opq("operand")

    def constant(self, st, c):
        t = self.p.types[c["ty"]]
        if t["k"] == "fndef":
            return FnV(t.get("inst"))
        if t["k"] == "closure":
            return Agg(c["ty"], None, [])
        if "a" in c:
            a = c["a"]
            return self.decode(st, c["ty"], bytes.fromhex(a["b"].replace("_", "0")), 0, dict((o, i) for o, i in a["p"]), raw=a["b"])
        if t["k"] == "tuple" and not t["elems"]:
            return Agg(c["ty"], None, [])
        if t["k"] == "adt" and t.get("size") == 0:
            return self.zst(c["ty"])
        return Opq("const " + t["name"], c["ty"])

    def zst(self, ty):
        t = self.p.types[ty]
        if t["k"] == "adt" and len(t["variants"]) == 1:
            return Agg(ty, None, [self.zst(f[1]) for f in t["variants"][0]["fields"]])
        if t["k"] == "fndef":
            return FnV(t.get("inst"))
        return Agg(ty, None, [])

    def decode(self, st, ty, b, off, ptrs, raw=None):
        t = self.p.types[ty]
        k = t["k"]
        sz = t.get("size")
        if k == "int" or k == "char":
            if off in ptrs:
                return Opq("ptr as int")
            w, s = t["_w"]
            return const(int.from_bytes(b[off:off + w // 8], "little", signed=s))
        if k == "bool":
            return T if b[off] else F
        if k == "float":
            return ("fl", "const", b[off:off + sz].hex())
        if k == "tuple":
            offs = t.get("offs") or []
            return Agg(ty, None, [self.decode(st, e, b, off + (offs[i] if i < len(offs) else 0), ptrs) for i, e in enumerate(t["elems"])])
        if k == "array":
            es = self.p.types[t["elem"]].get("size") or 0
            n = t["len"]
            if n > 4096:
                return Opq("big const array")
            return SLit([self.decode(st, t["elem"], b, off + i * es, ptrs) for i in range(n)], t["elem"])
        if k == "adt":
            if len(t["variants"]) == 1:
                offs = t.get("offs") or []
                fs = t["variants"][0]["fields"]
                return Agg(ty, None, [self.decode(st, f[1], b, off + (offs[i] if i < len(offs) else 0), ptrs) for i, f in enumerate(fs)])
            if all(not v["fields"] for v in t["variants"]) and sz:
                d = int.from_bytes(b[off:off + sz], "little")
                for i, v in enumerate(t["variants"]):
                    if int(v["discr"]) % (1 << (8 * sz)) == d:
                        return Agg(ty, i, [])
            return Opq("const enum " + t["name"], ty)
        if k in ("ref", "ptr"):
            if off in ptrs:
                aid = ptrs[off]
                key = (aid, ty)
                if key in self.constcells:
                    c, ref, v = self.constcells[key]
                    st.mem.setdefault(c, v)
                    return ref
                A = self.p.allocs.get(str(aid))
                to = t.get("to")
                if A and "mem" in A and to is not None:
                    tt = self.p.types[to]
                    bb = bytes.fromhex(A["mem"]["b"].replace("_", "0"))
                    pp = dict((o, i) for o, i in A["mem"]["p"])
                    ref_s = None
                    if tt["k"] == "slice":
                        n = int.from_bytes(b[off + 8:off + 16], "little")
                        es = self.p.types[tt["elem"]].get("size") or 0
                        v = SLit([self.decode(st, tt["elem"], bb, i * es, pp) for i in range(n)], tt["elem"]) if n <= 4096 else Opq("big")
                    elif tt["k"] == "str":
                        v = Opq("str")
                    else:
                        v = self.decode(st, to, bb, 0, pp)
                    c = ("k", aid, ty)
                    st.mem[c] = v
                    self.constcells[key] = (c, Ref(c), v)
                    return Ref(c)
                if A and "static" in A:
                    return Ref(("static", A["static"]))
            return Opq("const ptr")
        if k == "fndef":
            return FnV(t.get("inst"))
        if k == "closure":
            return Agg(ty, None, [])
        return Opq("const " + t["name"])

    # ------------------------------------------------------------ integer operations
    def wrap(self, p, w, s, ctx):
        if not s:
            return mk_rem(p, const(1 << w), ctx)
        lo, hi = trange(w, s)
        b = p.bounds()
        if b[0] is not None and b[0] >= lo and b[1] is not None and b[1] <= hi:
            return p
        if ctx.ge0(p - lo) and ctx.ge0(hi - p):
            return p
        return mk_rem(p + (1 << (w - 1)), const(1 << w), ctx) - (1 << (w - 1))

    def binop(self, op, a, b, ty, ctx):
        t = self.p.types[ty] if ty is not None else None
        if isinstance(a, Opq) or isinstance(b, Opq):
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return ob("opq", next_ix())
            return a if isinstance(a, Opq) else b
        return lift(lambda xs, cx: self.binop1(op, xs[0], xs[1], t, cx), [a, b], ctx)

    def binop1(self, op, a, b, t, ctx):
        if is_bool(a) and is_bool(b):
            if op == "BitAnd":
                return conj([a, b])
            if op == "BitOr":
                return disj([a, b])
            if op in ("BitXor", "Ne"):
                return disj([conj([a, neg(b)]), conj([neg(a), b])])
            if op == "Eq":
                return disj([conj([a, b]), conj([neg(a), neg(b)])])
            a, b = self.b2i(a), self.b2i(b)
        if is_float(a) or is_float(b):
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                if op == "Gt":
                    return ob("flLt", b, a)
                if op == "Ge":
                    return ob("flLe", b, a)
                if op == "Ne":
                    return neg(ob("flEq", a, b))
                return ob("fl" + op, a, b)
            return ("fl", op, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if op == "Eq":
                return T if a == b else ob("opq", next_ix())
            return Opq("ptr op")
        if isinstance(a, Agg) and isinstance(b, Agg) and not a.f and not b.f:
            a, b = const(a.var or 0), const(b.var or 0)
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return ob("opq", next_ix())
            return Opq("binop %s %s %s" % (op, type(a).__name__, type(b).__name__))
        if op == "Eq":
            return self.fold(eq(a, b), ctx)
        if op == "Ne":
            return self.fold(ne(a, b), ctx)
        if op == "Lt":
            return self.fold(lt(a, b), ctx)
        if op == "Le":
            return self.fold(le(a, b), ctx)
        if op == "Gt":
            return self.fold(lt(b, a), ctx)
        if op == "Ge":
            return self.fold(le(b, a), ctx)
        w, s = t["_w"] if t is not None and "_w" in t else (64, False)
        if op.startswith("Add"):
            r = a + b
        elif op.startswith("Sub"):
            r = a - b
        elif op.startswith("Mul"):
            if self.cutmul:
                a, b = self.cutmul(a, ctx), self.cutmul(b, ctx)
            r = a * b
        elif op in ("Div", "Rem"):
            if s and not (ctx.ge0(a) and ctx.ge0(b)):
                return Opq("signed division")
            if ctx.decide(eq(b)) is True:
                return Opq("div0")
            return mk_quo(a, b, ctx) if op == "Div" else mk_rem(a, b, ctx)
        elif op in ("Shl", "ShlUnchecked"):
            if b.is_const():
                r = a * (1 << b.cval())
            else:
                r = a * self.pow2(b, w)
        elif op in ("Shr", "ShrUnchecked"):
            if b.is_const():
                return mk_quo(a, const(1 << b.cval()), ctx)
            return mk_quo(a, self.pow2(b, w), ctx)
        elif op == "BitAnd":
            return self.bitand(a, b, w, s, ctx)
        elif op == "BitOr":
            return self.bitor(a, b, w, ctx)
        elif op == "BitXor":
            if a == b:
                return ZERO
            if a.is_const() and a.cval() == 0:
                return b
            if b.is_const() and b.cval() == 0:
                return a
            for x, y in ((a, b), (b, a)):
                if y.is_const() and y.cval() == (1 << w) - 1 and not s:
                    return (1 << w) - 1 - x
            if a.is_const() and b.is_const():
                return const(a.cval() ^ b.cval())
            x, y = sorted((a, b), key=repr)
            return mk_fn("xor", (x, y), *((0, (1 << w) - 1) if not s else (None, None)))
        else:
            return Opq("op " + op)
        return self.wrap(r, w, s, ctx)

    def fold(self, c, ctx):
        r = ctx.decide(c)
        return T if r is True else F if r is False else c

    def pow2(self, e, w):
        a = mk_pow(const(2), e)
        return a

    def is_pow2(self, p):
        if p.is_const():
            v = p.cval()
            return isinstance(v, int) and v > 0 and v & (v - 1) == 0
        if len(p.d) == 1:
            (m, c), = p.d.items()
            return isinstance(c, int) and c > 0 and c & (c - 1) == 0 and all(term.atom_by_id(x).pow2 for x in m)
        return False

    def bitand(self, a, b, w, s, ctx):
        if a == b:
            return a
        if a.is_const() and b.is_const():
            return const(a.cval() & b.cval())
        for x, y in ((a, b), (b, a)):
            if y.is_const() and y.cval() == 0:
                return ZERO
            y1 = ctx.simp(y + 1)
            if self.is_pow2(y1) and (ctx.ge0(x) or y1.is_const()):
                return mk_rem(x, y1, ctx)
            if self.is_pow2(y + 1) and ctx.ge0(x):
                return mk_rem(x, y + 1, ctx)
        for x, y in ((a, b), (b, a)):
            if s:
                break
            z = (1 << w) - y
            if self.is_pow2(z):
                return x - mk_rem(x, z, ctx)
        x, y = sorted((a, b), key=repr)
        return mk_fn("and", (x, y), 0 if not s else None, x.bounds()[1] if not s and x.bounds()[1] is not None else None)

    def bitor(self, a, b, w, ctx):
        if a == b:
            return a
        if a.is_const() and b.is_const():
            return const(a.cval() | b.cval())
        for x, y in ((a, b), (b, a)):
            if y.is_const() and y.cval() == 0:
                return x
            # x multiple of 2^k, y < 2^k
            k = None
            if x.integral() and x.d:
                k = min(((c & -c).bit_length() - 1) for c in x.d.values())
            if k and ctx.ge0(y) and ctx.ge0((1 << k) - 1 - y):
                return x + y
        x, y = sorted((a, b), key=repr)
        return mk_fn("or", (x, y), 0, (1 << w) - 1)

    def overflow(self, op, a, b, ty, ctx):
        t = self.p.types[ty]
        w, s = t["_w"]
        lo, hi = trange(w, s)

        def f(xs, cx):
            x, y = xs
            if not (isinstance(x, Poly) and isinstance(y, Poly)):
                return ob("opq", next_ix())
            if op.startswith("Add"):
                r = x + y
            elif op.startswith("Sub"):
                r = x - y
            elif op.startswith("Mul"):
                if self.cutmul:
                    x, y = self.cutmul(x, cx), self.cutmul(y, cx)
                r = x * y
            else:
                return ob("opq", next_ix())
            c = disj([lt(r, const(lo)), lt(const(hi), r)])
            return self.fold(c, cx)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return ob("opq", next_ix())
        v = lift(f, [a, b], ctx)
        return self.b(v)

    def b(self, v):
        """boolean value -> condition"""
        if is_bool(v):
            return v
        if isinstance(v, Ch):
            return disj([conj([v.c, self.b(v.a)]), conj([neg(v.c), self.b(v.b)])])
        if isinstance(v, Poly):
            return ne(v)
        return ob("opq", next_ix())

    def b2i(self, c):
        """condition -> 0/1 integer"""
        if c == T:
            return ONE
        if c == F:
            return ZERO
        if is_bool(c) and c[0] == "ge":
            p = c[1]
            if len(p.d) > 1:
                for k in (64, 32, 16, 8):
                    if mk_rem(p, const(1 << k)) == ZERO:
                        p = p.scale(term.Fraction(1, 1 << k))
                        break
            lo, hi = p.bounds()
            if lo is not None and hi is not None:
                lo, hi = -(-lo // 1), hi // 1        # integer valued
                for k in (8, 16, 32, 64, 128):
                    K = 1 << k
                    if -K <= lo and hi < K:
                        return (p - mk_rem(p, const(K))).scale(term.Fraction(1, K)) + 1
        return Ch(c, ONE, ZERO)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv, dty):
        k = rv[0]
        ctx = st.ctx
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k in ("ref", "addr", "reborrow"):
            r, _ = self.place_ref(fr, st, rv[2])
            return r
        if k == "bin":
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            ty = self.op_ty(fr, rv[2])
            if rv[1] in ("Offset",):
                return Opq("offset")
            return self.binop(rv[1], a, b, ty, ctx)
        if k == "cbin":
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            ty = self.op_ty(fr, rv[2])
            ov = self.overflow(rv[1], a, b, ty, ctx)

            def f(xs, cx):
                x, y = xs
                if not (isinstance(x, Poly) and isinstance(y, Poly)):
                    return Opq("cbin")
                if self.cutmul and rv[1] == "Mul":
                    x, y = self.cutmul(x, cx), self.cutmul(y, cx)
                return x + y if rv[1] == "Add" else x - y if rv[1] == "Sub" else x * y
            v = lift(f, [a, b], ctx)
            return Agg(dty, None, [v, ov])
        if k == "un":
            a = self.operand(fr, st, rv[2])
            if rv[1] == "Not":
                if is_bool(a):
                    return neg(a)
                ty = self.p.types[self.op_ty(fr, rv[2])]
                if ty["k"] == "bool":
                    return neg(self.b(a))
                w, s = ty["_w"]
                return lift(lambda xs, cx: ((-xs[0] - 1) if s else ((1 << w) - 1 - xs[0])) if isinstance(xs[0], Poly) else Opq("not"), [a], ctx)
            if rv[1] == "Neg":
                ty = self.p.types[self.op_ty(fr, rv[2])]
                if is_float(a):
                    return ("fl", "neg", a)
                w, s = ty.get("_w", (64, True))
                return lift(lambda xs, cx: self.wrap(-xs[0], w, s, cx) if isinstance(xs[0], Poly) else (("fl", "neg", xs[0]) if is_float(xs[0]) else Opq("neg")), [a], ctx)
            if rv[1] == "PtrMetadata":
                v = self.load(st, a)
                return v.n if isinstance(v, Seq) else self.seqlen(v)
            return Opq("un " + rv[1])
        if k == "cast":
            return self.cast(fr, st, rv[1], self.operand(fr, st, rv[2]), self.op_ty(fr, rv[2]), rv[3])
        if k == "discr":
            r, ty = self.place_ref(fr, st, rv[1])
            v = self.load(st, r)
            return self.discr(v, ty)
        if k == "len":
            r, ty = self.place_ref(fr, st, rv[1])
            return self.seqlen(self.load(st, r))
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in rv[2]]
            if rv[1] == "array":
                t = self.p.types[dty]
                return SLit(ops, t.get("elem"))
            if rv[1] == "adt":
                t = self.p.types[rv[3]] if isinstance(rv[3], int) else None
                enum = t is not None and len(t["variants"]) > 1
                return Agg(rv[3], rv[4] if enum else None, ops)
            if rv[1] == "closure":
                return Agg(dty, None, ops)
            return Agg(dty, None, ops)
        if k == "rep":
            v = self.operand(fr, st, rv[1])
            t = self.p.types[dty]
            return SConst(const(t["len"]), v, t.get("elem"))
        return Opq("rvalue " + k)

    def seqlen(self, v):
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, Ch):
            a, b = self.seqlen(v.a), self.seqlen(v.b)
            if isinstance(a, Opq) or isinstance(b, Opq):
                return Opq("len")
            return a if a == b else Ch(v.c, a, b)
        return Opq("len of %s" % type(v).__name__)

    def discr(self, v, ty):
        t = self.p.types[ty] if isinstance(ty, int) else None
        if isinstance(v, Ch):
            a, b = self.discr(v.a, ty), self.discr(v.b, ty)
            return choose(v.c, a, b)
        if isinstance(v, Agg):
            i = v.var or 0
            tt = self.p.types[v.ty] if isinstance(v.ty, int) else t
            if tt is not None and tt["k"] == "adt" and i < len(tt["variants"]):
                d = tt["variants"][i].get("discr")
                return const(int(d)) if d is not None else const(i)
            return const(i)
        return Opq("discr")

    def op_ty(self, fr, o):
        if o[0] in ("c", "m"):
            return self.place_ty(fr, o[1])
        if o[0] == "k":
            return o[1]["ty"]
        return None

    def place_ty(self, fr, pl):
        ty = fr.fn.locals[pl[0]]
        var = 0
        for e in pl[1]:
            if ty is None:
                return None
            t = self.p.types[ty]
            k = e[0]
            if k == "d":
                ty = t["args"][0] if t["k"] == "adt" else t.get("to")
            elif k == "f":
                if len(e) > 2 and e[2] is not None:
                    ty = e[2]
                else:
                    ty = self.field_ty(t, e[1], var)
                var = 0
            elif k == "v":
                var = e[1]
            elif k in ("i", "ci"):
                ty = t.get("elem")
        return ty

    def cast(self, fr, st, kind, v, sty, dty):
        t = self.p.types[dty]
        s0 = self.p.types[sty] if sty is not None else None
        ctx = st.ctx
        if kind == "IntToInt":
            w, s = t["_w"]

            def f(xs, cx):
                x = xs[0]
                if is_bool(x):
                    return self.b2i(x)
                if isinstance(x, Agg):
                    x = self.discr(x, sty)
                if isinstance(x, Poly):
                    if s0 is not None and not s and s0.get("_w") and s0["_w"][1] and not cx.ge0(x):
                        return mk_rem(x, const(1 << w), cx)
                    return self.wrap(x, w, s, cx)
                return Opq("cast")
            return lift(f, [v], ctx)
        if kind == "IntToFloat":
            return lift(lambda xs, cx: ("fl", "i2f", xs[0]) if isinstance(xs[0], Poly) else Opq("i2f"), [v], ctx)
        if kind == "FloatToInt":
            w, s = t["_w"]
            lo, hi = trange(w, s)

            def f(xs, cx):
                x = xs[0]
                if not is_float(x):
                    return Opq("f2i")
                r = flt.to_int(x, lo, hi, cx)
                return r if r is not None else mk_fn("f2i", (t["name"], x), lo, hi)
            return lift(f, [v], ctx)
        if kind == "FloatToFloat":
            return v
        if "Transmute" in kind or "Subtype" in kind:
            if isinstance(v, Agg) and s0 is not None and t["k"] == "int" and s0["k"] == "adt" and len(v.f) == 1:
                return v.f[0]
            if t["k"] == "adt" and isinstance(v, Poly) and len(t["variants"]) == 1 and len(t["variants"][0]["fields"]) == 1:
                return Agg(dty, None, [v])
            if isinstance(v, Ref):
                return v
            if s0 is not None and t["k"] == s0["k"]:
                return v
            return Opq("transmute")
        return v      # pointer casts, unsizing

    # ------------------------------------------------------------ control
    def statements(self, fr, st, b):
        for s in fr.fn.blocks[b]["s"]:
            if s[0] == "=":
                pl = s[1]
                dty = self.place_ty(fr, pl)
                v = self.rvalue(fr, st, s[2], dty)
                if not pl[1]:
                    st.mem[("l", fr.id, pl[0])] = v
                else:
                    r, _ = self.place_ref(fr, st, pl)
                    self.store(st, r, v)
            elif s[0] == "sd":
                r, ty = self.place_ref(fr, st, s[1])
                v = self.load(st, r)
                if isinstance(v, Agg):
                    self.store(st, r, Agg(v.ty if v.ty is not None else ty, s[2], v.f))
                elif v is UNDEF or isinstance(v, Opq):
                    self.store(st, r, Agg(ty, s[2], []))

    def oblig(self, fr, kind, cond, ctx, line):
        if self.record:
            self.obls.append((fr.fn.key if fr else None, kind, cond, ctx, line))

    def panic(self, fr, what, ctx, line):
        if self.record and not ctx.infeasible():
            self.panics.append((fr.fn.key if fr else None, what, ctx, line))

    def asm(self, fr, st, t):
        """x86 integer arithmetic in inline assembly: registers are the operands, the carry flag is tracked"""
        import re
        if len(t) < 4 or t[3] is None:
            return [], []
        ctx = st.ctx
        regs = [self.operand(fr, st, o[0]) if o[0] is not None else Opq("asm register") for o in t[2]]
        # the template is a debug print of string pieces and placeholders
        text = ""
        for m in re.finditer(r'String\("((?:[^"\\]|\\.)*)"\)|Placeholder\s*\{\s*operand_idx:\s*(\d+),\s*modifier:\s*(None|Some\(\s*\'(\w)\',?\s*\))', t[1]):
            if m.group(2) is None:
                text += m.group(1).replace("\\n", "\n").replace("\\t", " ")
            else:
                text += "{%s:%s}" % (m.group(2), m.group(4) or "")
        carry = Opq("carry")
        ok = bool(text)
        for line in re.split(r"[\n;]", text):
            line = re.sub(r"//.*|#.*", "", line).strip()
            if not line:
                continue
            m = re.match(r"(\w+)\s+\{(\d+):(e?)\}\s*,\s*(?:\{(\d+):(e?)\}|(-?\d+|0x[0-9a-fA-F]+))$", line)
            if not m or m.group(1) not in ("add", "adc", "sub", "sbb", "mov", "xor"):
                ok = False
                break
            op, d, e1, s_, e2, imm = m.groups()
            w = 32 if e1 else 64
            if (e2 == "e") != (w == 32) and imm is None:
                ok = False
                break
            d = int(d)
            x = regs[d]
            y = const(int(imm, 0)) if imm is not None else regs[int(s_)]
            same_reg = imm is None and int(s_) == d

            def low(v):
                return lift(lambda xs, c: mk_rem(xs[0], const(1 << w), c) if isinstance(xs[0], Poly) else Opq("asm"), [v], ctx)
            x, y = low(x), low(y)
            if op == "mov":
                regs[d] = y
                continue
            if op == "xor":
                if not same_reg:
                    ok = False
                    break
                regs[d], carry = ZERO, ZERO
                continue
            cin = carry if op in ("adc", "sbb") else ZERO
            sg = 1 if op in ("add", "adc") else -1

            def tot(xs, c):
                if not all(isinstance(v, Poly) for v in xs):
                    return Opq("asm")
                if same_reg and sg < 0:
                    return -xs[2]
                return xs[0] + (xs[1] + xs[2]).scale(sg)
            r = lift(tot, [x, y, cin], ctx)
            carry = lift(lambda xs, c: mk_quo(xs[0], const(1 << w), c).scale(sg) if isinstance(xs[0], Poly) else Opq("asm"), [r], ctx)
            regs[d] = low(r)
        for (i, o), v in zip(t[2], regs):
            if o is not None:
                self.store(st, self.place_ref(fr, st, o)[0], v if ok else Opq("asm"))
        return [(t[3], st)], []

    def step_block(self, fr, st, b):
        """executes block b; returns [(target, st)], list of return states"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Stuck("too many steps")
        self.statements(fr, st, b)
        t = fr.fn.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)], []
        if k == "ret":
            return [], [st]
        if k in ("resume", "unreach", "abort"):
            return [], []
        if k == "drop":
            return [(t[2], st)], []
        if k == "asm":
            return self.asm(fr, st, t)
        if k == "assert":
            v = self.b(self.operand(fr, st, t[1]))
            c = v if t[2] else neg(v)
            kind = t[3][0] if isinstance(t[3], (list, tuple)) else t[3]
            r = st.ctx.decide(c)
            self.oblig(fr, kind, c, st.ctx, t[6] if len(t) > 6 else None)
            if r is False:
                self.panic(fr, kind, st.ctx, t[6] if len(t) > 6 else None)
                return [], []
            if r is None:
                self.panic(fr, kind, st.ctx.add(neg(c)), t[6] if len(t) > 6 else None)
                st.ctx = st.ctx.add(c)
            return [(t[4], st)], []
        if k == "sw":
            v = self.operand(fr, st, t[1])
            out = []
            rest = []
            targets = {}
            for val, tgt in t[2]:
                val = int(val)
                c = self.switch_cond(v, val, self.op_ty(fr, t[1]))
                targets.setdefault(tgt, []).append(c)
                rest.append(neg(c))
            order = list(targets)
            oth = conj(rest)
            if t[3] is not None:
                if t[3] in targets:
                    targets[t[3]].append(oth)
                else:
                    targets[t[3]] = [oth]
                    order.append(t[3])
            for tgt in order:
                c = disj(targets[tgt])
                r = st.ctx.decide(c)
                if r is False:
                    continue
                s2 = st.copy()
                if r is None:
                    s2.ctx = st.ctx.add(c)
                    if s2.ctx.infeasible():
                        continue
                out.append((tgt, s2))
                if r is True:
                    break
            return out, []
        if k == "call":
            return self.do_call(fr, st, t), []
        return [], []

    def switch_cond(self, v, val, ty):
        if is_bool(v):
            return v if val else neg(v)
        if isinstance(v, Poly):
            return eq(v, const(val))
        if isinstance(v, Ch):
            return disj([conj([v.c, self.switch_cond(v.a, val, ty)]), conj([neg(v.c), self.switch_cond(v.b, val, ty)])])
        return ob("opq", next_ix())

    def do_call(self, fr, st, t):
        callee, args, dest, target, line = t[1], t[2], t[3], t[4], t[6]
        vals = [self.operand(fr, st, a) for a in args]
        inst = callee.get("inst")
        if inst is None:
            if "ptr" in callee:
                fv = self.operand(fr, st, callee["ptr"])
                inst = fv.inst if isinstance(fv, FnV) else None
        fn = self.p.fns.get(inst) if inst else None
        if fn is not None and fn.name.endswith("}") and "{closure" in fn.name and len(vals) == 2 and isinstance(vals[1], Agg):
            vals = [vals[0]] + list(vals[1].f)
        r = self.call(fr, st, inst, callee, vals, dest, line)
        out = []
        if r is None:
            return []
        rv, st2 = r
        if target is None:
            return []
        if dest is not None:
            if not dest[1]:
                st2.mem[("l", fr.id, dest[0])] = rv
            else:
                ref, _ = self.place_ref(fr, st2, dest)
                self.store(st2, ref, rv)
        return [(target, st2)]

    def call(self, fr, st, inst, callee, vals, dest=None, line=None):
        """returns (value, state) or None when the call never returns"""
        info = self.p.insts.get(inst) if inst else None
        path = info["path"] if info else callee.get("path", "?")
        for h in self.intercepts:
            r = h(self, fr, st, inst, info, path, vals)
            if r is not NotImplemented:
                return r
        m = self.models.lookup(info, path)
        if m is not None:
            c, eager = self.split_on(st, vals)
            if c is not None and eager:
                return self.split_call(c, fr, st, inst, callee, vals, dest, line)
            s0 = st.copy() if c is not None else None
            r = m(self, fr, st, info, vals, line)
            if r is not NotImplemented:
                if s0 is not None and r is not None and isinstance(r[0], Opq):
                    return self.split_call(c, fr, s0, inst, callee, vals, dest, line)
                return r
        fn = self.p.fns.get(inst) if inst else None
        if fn is not None and len(self.callstack) < self.maxdepth and self.callstack.count(inst) < 2 and \
                (fn.crate in WS or self.models.inline_std(info, fn)):
            return self.exec_fn(fn, vals, st)
        return self.opaque_call(fr, st, info, path, vals, dest)

    def split_on(self, st, vals):
        """condition of a choice between structures among the arguments of a modelled call, and whether the
        alternatives must be followed separately (iterators) or only when the model cannot cope"""
        found = None
        for v in vals:
            v = prune(v, st.ctx)
            if isinstance(v, Ref) and v.cell in st.mem and not v.path:
                v = prune(st.mem[v.cell], st.ctx)
            if not isinstance(v, Ch) or cond_opq(v.c):
                continue
            lv, todo = [], [v]
            while todo and len(lv) < 8:
                x = todo.pop()
                if isinstance(x, Ch):
                    todo += [x.a, x.b]
                else:
                    lv.append(x)
            if any(isinstance(x, It) for x in lv):
                return v.c, True
            if any(isinstance(x, (Seq, Ref, Agg)) for x in lv):
                found = v.c
        return found, False

    def split_call(self, c, fr, st, inst, callee, vals, dest, line):
        """follow a call separately under a condition and its negation, and join"""
        outs = []
        for cc in (c, neg(c)):
            s = st.copy()
            s.ctx = s.ctx.add(cc)
            if s.ctx.infeasible():
                continue
            r = self.call(fr, s, inst, callee, [prune(v, s.ctx) for v in vals], dest, line)
            if r is not None:
                outs.append(r)
        if not outs:
            return None
        if len(outs) == 1:
            return outs[0]
        (v1, s1), (v2, s2) = outs
        m = self.merge2(s1, s2)
        return choose(c, v1, v2, m.ctx), m

    def opaque_call(self, fr, st, info, path, vals, dest=None):
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        for v in vals:
            self.smash(st, v, path)
        return Opq("call " + path), st

    def smash(self, st, v, why, depth=0):
        """an unknown callee may write through every mutable reference it gets"""
        if isinstance(v, Ref):
            if v.cell[0] not in ("k",):
                old = self.load(st, v)
                self.store(st, v, Opq("written by " + why))
        elif isinstance(v, Agg) and depth < 3:
            for x in v.f:
                self.smash(st, x, why, depth + 1)

    def exec_fn(self, fn, vals, st):
        self.nframe += 1
        fr = Frame(fn, self.nframe, len(self.callstack))
        self.frames[fr.id] = fn
        self.visited.add(fn.key)
        self.callstack.append(fn.key)
        try:
            vals = list(vals)
            vals = vals[:fn.argc]
            for i, v in enumerate(vals):
                st.mem[("l", fr.id, i + 1)] = v
            exits, rets, nexts = self.run_region(fr, 0, st, None, None)
            if not rets:
                return None
            out = self.merge(rets)
            v = out.mem.get(("l", fr.id, 0), UNDEF)
            if v is UNDEF:
                v = Agg(fn.locals[0], None, [])
            if not self.refs_frame(v, fr.id):
                for c in [c for c in out.mem if c[0] == "l" and c[1] == fr.id]:
                    del out.mem[c]
            return v, out
        finally:
            self.callstack.pop()

    def refs_frame(self, v, fid):
        if isinstance(v, Ref):
            return v.cell[0] == "l" and v.cell[1] == fid
        if isinstance(v, Agg):
            return any(self.refs_frame(x, fid) for x in v.f)
        if isinstance(v, Ch):
            return self.refs_frame(v.a, fid) or self.refs_frame(v.b, fid)
        if isinstance(v, It):
            return True
        return False

    def rpo_index(self, fn):
        if fn.key not in self._rpoc:
            self._rpoc[fn.key] = {b: i for i, b in enumerate(fn.rpo())}
        return self._rpoc[fn.key]

    _rpoc = {}

    def run_region(self, fr, entry, st, region, header):
        """run blocks starting at `entry`; region None = whole function.  Returns exits [(target, st)],
        return states, states arriving back at `header`."""
        order = self.rpo_index(fr.fn)
        loops = fr.fn.loops()
        pending = {entry: [st]}
        heap = [(order[entry], entry)]
        exits, rets, nexts = [], [], []
        first = True
        while heap:
            _, b = heapq.heappop(heap)
            if b not in pending:
                continue
            s = self.merge(pending.pop(b))
            if b in loops and not (first and b == header):
                outs, rr = self.loop(fr, b, loops[b], s)
                rets.extend(rr)
            else:
                outs, rr = self.step_block(fr, s, b)
                rets.extend(rr)
            first = False
            for tgt, s2 in outs:
                if tgt is None:
                    continue
                if header is not None and tgt == header:
                    nexts.append(s2)
                elif region is not None and tgt not in region:
                    exits.append((tgt, s2))
                else:
                    if tgt not in pending:
                        pending[tgt] = []
                        heapq.heappush(heap, (order[tgt], tgt))
                    pending[tgt].append(s2)
        return exits, rets, nexts

    def merge(self, sts):
        sts = list(sts)
        while len(sts) > 1:
            best = None
            for i in range(len(sts)):
                for j in range(i + 1, len(sts)):
                    fi, fj = sts[i].ctx.facts, sts[j].ctx.facts
                    k = 0
                    while k < len(fi) and k < len(fj) and fi[k] == fj[k]:
                        k += 1
                    if best is None or k > best[0]:
                        best = (k, i, j)
            _, i, j = best
            b = sts.pop(j)
            a = sts.pop(i)
            sts.append(self.merge2(a, b))
        return sts[0]

    def merge2(self, s1, s2):
        k1, k2 = s1.ctx._key, s2.ctx._key
        common = [c for c in s1.ctx.facts if c in k2]
        e1 = [c for c in s1.ctx.facts if c not in k2]
        e2 = [c for c in s2.ctx.facts if c not in k1]
        gate = None
        for c in e1:
            n = neg(c)
            if n in e2:
                gate = c
                break
        facts = list(common)
        if gate is not None:
            x = conj([c for c in e1 if c != gate])
            y = conj([c for c in e2 if c != neg(gate)])
            # (gate and x) or (not gate and y)
            if x != T:
                for p in (x[1] if x[0] == "and" else (x,))[:6]:
                    if kept(p):
                        facts.append(disj([neg(gate), p]))
            if y != T:
                for p in (y[1] if y[0] == "and" else (y,))[:6]:
                    if kept(p):
                        facts.append(disj([gate, p]))
        else:
            gate = conj(e1) if len(e1) <= len(e2) and e1 else None
            if gate is None or gate == T:
                g2 = conj(e2)
                if g2 == T:
                    if not e1:
                        # same facts: nondeterministic merge cannot happen in a deterministic program
                        gate = ob("opq", next_ix())
                    else:
                        gate = conj(e1)
                else:
                    gate = neg(g2)
            facts.append(disj([conj(e1), conj(e2)]))
        ctx = Ctx_of(facts)
        mem = {}
        m1, m2 = s1.mem, s2.mem
        for c, v in m1.items():
            if c in m2:
                w = m2[c]
                mem[c] = v if v is w else choose(gate, v, w, ctx)
            else:
                mem[c] = v
        for c, v in m2.items():
            if c not in m1:
                mem[c] = v
        return St(mem, ctx)

    # loops are in loops.py
    def loop(self, fr, header, body, st):
        import loops
        return loops.cfg_loop(self, fr, header, body, st)



    def models_call(self, fr, st, f, args):
        import models
        return models.closure_call(self, fr, st, f, args)


_cc = {}


def Ctx_of(facts):
    k = tuple(facts)
    r = _cc.get(k)
    if r is None:
        if len(_cc) > 100000:
            _cc.clear()
        r = Ctx(facts)
        _cc[k] = r
    return r

