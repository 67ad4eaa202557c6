"""Loads the MIR facts and offers CFG, call-graph and type helpers."""
import json, os, sys

WS = {"algebra", "lattice", "fhe_core", "zkfhe", "roots"}


class Fn:
    __slots__ = ("key", "info", "argc", "spread", "locals", "names", "blocks", "prog", "_succ", "_dom", "_loops")

    def __init__(self, prog, b):
        self.prog = prog
        self.key = b["key"]
        self.info = prog.insts[self.key]
        self.argc = b["argc"]
        self.spread = b["spread"]
        self.locals = b["locals"]
        self.names = b["names"]
        self.blocks = b["blocks"]
        self._succ = None
        self._dom = None
        self._loops = None

    @property
    def name(self):
        return self.info["name"]

    @property
    def path(self):
        return self.info["path"]

    @property
    def crate(self):
        return self.info["crate"]

    def where(self, line=None):
        return "%s:%s" % (self.prog.relfile(self.info["file"]), line if line else self.info["line"])

    def succ(self, i, cleanup=False):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            r = [t[1]]
        elif k == "sw":
            r = [x[1] for x in t[2]] + [t[3]]
        elif k == "drop":
            r = [t[2]] + ([t[3]] if cleanup and t[3] is not None else [])
        elif k == "call":
            r = ([t[4]] if t[4] is not None else []) + ([t[5]] if cleanup and t[5] is not None else [])
        elif k == "asm":
            r = [t[3]] if len(t) > 3 and t[3] is not None else []
        elif k == "assert":
            r = [t[4]] + ([t[5]] if cleanup and t[5] is not None else [])
        else:
            r = []
        out = []
        for x in r:
            if x not in out:
                out.append(x)
        return out

    def reachable(self):
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for s in self.succ(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def rpo(self):
        seen = set()
        out = []
        st = [(0, iter(self.succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ(s))))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def doms(self):
        if self._dom is not None:
            return self._dom
        order = self.rpo()
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ(b):
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self._dom = (idom, order, preds)
        return self._dom

    def dominates(self, a, b):
        idom = self.doms()[0]
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]

    def loops(self):
        """header -> set of blocks of the natural loop"""
        if self._loops is not None:
            return self._loops
        idom, order, preds = self.doms()
        loops = {}
        for b in order:
            for s in self.succ(b):
                if self.dominates(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops

    def local_name(self, l):
        for n, p in self.names:
            if p[0] == l and not p[1]:
                return n
        return "_%d" % l


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.insts = d["insts"]
        self.statics = d["statics"]
        self.allocs = d["allocs"]
        self.roots = d["roots"]
        self.fns = {b["key"]: Fn(self, b) for b in d["bodies"]}
        self.wsfns = [f for f in self.fns.values() if f.crate in WS]
        self._cg = None

    def relfile(self, f):
        for pre in ("build/ws/", "/repo/"):
            i = f.find(pre)
            if i >= 0:
                return f[i + len(pre):]
        if "/rustlib/" in f:
            return f[f.find("/rustlib/"):]
        return f

    def ty(self, i):
        return self.types[i]

    def tyname(self, i):
        return self.types[i]["name"]

    def adt_name(self, i):
        t = self.types[i]
        return t.get("path") if t["k"] == "adt" else None

    def callees(self, f):
        """Yields (block, term, inst key or None, path)"""
        for i in sorted(f.reachable()):
            t = f.blocks[i]["t"]
            if t[0] == "call":
                c = t[1]
                if "inst" in c:
                    yield i, t, c["inst"], (self.insts[c["inst"]]["path"] if c["inst"] in self.insts else c["path"])
                else:
                    yield i, t, None, "<fn pointer>"

    def fn_values(self, f):
        """instances mentioned as values (fn items, closures) in f"""
        out = set()
        def ty(i):
            t = self.types[i]
            if t["k"] in ("fndef", "closure") and t.get("inst"):
                out.add(t["inst"])
        for l in f.locals:
            ty(l)
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=":
                    for o in operands(s[2]):
                        if o[0] == "k":
                            ty(o[1]["ty"])
            t = b["t"]
            if t[0] == "call":
                for o in t[2]:
                    if o[0] == "k":
                        ty(o[1]["ty"])
        return out

    def callgraph(self):
        if self._cg is None:
            g = {}
            for k, f in self.fns.items():
                s = set()
                for _, t, inst, _ in self.callees(f):
                    if inst:
                        s.add(inst)
                        for a in self.insts.get(inst, {}).get("args", []):
                            if isinstance(a, int) and self.types[a]["k"] in ("fndef", "closure") and self.types[a].get("inst"):
                                s.add(self.types[a]["inst"])
                for i in f.reachable():
                    t = f.blocks[i]["t"]
                    if t[0] == "drop" and t[4]:
                        s.add(t[4])
                s |= self.fn_values(f)
                g[k] = s
            self._cg = g
        return self._cg

    def reach(self, start):
        g = self.callgraph()
        seen = {}
        st = [(s, None) for s in start]
        while st:
            k, p = st.pop()
            if k in seen:
                continue
            seen[k] = p
            for c in sorted(g.get(k, ())):
                if c not in seen:
                    st.append((c, k))
        return seen

    def path_to(self, seen, k):
        out = []
        while k is not None:
            out.append(self.insts[k]["name"])
            k = seen[k]
        return " <- ".join(out)


def operands(rv):
    k = rv[0]
    if k in ("use",):
        return [rv[1]]
    if k in ("bin", "cbin"):
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "cast":
        return [rv[2]]
    if k == "agg":
        return list(rv[2])
    if k == "rep":
        return [rv[1]]
    return []


def rv_places(rv):
    """places read by the rvalue (including borrowed ones)"""
    k = rv[0]
    out = []
    for o in operands(rv):
        if o[0] in ("c", "m"):
            out.append(o[1])
    if k in ("ref", "addr", "reborrow"):
        out.append(rv[2])
    elif k in ("len", "discr"):
        out.append(rv[1])
    return out
