"""NTT-table cache: lock-set analysis of every access to a `static mut`, plus self-deadlock,
guard-outlives-borrow and check-then-set atomicity rules."""
from common import Report
from facts import operands, rv_places, WS

OWNED = ("std::sync::Arc", "std::rc::Rc", "std::boxed::Box", "std::vec::Vec", "std::collections::HashMap",
         "std::collections::HashSet", "std::string::String", "std::collections::BTreeMap")
GUARDS = ("std::sync::MutexGuard", "std::sync::RwLockReadGuard", "std::sync::RwLockWriteGuard",
          "std::sync::PoisonError", "std::sync::ReentrantLockGuard")


class Types:
    def __init__(self, prog):
        self.p = prog
        self.b = {}
        self.g = {}

    def borrows(self, i, seen=frozenset()):
        """may a value of this type hold a (non-owning) pointer?"""
        if i in self.b:
            return self.b[i]
        if i in seen:
            return False
        t = self.p.types[i]
        s = seen | {i}
        k = t["k"]
        r = False
        if k in ("ref", "ptr", "dyn"):
            r = True
        elif k in ("array", "slice"):
            r = self.borrows(t["elem"], s)
        elif k in ("tuple", "closure"):
            r = any(self.borrows(e, s) for e in t["elems"])
        elif k == "adt":
            if t["path"].startswith(OWNED):
                r = any(isinstance(a, int) and self.borrows(a, s) for a in t["args"])
            else:
                r = any(self.borrows(ft, s) for v in t["variants"] for _, ft in v["fields"])
        if not seen:
            self.b[i] = r
        return r

    def guard(self, i, seen=frozenset()):
        t = self.p.types[i]
        if i in self.g:
            return self.g[i]
        if i in seen:
            return None
        s = seen | {i}
        k = t["k"]
        r = None
        if k == "adt":
            if t["path"].startswith(GUARDS[:3]) or t["path"].startswith(GUARDS[4]):
                r = "r" if "ReadGuard" in t["path"] else "w"
            elif not t["path"].startswith(OWNED):
                for a in t["args"]:
                    if isinstance(a, int):
                        r = r or self.guard(a, s)
                for v in t["variants"]:
                    for _, ft in v["fields"]:
                        r = r or self.guard(ft, s)
        elif k in ("tuple", "closure"):
            for e in t["elems"]:
                r = r or self.guard(e, s)
        if not seen:
            self.g[i] = r
        return r


class Lock:
    def __init__(self, prog, rep):
        self.p = prog
        self.rep = rep
        self.T = Types(prog)
        self.access = {}     # static -> list of (fnname, what, kind, heldset, where)
        self.deadlocks = {}
        self.acq = set()
        self.sets = []       # (static, fn, ok, where)
        self.memo = {}
        self.stack = []

    def const_tags(self, c):
        out = set()
        a = c.get("a")
        if a:
            for _, al in a["p"]:
                g = self.p.allocs.get(str(al), {})
                if "static" in g:
                    s = self.p.statics[g["static"]]
                    out.add(("st", g["static"]))
        return out

    def lock_target(self, tags):
        for t in tags:
            if t[0] == "st" and not self.p.statics[t[1]]["mut"]:
                return t[1]
        return None

    # state: (tags: dict local->frozenset, ) ; guards are tags ("g", static, mode, site)
    def held(self, st):
        out = {}
        for l, ts in st.items():
            for t in ts:
                if t[0] == "g":
                    out[(t[1])] = (t[2], t[3])
        return out

    def run(self, key, args, outer):
        """args: tuple of frozensets; outer: frozenset of (static, mode, site) held by callers. returns tags of result"""
        mk = (key, args, outer)
        if mk in self.memo:
            return self.memo[mk]
        if len(self.stack) > 40 or key in self.stack:
            return frozenset()
        self.memo[mk] = frozenset()
        self.stack.append(key)
        r = self._run(self.p.fns[key], args, outer)
        self.stack.pop()
        self.memo[mk] = r
        return r

    def _run(self, f, args, outer):
        init = {}
        for i, a in enumerate(args):
            if a:
                init[i + 1] = a
        ins = {0: init}
        ret = set()
        order = f.rpo()
        pos = {b: i for i, b in enumerate(order)}
        work = [0]
        it = 0
        seenaccess = {}
        while work:
            it += 1
            if it > 2000:
                break
            work.sort(key=lambda b: pos[b])
            b = work.pop(0)
            st = {k: set(v) for k, v in ins[b].items()}
            self.block(f, b, st, outer, seenaccess, ret)
            for s in f.succ(b):
                if s not in ins:
                    ins[s] = {k: frozenset(v) for k, v in st.items() if v}
                    work.append(s)
                else:
                    old = ins[s]
                    new = {}
                    for l in set(old) | set(st):
                        o, n = set(old.get(l, ())), set(st.get(l, ()))
                        may = {t for t in (o | n) if t[0] != "g"}
                        must = {t for t in (o & n) if t[0] == "g"}
                        if may | must:
                            new[l] = frozenset(may | must)
                    if new != old:
                        ins[s] = new
                        if s not in work:
                            work.append(s)
        # record accesses from the fixpoint
        for (stc, what, kind, line, _b), heldset in seenaccess.items():
            self.access.setdefault(stc, []).append((f.name, what, kind, heldset, f.where(line)))
        return frozenset(ret)

    def heldset(self, st, outer):
        h = {(s, m, site) for s, m, site in outer}
        for l, ts in st.items():
            for t in ts:
                if t[0] == "g":
                    h.add((t[1], t[2], t[3]))
        return frozenset(h)

    def optags(self, st, o):
        if o[0] == "k":
            return set(self.const_tags(o[1]))
        if o[0] in ("c", "m"):
            ts = set(st.get(o[1][0], ()))
            if o[0] == "c" or o[1][1]:
                pass
            return ts
        return set()

    def block(self, f, b, st, outer, acc, ret):
        P = self.p
        bl = f.blocks[b]

        def note(tags, what, line):
            h = self.heldset(st, outer)
            for t in tags:
                if t[0] == "st" and P.statics[t[1]]["mut"] or t[0] == "stm":
                    kind = "mut" if t[0] == "stm" else "shared"
                    k = (t[1], what, kind, line, b)
                    # meet over visits: keep the smaller set
                    acc[k] = acc[k] & h if k in acc else h

        def is_static_place(pl):
            return any(e[0] == "d" for e in pl[1])

        for s in bl["s"]:
            if s[0] == "=":
                dst, rv, line = s[1], s[2], s[3]
                tags = set()
                for o in operands(rv):
                    tags |= self.optags(st, o)
                    if o[0] in ("c", "m") and is_static_place(o[1]):
                        note(st.get(o[1][0], ()), "read", line)
                if rv[0] in ("ref", "addr", "reborrow"):
                    src = set(st.get(rv[2][0], ()))
                    if rv[1]:
                        src = {("stm", t[1]) if t[0] == "st" and P.statics[t[1]]["mut"] else t for t in src}
                    # a reference to a guard does not hold the lock
                    tags |= {t for t in src if t[0] != "g"}
                if rv[0] == "use" and rv[1][0] == "m" and not rv[1][1][1]:
                    st[rv[1][1][0]] = set()
                elif rv[0] in ("agg", "cast"):
                    for o in operands(rv):
                        if o[0] == "m" and not o[1][1]:
                            st[o[1][0]] = set()
                elif rv[0] == "use" and rv[1][0] == "m":
                    # move of a field out (e.g. the Ok payload): the guard moves with it
                    base = rv[1][1][0]
                    if any(t[0] == "g" for t in tags):
                        st[base] = {t for t in st.get(base, ()) if t[0] != "g"}
                if is_static_place(dst):
                    note(st.get(dst[0], ()), "write", line)
                elif dst[1]:
                    st[dst[0]] = set(st.get(dst[0], ())) | tags
                else:
                    ty = f.locals[dst[0]]
                    keep = set()
                    for t in tags:
                        if t[0] == "g":
                            if self.T.guard(ty):
                                keep.add(t)
                        elif self.T.borrows(ty):
                            keep.add(t)
                    st[dst[0]] = keep
            elif s[0] == "dead":
                pass
        t = bl["t"]
        if t[0] == "drop":
            if not t[1][1]:
                st[t[1][0]] = set()
            else:
                st[t[1][0]] = {x for x in st.get(t[1][0], ()) if x[0] != "g"}
        elif t[0] == "ret":
            ret |= set(st.get(0, ()))
        elif t[0] == "call":
            line = t[6]
            atags = []
            for o in t[2]:
                atags.append(frozenset(self.optags(st, o)))
            for o in t[2]:
                if o[0] == "m" and not o[1][1]:
                    st[o[1][0]] = set()
                elif o[0] == "m":
                    st[o[1][0]] = {x for x in st.get(o[1][0], ()) if x[0] != "g"}
            inst = t[1].get("inst")
            path = P.insts[inst]["path"] if inst in P.insts else "?"
            crate = P.insts[inst]["crate"] if inst in P.insts else "?"
            dty = f.locals[t[3][0]] if not t[3][1] else None
            res = set()
            if path in ("std::sync::Mutex::<T>::lock", "std::sync::RwLock::<T>::write", "std::sync::RwLock::<T>::read",
                        "std::sync::Mutex::<T>::try_lock"):
                target = self.lock_target(atags[0]) if atags else None
                if target and "try_" not in path:
                    mode = "r" if path.endswith("::read") else "w"
                    site = "%s@%s" % (f.name, b)
                    h = self.heldset(st, outer)
                    for (s2, m2, site2) in h:
                        if s2 == target and (mode == "w" or m2 == "w"):
                            self.deadlocks[(f.name, target)] = "%s locks %s again while %s still holds it (%s): the thread blocks forever" % (
                                f.name, target, site2.split("@")[0], f.where(line))
                    self.acq.add((f.name, target))
                    res.add(("g", target, mode, site))
            elif crate in WS and inst in P.fns:
                fo = frozenset(self.heldset(st, outer))
                interesting = any(atags) or fo or self.touches(inst)
                if interesting:
                    r = self.run(inst, tuple(atags), fo)
                    res |= r
            else:
                tagged = [x for a in atags for x in a]
                note([x for x in tagged if x[0] in ("st", "stm")], path, line)
                for a in atags:
                    res |= a
                # closures handed to std functions run inside the call
                for o in t[2]:
                    ty = None
                    if o[0] == "k":
                        ty = o[1]["ty"]
                    elif not o[1][1]:
                        ty = f.locals[o[1][0]]
                    if ty is not None and P.types[ty]["k"] in ("closure", "fndef"):
                        ci = P.types[ty].get("inst")
                        if ci in P.fns and P.insts[ci]["crate"] in WS:
                            ct = frozenset(self.optags(st, o)) | frozenset(x for a in atags for x in a if x[0] != "g")
                            n = P.fns[ci].argc
                            res |= {x for x in self.run(ci, tuple([ct] * n), self.heldset(st, outer)) if x[0] != "g"}
                if path.endswith("OnceCell::<T>::set") or path.endswith("OnceLock::<T>::set"):
                    for x in tagged:
                        if x[0] in ("st", "stm") and P.statics[x[1]]["mut"]:
                            self.sets.append((x[1], f, b, self.heldset(st, outer), line))
            if dty is not None:
                keep = set()
                for x in res:
                    if x[0] == "g":
                        if self.T.guard(dty):
                            keep.add(x)
                    elif self.T.borrows(dty):
                        keep.add(x)
                st[t[3][0]] = keep
            else:
                st[t[3][0]] = set(st.get(t[3][0], ())) | {x for x in res if x[0] != "g"}

    def touches(self, inst):
        """does inst (transitively) mention a static?"""
        if not hasattr(self, "_touch"):
            g = self.p.callgraph()
            direct = set()
            for k, f in self.p.fns.items():
                if f.crate not in WS:
                    continue
                for b in f.blocks:
                    for s in b["s"]:
                        if s[0] == "=":
                            for o in operands(s[2]):
                                if o[0] == "k" and self.const_tags(o[1]):
                                    direct.add(k)
                    if b["t"][0] == "call":
                        for o in b["t"][2]:
                            if o[0] == "k" and self.const_tags(o[1]):
                                direct.add(k)
            rev = {}
            for a, cs in g.items():
                for c in cs:
                    rev.setdefault(c, set()).add(a)
            seen = set(direct)
            stk = list(direct)
            while stk:
                x = stk.pop()
                for y in rev.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        stk.append(y)
            self._touch = seen
            self._direct = direct
        return inst in self._touch


def short(s):
    return s.split("::")[-1]


def run(prog, pid):
    rep = Report(pid)
    L = Lock(prog, rep)
    L.touches("")
    # analysis entry points: every workspace function that can be called from outside with nothing held
    entries = [f for f in prog.wsfns if f.info["pub"] or f.info["implof"]]
    for f in entries:
        if L.touches(f.key):
            L.run(f.key, tuple(frozenset() for _ in range(f.argc)), frozenset())
    statics = {k: v for k, v in prog.statics.items() if v["mut"] and v["crate"] in WS}
    caches = [f for f in prog.wsfns if f.info["item"] == "get_ntt_table"]
    rep.floor("get_ntt_table implementations", len(caches), 6)
    n_acc = 0
    for s in sorted(statics):
        accs = L.access.get(s, [])
        n_acc += len(accs)
        anymut = any(a[2] == "mut" for a in accs)
        common = None
        for fn, what, kind, held, where in accs:
            locks = {h[0] for h in held if h[1] == "w" or kind == "shared"}
            common = locks if common is None else common & locks
        for fn, what, kind, held, where in sorted(set((a[0], a[1], a[2], frozenset(x[0] for x in a[3] if x[1] == "w" or a[2] == "shared"), a[4]) for a in accs), key=lambda x: (x[0], x[1], x[4])):
            key = "access:%s:%s:%s" % (fn, what.split("::<")[0] + "::" + what.split("::")[-1], short(s))
            if anymut and not held:
                rep.bad(key, "%s: %s (%s access to static mut %s) with no lock held, while other code mutates it through &mut; two threads race" % (where, what, kind, s))
            elif anymut and not common:
                rep.bad(key, "%s: accesses of static mut %s hold no common lock (%s here)" % (where, s, sorted(held)))
            else:
                rep.ok(key, "holds %s" % sorted(held))
    for (fn, target), msg in sorted(L.deadlocks.items()):
        rep.bad("relock:%s:%s" % (fn, short(target)), msg)
    for fn, target in sorted(L.acq):
        if (fn, target) not in L.deadlocks:
            rep.ok("acquire:%s:%s" % (fn, short(target)), "not held at this point")
    # one-shot initialisation must be decided inside the critical section that performs it
    for (s, f, b, held, line) in L.sets:
        sites = {h[2] for h in held}
        ok = False
        for fn, what, kind, h2, where in L.access.get(s, []):
            if ("get" in what.split("::")[-1]) and {x[2] for x in h2} & sites:
                ok = True
        key = "init-once:%s:%s" % (f.name, short(s))
        if ok:
            rep.ok(key, "the 'not yet initialised' test is made under the same lock acquisition")
        else:
            rep.bad(key, "%s: %s is set without re-testing it under the lock that is held: a second thread that passed the test first makes this one fail" % (f.where(line), s))
    rep.notes["statics"] = sorted(statics)
    rep.notes["entry_points"] = len(entries)
    rep.notes["accesses"] = n_acc
    if statics:
        rep.floor("accesses of static mut tables", n_acc, 2 * len(statics))
    return rep.finish(
        rule="lock-set rule: on every path, at every access through a pointer derived from a `static mut`, the set of held mutexes is non-empty and all accesses share one; no mutex is acquired while already held; a one-shot set is re-tested under the same acquisition",
        explanation="Flow-sensitive lock-set dataflow over the monomorphised MIR of every function that can reach a `static mut`, context-sensitive over calls, from every public entry point; guards are tracked through unwrap/match/moves and end at drop or move-out.")
