"""Canonical names for abstract values.

An element of a collection is named after the collection (`el(S)`), not after the loop that visits it;
a value read from a table the code builds itself is replaced by what was put into the table.  So the same
value gets the same name whether it is reached by a loop, an iterator chain, an index or a helper table.
"""
from terms import *


def el(s):
    return t("el", s)


def F(x, *names):
    for n in names:
        x = t("fld", x, n)
    return x


def els(x):
    return {y for y in subterms(x) if y.op == "el"}


class Norm:
    def __init__(self, run, idkeyed=("artefacts", "requirements")):
        self.run = run
        self.prog = run.prog
        self.crate = run.crate
        self.idkeyed = set(idkeyed)
        self.memo = {}
        self.tmpl = {}
        self.busy = set()
        self.raw = {}
        self.cloned = {}
        late = []
        seen = set()
        for _, _, evs in run.edges:
            for ev in evs:
                if ev.k in ("push", "insert"):
                    o = ev.a[0]
                    kv = (ev.a[1], ev.a[2]) if ev.k == "insert" else (None, ev.a[1])
                    if (o,) + kv in seen:
                        continue
                    seen.add((o,) + kv)
                    if o.op == "obj":
                        self.raw.setdefault(o, []).append(kv)
                    elif o.op in ("get", "val", "fld", "dc", "elem", "at"):
                        late.append((o, kv))
                elif ev.k == "clone":
                    self.cloned.setdefault(ev.a[0], set()).add(ev.a[1])
        self.params = {}
        self.scopes()
        for o, kv in late:
            n = self.norm(o)
            b = n.a[0] if n.op == "objref" else n
            if b.op == "obj":
                self.raw.setdefault(b, []).append(kv)
                self.tmpl.pop(b, None)
                self.memo.clear()
        self.memo.clear()
        self.tmpl.clear()

    # ---- which elements are bound when an object is created
    def scopes(self):
        run = self.run
        succ = {}
        for s, d, evs in run.edges:
            succ.setdefault(s, []).append((d, evs))
        st = {run.start: frozenset()}
        work = [run.start]
        new = {}
        at = {}
        while work:
            n = work.pop()
            for d, evs in succ.get(n, ()):
                b = st[n]
                for ev in evs:
                    if ev.k == "elem":
                        b = b - {ev.a[0]}
                        at[ev.a[0]] = at[ev.a[0]] & b if ev.a[0] in at else b
                        b = b | {ev.a[0]}
                    elif ev.k in ("iterend", "begin"):
                        b = b - {ev.a[0]}
                    elif ev.k == "new":
                        o = ev.a[0]
                        new[o] = new[o] & b if o in new else b
                if d == -1:
                    continue
                if d not in st:
                    st[d] = b
                    work.append(d)
                elif not st[d] <= b:
                    st[d] = st[d] & b
                    work.append(d)
        self.newscope = new
        self.encl = at  # iterations that are always under way when an element is visited
        self.elems = {}
        for _, _, evs in run.edges:
            for ev in evs:
                if ev.k == "elem":
                    self.elems.setdefault(ev.a[0], set()).add(ev.a[2])

    def innermost(self, site):
        e = self.encl.get(site, ())
        return max(e, key=lambda s: (len(self.encl.get(s, ())), s)) if e else None

    def param_els(self, o):
        r = self.params.get(o)
        if r is None:
            r = set()
            self.params[o] = r
            for s in self.newscope.get(o, ()):
                for E in self.elems.get(s, ()):
                    r |= els(self.norm(E))
        return r

    # ---- terms
    def norm(self, x):
        if x.__class__ is not T:
            return x
        r = self.memo.get(x)
        if r is None:
            r = self.norm1(x)
            if not self.busy:
                self.memo[x] = r
        return r

    def norm1(self, x):
        op = x.op
        if op in ("c", "sym", "static", "named", "zst", "obj", "oldobj"):
            return x
        if op == "elem":
            return self.elem_of(self.norm(x.a[1]))
        if op == "prev":
            return t("stale", x.a[0], self.norm(x.a[2]) if x.a[2].__class__ is T else x.a[2])
        if op == "phi":
            return x
        if op == "key":
            return self.key(self.norm(x.a[0]))
        if op == "val":
            return self.value(self.norm(x.a[0]))
        if op == "fld":
            return self.fld(self.norm(x.a[0]), x.a[1])
        if op == "dc":
            b = self.norm(x.a[0])
            if b.op == "agg":
                return b
            if b.op == "opt" and x.a[1] == "Some":
                return agg("adt", OPTION, "Some", b.a[1])
            return t("dc", b, x.a[1])
        if op == "get":
            return self.get(self.norm(x.a[0]), self.norm(x.a[1]))
        if op in ("has", "had"):
            return self.has(self.norm(x.a[0]), self.norm(x.a[1]), op)
        if op == "ext":
            return t("ext", x.a[0], x.a[1], *[self.norm(y) for y in x.a[2:]])
        if op == "eq":
            a, b = self.norm(x.a[0]), self.norm(x.a[1])
            return self.eq(a, b)
        if op == "upd":
            b = self.norm(x.a[0])
            return t("upd", b, x.a[1], self.norm(x.a[2]))
        return t(op, *[self.norm(y) if y.__class__ is T else y for y in x.a])

    def eq(self, a, b):
        if show(b) < show(a):
            a, b = b, a
        return t("eq", a, b)

    def is_idkeyed(self, m):
        return m.op == "fld" and m.a[1] in self.idkeyed

    def key(self, e):
        if e.op == "pair":
            return e.a[0]
        if e.op == "el" and self.is_idkeyed(e.a[0]):
            return F(t("val", e), "id")
        return t("key", e)

    def value(self, e):
        if e.op == "pair":
            return e.a[1]
        return t("val", e)

    def fld(self, b, name):
        if b.op == "agg":
            kind, n, var = b.a[:3]
            if kind == "tuple" or name.isdigit() and kind == "adt":
                i = int(name)
                if i < len(b.a) - 3:
                    return b.a[3 + i]
            names = self.prog.field_names(self.crate, n, var)
            if names and name in names:
                return b.a[3 + names.index(name)]
        if b.op == "dc" and b.a[0].op == "agg":
            return self.fld(b.a[0], name)
        if b.op == "upd":
            return b.a[2] if b.a[1] == name else self.fld(b.a[0], name)
        if name == "traced_graph" and b.op == "ext" and str(b.a[1]).endswith("AggregatedGraph::new"):
            return b.a[2]  # checked by the aggregation rules
        if name == "id" and b.op == "get" and self.is_idkeyed(b.a[0]):
            return b.a[1]
        return t("fld", b, name)

    # ---- tables built by the code itself
    def templates(self, o):
        r = self.tmpl.get(o)
        if r is None:
            if o in self.busy:
                return None
            self.busy.add(o)
            r = []
            for k, v in self.raw.get(o, ()):
                kv = (self.norm(k) if k is not None else None, self.norm(v))
                if kv not in r:
                    r.append(kv)
            for src in self.cloned.get(o, ()):
                s = self.norm(src)
                if s.op in ("obj", "objref"):
                    for kv in self.tm(s) or ():
                        if kv not in r:
                            r.append(kv)
                else:
                    kv = (None, el(s))
                    if kv not in r:
                        r.append(kv)
            self.busy.discard(o)
            if not self.busy:
                self.tmpl[o] = r
        return r

    def apply(self, x, pairs):
        """simultaneous substitution in a normalised term, carried into object references"""
        m = dict(pairs)

        def f(y):
            if y in m:
                return m[y]
            if y.op == "obj":
                return t("objref", y, *[z for p in pairs for z in p])
            if y.op == "objref":
                old = [(y.a[i], self.apply(y.a[i + 1], pairs)) for i in range(1, len(y.a), 2)]
                have = {p for p, _ in old}
                old += [(p, q) for p, q in pairs if p not in have]
                return t("objref", y.a[0], *[z for p in old for z in p])
            return None

        r = subst(x, f, {})
        return self.renorm(r)

    def renorm(self, x):
        """re-simplify after substitution"""

        def f(y):
            if y.op == "fld":
                return self.fld(self.renorm(y.a[0]), y.a[1])
            if y.op == "eq":
                return self.eq(self.renorm(y.a[0]), self.renorm(y.a[1]))
            return None

        return subst(x, f, {})

    def base(self, x):
        if x.op == "obj":
            return x, ()
        if x.op == "objref":
            return x.a[0], tuple((x.a[i], x.a[i + 1]) for i in range(1, len(x.a), 2))
        return None, ()

    def tm(self, x):
        o, sig = self.base(x)
        if o is None:
            return None
        ts = self.templates(o)
        if ts is None:
            return None
        if sig:
            ts = [(self.apply(k, sig) if k is not None else None, self.apply(v, sig)) for k, v in ts]
        out = []
        for kv in ts:
            if kv not in out:
                out.append(kv)
        return out

    def elem_of(self, src):
        ts = self.tm(src)
        if ts and len(ts) == 1:
            k, v = ts[0]
            if k is None:
                return v
            if v is UNIT:
                return k
            return t("pair", k, v)
        return el(src)

    def unify(self, src, K):
        """for a table with one kind of entry: (key template, value template, substitution or None)"""
        ts = self.tm(src)
        if not ts or any(k is None for k, _ in ts):
            return None
        ks = {k for k, _ in ts}
        if len(ks) != 1:
            return None
        KT = next(iter(ks))
        vs = {v for _, v in ts}
        V = next(iter(vs)) if len(vs) == 1 else None
        o, sig = self.base(src)
        par = set()
        for e in self.param_els(o):
            par |= els(self.apply(e, sig) if sig else e)
        for _, q in sig:
            par |= els(q)
        var = None
        if KT.op == "fld" and KT.a[1] == "id" and KT.a[0].op == "val" and KT.a[0].a[0].op == "el":
            m = KT.a[0].a[0].a[0]
            if els(m) <= par:
                var = (KT.a[0], t("get", m, K))
        elif KT.op == "el" and els(KT.a[0]) <= par:
            var = (KT, K)
        elif KT.op == "fld" and KT.a[1] == "id" and KT.a[0].op == "el" and els(KT.a[0].a[0]) <= par:
            var = (KT.a[0], t("byid", KT.a[0].a[0], K))
        return KT, V, var, par

    def get(self, src, K):
        u = self.unify(src, K)
        if u is None or u[1] is None:
            return t("get", src, K)
        KT, V, var, par = u
        if var is not None:
            return self.apply(V, [var])
        if V.op in ("obj", "objref"):
            return V
        free = [e for e in els(V) if e not in par]
        if not free:
            return V
        return self.apply(V, [(e, t("some", e, K)) for e in free])

    def has(self, src, K, op="has"):
        u = self.unify(src, K)
        if u is not None and u[2] is not None and u[2][1].op == "get":
            return t(op, u[2][1].a[0], K)
        return t(op, src, K)

    def constraints(self, x):
        """equalities implied by reading through tables whose key is not an element's id"""
        out = []
        for y in subterms(x):
            if y.op == "get":
                s, K = self.norm(y.a[0]), self.norm(y.a[1])
                u = self.unify(s, K)
                if u is not None and u[2] is None:
                    out.append(self.eq(u[0], K))
        return out

    def fact(self, a, v):
        """normalised (atom, value)"""
        n = self.norm(a)
        while n.op == "not":
            n, v = n.a[0], not v
        return n, v
