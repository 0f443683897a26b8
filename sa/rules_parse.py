"""Rules about the parsers.

The markdown rule runs a reference reader (the format, written down as transitions over lines) along every abstract path
of the parser and compares, line by line, what the parser puts out with what the reference puts out.  Texts that are
accumulated over lines are compared as terms: the reference's value is aged and renamed exactly as the analysis ages
and renames (widens) the values of the program, so the comparison is an induction over the number of lines."""
from terms import *
from mon import *
from models import cat
import rx

PATH = t("sym", "path")

SPEC_RX = {
    "heading": r"^(#+)",
    "requirement": r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(.+?)\s*$",
    "attribute": r"^([A-Z][a-z]+):\s*(.*)\s*$",
    "reference": r"^*\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$",
    "link": r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$",
}


def regexes(view):
    """regex terms of the program -> role, for those that are equivalent to a specified one"""
    out = {}
    for _, _, evs in view.edges:
        for ev in evs:
            for x in ev.raw.a:
                if x.__class__ is T:
                    for y in x.subs:
                        if y.op == "app" and y.a[0] == "Regex" and y not in out:
                            p = y.a[1]
                            out[y] = rx.role(p.a[1], SPEC_RX) if is_c(p, "str") else None
    return out


# ------------------------------------------------------------------ alias sets
def lin(x):
    """x as (base, offset)"""
    if is_c(x, "int"):
        return (None, int(x.a[1]))
    if x.op == "app" and x.a[0] == "add" and is_c(x.a[2], "int"):
        b, o = lin(x.a[1])
        return (b, o + int(x.a[2].a[1]))
    if x.op == "app" and x.a[0] == "add" and is_c(x.a[1], "int"):
        b, o = lin(x.a[2])
        return (b, o + int(x.a[1].a[1]))
    if x.op == "app" and x.a[0] == "sub" and is_c(x.a[2], "int"):
        b, o = lin(x.a[1])
        return (b, o - int(x.a[2].a[1]))
    return (x, 0)


def age(x, site, memo):
    if site not in x.sites:
        return x

    def f(y):
        if site not in y.sites:
            return y
        if y.op == "elem" and y.a[0] == site:
            return t("prev", 1, site, subst(y.a[1], f, memo))
        if y.op == "ext" and y.a[0] == site:
            return t("prev", 1, site, subst(app(y.a[1], *y.a[2:]), f, memo))
        if y.op == "prev" and y.a[1] == site:
            return t("prev", min(3, y.a[0] + 1), site, subst(y.a[2], f, memo))
        return None

    return subst(x, f, memo)


def old(x, site):
    """ages are counted up to 3: this value can not be told from older ones any more"""
    return any(y.op == "prev" and y.a[0] >= 3 and y.a[1] == site for y in x.subs)


def keep(s):
    return frozenset(x for x in s if x.size < 80 and not any(is_c(y, "str") and len(y.a[1]) > 4 for y in x.subs))


class Alias:
    """which terms currently equal a specified value"""

    @staticmethod
    def age(s, site):
        if not any(site in x.sites for x in s):
            return s
        memo = {}
        return keep(age(x, site, memo) for x in s if site not in x.sites or not old(x, site))

    @staticmethod
    def widen(s, pairs):
        new = {p for p, x in pairs if x in s}
        dead = {p for p, _ in pairs}
        return keep(new | {x for x in s if (x.op == "phi" or not new) and not (x.subs & dead)})

    @staticmethod
    def lage(s, site):
        memo = {}
        r = set()
        for b, o in s:
            if b is not None and site in b.sites:
                if old(b, site):
                    continue
                b = age(b, site, memo)
            r.add((b, o))
        return frozenset(r)

    @staticmethod
    def lwiden(s, pairs):
        r = set()
        dead = {p for p, _ in pairs}
        for p, x in pairs:
            b, o = lin(x)
            for nb, no in s:
                if nb is b and -1 <= no - o <= 1:
                    r.add((p, no - o))
        return frozenset(r | {(b, o) for b, o in s if b is None or (b.op == "phi" or not r) and not (b.subs & dead)})


# ------------------------------------------------------------------ the reference reader
class M:
    """state of the reference reader; immutable"""

    __slots__ = ("mode", "cur", "n", "outs", "lits", "cov", "dep", "full", "anyattr", "line", "_k", "_h")
    F = ("mode", "cur", "n", "outs", "lits", "cov", "dep", "full", "anyattr", "line")

    def __init__(self, **kw):
        for f in self.F:
            setattr(self, f, kw[f])
        self._k = tuple(kw[f] for f in self.F)
        self._h = hash(self._k)

    def __eq__(self, o):
        return self._h == o._h and self._k == o._k

    def __hash__(self):
        return self._h

    def but(self, **kw):
        d = {f: getattr(self, f) for f in self.F}
        d.update(kw)
        return M(**d)


# mode: (name, attribute aliases, text aliases, continued) ; cur: None or (id, title, line)
LIM = 1500000
LOOK = ("look",)


class Reader:
    soft = True  # another way of reading lines is not an error

    def __init__(self, ctx, path):
        self.view = v = ctx.view(path)
        self.roles = regexes(v)
        self.memo = {}
        self.bads = {}
        self.nexit = 0
        self.odd = set()

    # -------------------------------------------------------------- terms
    def c(self, x):
        """raw term with regexes replaced by their role"""
        if x.__class__ is not T:
            return x

        def f(y):
            if y.op == "app" and y.a[0] == "Regex":
                r = self.roles.get(y)
                return t("rx", r) if r else y
            return None

        return subst(x, f, self.memo)

    def names(self, x):
        n = self.view.prog.field_names(self.view.run.crate, x.a[1], x.a[2])
        return dict(zip(n, x.a[3:]))


def rxt(role):
    return t("rx", role)


def m_(role, L):
    return t("match", rxt(role), L)


def cap(role, L, i):
    return t("cap", t("caps", rxt(role), L), C("int", i))


def known(lits, a):
    """value of an atom under the literals of a path"""
    return lits.get(a)


class Markdown(Reader):
    label = "markdown parser"
    entry = "parsers::markdown::parse"
    refrole = "reference"

    def __init__(self, ctx):
        Reader.__init__(self, ctx, self.entry)
        self.problem = None
        v = self.view
        rets = set()
        for x in v.run.retvals:
            if not (is_agg(x, "tuple") and len(x.a) == 5):
                self.problem = "the parser's result is not followed"
                return
            rets.add((base(x.a[3]), base(x.a[4])))
        if len(rets) != 1:
            self.problem = "the parser returns different lists: %s" % ", ".join("(%s, %s)" % (show(a), show(b)) for a, b in rets)
            return
        self.reqs, self.errs = rets.pop()
        self.src = None
        for _, _, evs in v.edges:
            for ev in evs:
                if self.sources(ev):
                    self.src = True
        if not self.src:
            self.problem = "no line reading is recognised in the %s" % self.label
            return
        self.explore()

    # ------------------------------------------------------------ exploration
    def sources(self, ev):
        return ev.k in ("read", "ioerr")

    def initial(self):
        return M(mode=LOOK, cur=None, n=frozenset([(None, 0)]), outs=(), lits=frozenset(), cov=None, dep=None,
                 full=frozenset(), anyattr=False, line=None)

    def outer(self):
        """nodes from which nothing but the next line can follow"""
        v = self.view
        sig = {}

        def first(ei):
            for ev in v.edges[ei][2]:
                if self.sources(ev):
                    return "read"
                if ev.k in ("push", "insert", "panic", "elem", "iterend") or ev.k == "assume":
                    return "other"
            return None

        exits = {n for n, _, _ in v.run.exits}

        def look(n):
            r = sig.get(n)
            if r is not None:
                return r
            seen = {n}
            st = [n]
            ok = True
            while st and ok:
                x = st.pop()
                if x in exits:
                    ok = False
                for ei in v.succ.get(x, ()):
                    k = first(ei)
                    d = v.edges[ei][1]
                    if k == "other":
                        ok = False
                    elif k is None and d not in seen and d != -1:
                        seen.add(d)
                        st.append(d)
            sig[n] = ok
            return ok

        return look

    def bad(self, tag, msg, ev, st, ei):
        k = (tag, msg)
        if k not in self.bads:
            res = Result()
            add(res, self.view, self.label, msg, ev, self.parent, st, ei)
            self.bads[k] = (next(iter(res.bad.values())), res)

    def explore(self):
        v = self.view
        outer = self.outer()
        init = self.initial()
        start = (v.run.start, init)
        self.parent = parent = {start: None}
        work = [start]
        exits = {n for n, _, _ in v.run.exits}
        prep = {}
        while work:
            if len(self.bads) > 12:
                break
            if len(parent) > LIM:
                self.problem = "the rule for the %s is beyond its budget" % self.label
                return
            st = work.pop()
            node, m = st
            for ei in v.succ.get(node, ()):
                g = prep.get(ei)
                if g is None:
                    g = prep[ei] = self.group(v.edges[ei][2], outer(v.edges[ei][1]))
                d = v.edges[ei][1]
                cs = [m]
                for ev, what, x in g:
                    nx = []
                    for c in cs:
                        nx += self.step(c, ev, what, x, st, ei)
                    cs = nx
                    if not cs:
                        break
                if d == -1:
                    continue
                if d in exits:
                    self.nexit += 1
                    lev = v.edges[ei][2][-1] if v.edges[ei][2] else None
                    for c in cs:
                        self.end(c, lev, st, ei)
                    continue
                for c in cs:
                    n = (d, c)
                    if len(c.outs) > 24:
                        # a loop inside one line that is not understood: what it does is not decided
                        self.problem = "unbounded work on one line in the %s" % self.label
                        continue
                    if n not in parent:
                        parent[n] = (st, ei)
                        work.append(n)
        self.states = len(parent)
        v.nsteps += len(parent)

    def group(self, evs, outer):
        out = []
        wid = []
        for ev in evs:
            if ev.k == "widen":
                wid.append((ev.raw.a[0], self.c(ev.raw.a[1])))
                wev = ev
                continue
            if wid:
                out.append((wev, "widen", (tuple(wid), outer)))
                wid = []
            if ev.k == "assume":
                a, val = ev.raw.a
                while a.op == "not":
                    a, val = a.a[0], not val
                out.append((ev, "assume", (self.c(a), val)))
            elif ev.k in ("push", "insert", "read", "ioerr", "new", "advance", "elem", "begin", "iterend", "remove", "clear", "pop", "mut", "ret"):
                out.append((ev, ev.k, tuple(self.c(x) for x in ev.raw.a)))
        if wid:
            out.append((wev, "widen", (tuple(wid), outer)))
        return out

    # ------------------------------------------------------------ steps
    def step(self, c, ev, what, x, st, ei):
        if what == "assume":
            a, val = x
            if c.line is not None and (c.line in a.subs or self.about_text(c, a)):
                return [c.but(lits=c.lits | {(a, val)})]
            return [c]
        if what == "advance":
            s = x[0]
            r = [c]
            if c.line is not None and s in c.line.sites and c.line.op == "ext" and c.line.a[0] == s:
                r = self.settle(c, ev, st, ei)
            elif any(o[0] == "elem" and s in o[1].sites for o in c.outs):
                c = self.item(c, ev, st, ei, False)
                if c is None:
                    return []
                r = [c]
            return [self.aged(self.forget(y, s), s) for y in r]
        if what == "widen":
            pairs, outer = x
            r = [c]
            if outer and c.line is not None:
                r = self.settle(c, ev, st, ei)
            return [self.widened(y, pairs) for y in r]
        if what == "ioerr":
            if c.line is not None and x[1].op == "readerr" and x[1].a[0] is c.line:
                return [c.but(lits=frozenset([(t("readerr"), True)]))]
            return [c]
        if what == "read":
            r = [c] if c.line is None else self.settle(c, ev, st, ei)
            out = []
            for y in r:
                if y.mode[0] == "end":
                    out.append(y)
                    continue
                n = frozenset((b, o + 1) for b, o in y.n if -3 <= o < 3)
                out.append(y.but(line=x[1], n=n, lits=frozenset()))
            return out
        if what == "new":
            o = x[0]
            ch = {}
            if o in c.full:
                ch["full"] = c.full - {o}
                if c.cov is o or c.dep is o:
                    oo = x[1] if len(x) > 1 else t("oldobj", *o.a)
                    ch["full"] = ch["full"] | {oo}
                    for f in ("cov", "dep"):
                        if getattr(c, f) is o:
                            ch[f] = oo
            return [c.but(**ch)] if ch else [c]
        if what == "push":
            return self.push(c, ev, x, st, ei)
        if what == "insert":
            if len(x) == 3 and base(x[0]).op in ("obj", "oldobj"):
                return [c.but(outs=c.outs + (("attr", base(x[0]), x[1], x[2]),))]
            return [c]
        if what == "begin":
            return [self.aged(self.forget(c, x[0]), x[0])]
        if what in ("elem", "iterend"):
            if c.line is not None and self.is_split(c, x[1]):
                c = self.item(c, ev, st, ei, what == "iterend")
                if c is None:
                    return []
                if what == "iterend":
                    c = self.aged(self.forget(c, x[0]), x[0])
                else:
                    c = c.but(outs=c.outs + (("elem", x[2]),))
            return [c]
        return [c]

    def is_split(self, c, s):
        return s.op == "app" and s.a[0] == "split" and cap("attribute", c.line, 2) in s.subs

    def about_text(self, c, a):
        return c.mode[0] == "text" and (a.op == "empty" and a.a[0] in c.mode[2] or a.op == "app" and a.a[0] == "ends_with" and a.a[1] in c.mode[2]) or a.op == "has"

    def forget(self, c, s):
        """a new element is visited at s: it gets checked before, and what is known about it does not hold for the next"""
        d = frozenset(z for z in c.lits if s in z[0].sites)
        if d and c.line is not None and s not in c.line.sites:
            return c.but(lits=c.lits - d)
        return c

    def aged(self, c, s):
        ch = {}
        m = c.mode
        if len(m) > 1:
            nm = tuple(Alias.age(y, s) if isinstance(y, frozenset) else y for y in m)
            if nm != m:
                ch["mode"] = nm
        if c.cur:
            i, ti, li = c.cur
            nc = (Alias.age(i, s), Alias.age(ti, s), Alias.lage(li, s))
            if nc != c.cur:
                ch["cur"] = nc
        nn = Alias.lage(c.n, s)
        if nn != c.n:
            ch["n"] = nn
        return c.but(**ch) if ch else c

    def widened(self, c, pairs):
        ch = {}
        m = c.mode
        if len(m) > 1:
            nm = tuple(Alias.widen(y, pairs) if isinstance(y, frozenset) else y for y in m)
            if nm != m:
                ch["mode"] = nm
        if c.cur:
            i, ti, li = c.cur
            nc = (Alias.widen(i, pairs), Alias.widen(ti, pairs), Alias.lwiden(li, pairs))
            if nc != c.cur:
                ch["cur"] = nc
        nn = Alias.lwiden(c.n, pairs)
        if any(o == 0 and b is not None and b.op == "phi" for b, o in nn):
            nn = frozenset((b, o) for b, o in nn if b is not None and abs(o) < 2)
        if nn != c.n:
            ch["n"] = nn
        return c.but(**ch) if ch else c

    def push(self, c, ev, x, st, ei):
        o = base(x[0])
        y = x[1]
        if o is self.reqs:
            return [c.but(outs=c.outs + (("req", y),))]
        if o is self.errs:
            return [c.but(outs=c.outs + (("err", y),))]
        if is_agg(y, "adt") and short(y.a[1]) == "Reference" and o.op in ("obj", "oldobj"):
            return [c.but(outs=c.outs + (("ref", o, y),), full=c.full | {o})]
        return [c]

    # ------------------------------------------------------------ comparison of one line
    def settle(self, c, ev, st, ei):
        """the line is over: the reference handles it, in every way the path leaves open"""
        res = []
        lits = dict(c.lits)
        for kind in self.kinds(c, lits):
            for exp, nxt in self.react(c, kind, lits):
                msg = self.compare(c, exp, nxt, kind)
                if isinstance(msg, tuple):
                    self.bad(msg[0], msg[1], ev, st, ei)
                    continue
                res.append(msg)
        return list(dict.fromkeys(res))

    def kinds(self, c, lits):
        if (t("readerr"), True) in c.lits:
            return [("ioerr",)]
        L = c.line
        empty, one, nl = t("empty", L), (t("eq", C("int", 1), t("len", L)), t("eq", t("len", L), C("int", 1))), app("starts_with", L, C("str", "\n"))
        eqnl = (t("eq", L, C("str", "\n")), t("eq", C("str", "\n"), L))
        hash_ = app("starts_with", L, C("str", "#"))
        R, H, A, B, Q = m_("requirement", L), m_("heading", L), m_("attribute", L), t("empty", app("trim", L)), m_("reference", L)

        def ok(**want):
            for name, val in want.items():
                for a in {"empty": (empty,), "one": one, "nl": (nl,), "eqnl": eqnl, "R": (R,), "H": (H, hash_), "A": (A,), "B": (B,), "Q": (Q,)}[name]:
                    w = lits.get(a)
                    if w is not None and w != val:
                        return False
            return True

        out = []
        if ok(empty=True, one=False, nl=False, eqnl=False, R=False, H=False, A=False, B=True, Q=False):
            out.append(("eof",))
        if ok(empty=False, one=True, nl=True, eqnl=True, R=False, H=False, A=False, B=True, Q=False):
            out.append(("empty",))
        if ok(empty=False, one=False, nl=False, eqnl=False, R=True, H=True, A=False, B=False):
            out.append(("req",))
        if ok(empty=False, nl=False, eqnl=False, R=False, H=True, A=False, B=False):
            out.append(("heading",))
        # other lines: an implementation that asks only some of the questions has to be right for every answer
        if ok(empty=False, eqnl=False, R=False, H=False) and not (any(lits.get(a) for a in one) and lits.get(nl)):
            for a, b, q in ((True, False, False), (True, False, True), (False, True, False), (False, False, True), (False, False, False)):
                if ok(A=a, B=b, Q=q):
                    out.append(("line", a, b, q))
        return out

    def react(self, c, kind, lits):
        """[(expected outputs, next state)]"""
        L = c.line
        m = c.mode
        k = kind[0]
        nxt = c.but(outs=(), lits=frozenset(), line=None, full=frozenset(o for o in c.full if o.op == "obj" or o is c.cov or o is c.dep))
        fin = []
        if m[0] in ("desc", "descnl"):
            fin = [("attr", frozenset([C("str", "Description")]), m[2])]
        elif m[0] == "text":
            fin = [("attr", m[1], m[2])]
        commit = [("req", c.cur, c.cov, c.dep)] if c.cur else []
        gone = dict(cur=None, cov=None, dep=None, anyattr=False)
        if k == "ioerr":
            return [([("ioerr", L)] + fin + commit, nxt.but(mode=("end",), **gone))]
        if k == "eof":
            return [(fin + commit, nxt.but(mode=("end",), **gone))]
        if k == "heading":
            return [(fin + commit, nxt.but(mode=LOOK, **gone))]
        if k == "req":
            cur = (frozenset([cap("requirement", L, 2)]),
                   frozenset([app("trim", cap("requirement", L, 3)), cap("requirement", L, 3)]), c.n)
            return [(fin + commit, nxt.but(mode=("desc0",), cur=cur, cov=None, dep=None, anyattr=False))]
        if k == "empty":
            nl = C("str", "\n")
            if m[0] in ("desc", "descnl"):
                return [([], nxt.but(mode=("descnl", m[1], frozenset(cat(e, nl) for e in m[2]))))]
            if m[0] == "text":
                return [([], nxt.but(mode=("text", m[1], frozenset(cat(e, nl) for e in m[2]), True)))]
            if m[0] == "refs":
                return [([], nxt.but(mode=("attr0",)))]
            return [([], nxt)]
        _, isattr, blank, isref = kind
        if m[0] == "look":
            return [([], nxt)]
        if m[0] == "desc" or not isattr and m[0] == "descnl":
            return [([], nxt.but(mode=("desc", None, frozenset(cat(e, L) for e in m[2]))))]
        if m[0] == "desc0" and not isattr:
            return [([], nxt.but(mode=("desc", None, frozenset([L]))))]
        if m[0] in ("desc0", "descnl", "attr0", "text") and isattr:
            return [(fin + e, n) for e, n in self.attribute(c, nxt, lits, bool(fin) or c.anyattr)]
        if m[0] == "attr0":
            return [([("format",)], nxt.but(mode=LOOK))]
        if m[0] == "text":
            if m[3]:
                sep = any(lits.get(app("ends_with", e, C("str", "\n"))) is False and lits.get(t("empty", e)) is not True for e in m[2])
                seps = [sep]
            else:
                e0 = [lits.get(t("empty", e)) for e in m[2] if lits.get(t("empty", e)) is not None]
                e1 = any(lits.get(app("ends_with", e, C("str", "\n"))) for e in m[2])
                if e1 or any(e0):
                    seps = [False]
                elif e0:
                    seps = [True]
                else:
                    seps = [True, False]
            return [([], nxt.but(mode=("text", m[1], frozenset(cat(e, C("str", "\n"), L) if s else cat(e, L) for e in m[2]), True))) for s in seps]
        if m[0] == "refs":
            if isref:
                return [([("ref", m[1], L)], nxt)]
            if blank:
                return [([], nxt.but(mode=("attr0",)))]
            return [([("format",)], nxt.but(mode=LOOK))]
        return [([], nxt)]

    def attribute(self, c, nxt, lits, anyattr):
        L = c.line
        K, V = cap("attribute", L, 1), cap("attribute", L, 2)

        def isk(name):
            s = C("str", name)
            for a in (t("eq", K, s), t("eq", s, K)):
                if a in lits:
                    return lits[a]
            return None

        ic, id_ = isk("Covers"), isk("Depends")
        out = []
        keys = frozenset([K])
        for name, me, other, f in (("Covers", ic, id_, "cov"), ("Depends", id_, ic, "dep")):
            if me is not False and not other:
                dup = getattr(c, f) is not None
                e = [("maydup" if getattr(c, f) == "any" else "dup", keys | {C("str", name)})] if dup else []
                n = nxt.but(mode=("refs", f), **{f: "any" if dup else getattr(c, f)})
                out.append((e + [("short", f, V)], n))
        if not ic and not id_:
            has = None
            for a, v in lits.items():
                if a.op == "has" and a.a[1] is K:
                    has = v
            if not anyattr:
                if has:
                    return []  # nothing is in an empty map
                has = False
            for dup in (True, False):
                if has is None or has is dup:
                    out.append(([("dup", keys)] if dup else [], nxt.but(mode=("text", keys, frozenset([V]), False))))
        return out

    def compare(self, c, exp, nxt, kind):
        what = {"ioerr": "a read error", "eof": "the end of the file", "empty": "an empty line", "heading": "a heading",
                "req": "a requirement heading"}.get(kind[0])
        if what is None:
            what = "an attribute line" if kind[1] else "a blank line" if kind[2] else "a reference line" if kind[3] else "a line of text"
        at = "at %s, %s: " % (what, {"look": "outside of requirements (or after a line that is not understood)" if c.cur else "outside of requirements",
                                     "desc0": "right after a requirement heading", "desc": "in a description",
                                     "descnl": "after an empty line in a description", "attr0": "between attributes",
                                     "text": "in a text attribute", "refs": "in a list of references", "end": "at the end"}[c.mode[0]])
        outs = list(c.outs)
        ch = {}
        # short list of references
        short_ = [e for e in exp if e[0] == "short"]
        if short_:
            f, V = short_[0][1:]
            r = self.short_list(c, next((o for o in outs if o[0] == "list"), None), at, nxt, f, ch)
            if r:
                return r
            exp = [e for e in exp if e[0] != "short"]
        outs = [o for o in outs if o[0] not in ("elem", "list")]
        for e in exp:
            hit = None
            why = None
            for o in outs:
                r = self.fits(c, e, o, nxt, ch)
                if r is True:
                    hit = o
                    break
                if r:
                    why = r
            if hit is None and e[0] == "maydup":
                continue
            if hit is None:
                if e[0] == "req" and why is None and kind[0] in ("eof", "ioerr") and c.mode[0] == "look":
                    return ("text", "the requirement that was being read is dropped when the file ends after a line that was not understood")
                if why is not None:
                    return (why[0], at + why[1])
                return ("text", at + self.missing(e))
            outs.remove(hit)
        for o in outs:
            return ("text", at + self.extra(c, o))
        if any(e[0] == "attr" for e in exp) and nxt.cur:
            ch["anyattr"] = True
        return nxt.but(**ch) if ch else nxt

    def missing(self, e):
        return {
            "req": "the requirement read so far is not put out",
            "attr": "the text read so far is not kept as attribute",
            "ref": "the reference is not recorded",
            "format": "the line is not understood but no error is reported",
            "ioerr": "the error is not reported",
            "dup": "an attribute given twice is not reported",
        }[e[0]]

    def extra(self, c, o):
        if o[0] == "req":
            return "a requirement is put out: %s" % show(o[1])[:80]
        if o[0] == "attr":
            return "attribute %s is set to %s" % (show(o[2])[:60], show(o[3])[:80])
        if o[0] == "ref":
            return "a reference is recorded: %s" % show(o[2])[:100]
        return "an error is reported: %s" % show(o[1])[:60]

    def here(self, c, x, who):
        """x: a Location of the current line?"""
        return self.at(x, c.n, who)

    def at(self, x, n, who):
        if not (is_agg(x, "adt") and short(x.a[1]) == "Location"):
            return ("loc", "the location of %s is %s" % (who, show(x)[:60]))
        f = self.names(x)
        if f.get("file") is not PATH:
            return ("loc", "the location of %s names %s instead of the file that is read" % (who, show(f.get("file"))[:60]))
        y = f.get("location_in_file")
        if y is not None and is_agg(y, "adt") and y.a[2] == "Some":
            y = y.a[3]
            if is_agg(y, "adt") and y.a[2] in ("Line", "LineAndColumn"):
                l = y.a[3]
                b, o = lin(l)
                if (b, o) in n or any(nb is b and no == o for nb, no in n):
                    return None
                d = [o - no for nb, no in n if nb is b]
                return ("loc", "the location of %s is %s" % (who, "off by %d lines" % d[0] if d else "not the line it was found on"))
        return ("loc", "the location of %s has no line" % who)

    def fits(self, c, e, o, nxt, ch):
        if e[0] == "req" and o[0] == "req":
            x = o[1]
            if not (is_agg(x, "adt") and short(x.a[1]) == "Requirement"):
                return ("text", "a requirement of unknown content is put out: %s" % show(x)[:80])
            f = self.names(x)
            i, ti, li = e[1]
            if f["id"] not in i:
                return ("text", "the requirement has id %s" % show(f["id"])[:100])
            y = f["title"]
            if not (is_agg(y, "adt") and y.a[2] == "Some" and y.a[3] in ti):
                return ("text", "the requirement has title %s" % show(y)[:100])
            r = self.at(f["location"], li, "a requirement")
            if r:
                return r
            for s, want in (("covers", e[2]), ("depends", e[3])):
                b = base(f[s])
                if want == "any":
                    continue
                if want is None or want == "none":
                    if b in c.full:
                        return ("text", "the requirement has %s references that were not written for it" % s)
                elif b is not want:
                    return ("text", "the %s references of the requirement are not the ones written for it" % s)
            return True
        if e[0] == "attr" and o[0] == "attr":
            if o[2] not in e[1]:
                return ("text", "text is kept as attribute %s" % show(o[2])[:80])
            if o[3] not in e[2]:
                return ("text", "attribute %s gets text %s" % (show(o[2])[:40], show(o[3])[:160]))
            return True
        if e[0] == "ref" and o[0] == "ref":
            L = e[2]
            x = o[2]
            f = self.names(x)
            if f["id"] is not cap(self.refrole, L, 1):
                return ("text", "a reference is recorded with id %s" % show(f["id"])[:80])
            cs = t("capset", t("caps", rxt(self.refrole), L), C("int", 2))
            w = dict(c.lits).get(cs)
            y = f["title"]
            if is_agg(y, "adt") and y.a[2] == "Some":
                if y.a[3] is not cap(self.refrole, L, 2) or w is False:
                    return ("text", "a reference is recorded with title %s" % show(y)[:80])
            elif is_agg(y, "adt") and y.a[2] == "None":
                if w is not False:
                    return ("text", "a reference is recorded without its title")
            elif not (y.op == "opt" and y.a[0] is cs and y.a[1] is cap(self.refrole, L, 2)):
                return ("text", "a reference is recorded with title %s" % show(y)[:80])
            r = self.here(c, f["location"], "a reference")
            if r:
                return r
            return self.into(c, nxt, e[1], o[1], ch) or True
        if o[0] == "err":
            x = o[1]
            v = x.a[2] if is_agg(x, "adt") else None
            if e[0] == "format":
                if v != "Format":
                    return None
                return self.here(c, x.a[3], "an error") or True
            if e[0] in ("dup", "maydup"):
                if v != "DuplicateAttribute":
                    return None
                f = list(x.a[3:])
                r = self.here(c, f[0], "an error")
                if r:
                    return r
                if f[1] not in e[1] or c.cur and f[2] not in c.cur[0]:
                    return ("text", "an attribute given twice is reported as %s of %s" % (show(f[1])[:60], show(f[2])[:60]))
                return True
            if e[0] == "ioerr":
                if v != "Io":
                    return None
                if x.a[3] is not PATH:
                    return ("loc", "a read error is reported for %s" % show(x.a[3]))
                if e[1] not in x.a[4].subs:
                    return ("text", "a read error is reported as %s" % show(x.a[4])[:60])
                return True
        return None

    def into(self, c, nxt, f, o, ch):
        """references of this section go to list o"""
        have = ch.get(f, getattr(nxt, f))
        if have == "any" or have is o:
            return None
        if have is not None and have != "none":
            return ("text", "references of one list are kept in different places")
        other = getattr(nxt, "dep" if f == "cov" else "cov")
        if other is o:
            return ("text", "covers and depends references are kept in one list")
        ch[f] = o
        return None

    def item(self, c, ev, st, ei, ended):
        """an item of `Depends: A, B` is over"""
        i = None
        for j, o in enumerate(c.outs):
            if o[0] == "elem":
                i = j
        rest = c.outs if i is None else c.outs[:i]
        mark = next((o for o in rest if o[0] == "list"), ("list", None, False))
        rest = tuple(o for o in rest if o[0] != "list")
        to = mark[1]
        if i is not None:
            cur = c.outs[i][1]
            msg = None
            done = False
            for o in c.outs[i + 1:]:
                if o[0] != "ref":
                    rest += (o,)
                    continue
                msg = msg or self.item_ref(c, cur, o, done, to)
                done = True
                to = o[1]
            if not done and not self.blank(dict(c.lits), cur):
                msg = ("text", "a reference in a comma separated list is not recorded")
            if msg:
                self.bad(msg[0], msg[1], ev, st, ei)
                return None
        return c.but(outs=rest + (("list", to, ended),))

    def item_ref(self, c, cur, o, done, to):
        x = self.names(o[2])
        if x["id"] is not app("trim", cur):
            return ("text", "a reference in a comma separated list is recorded with id %s" % show(x["id"])[:80])
        if not (is_agg(x["title"], "adt") and x["title"].a[2] == "None"):
            return ("text", "a reference without title is recorded with title %s" % show(x["title"])[:80])
        if done:
            return ("text", "a reference in a comma separated list is recorded twice")
        if self.blank(dict(c.lits), cur) is not False:
            return ("text", "a reference with an empty id is recorded")
        if to is not None and to is not o[1]:
            return ("text", "references of one list are kept in different places")
        return self.here(c, x["location"], "a reference")

    def short_list(self, c, mark, at, nxt, f, ch):
        """`Depends: A, B` on one line"""
        if mark is None or not mark[2]:
            return ("text", at + "the references that follow on the same line are not read to the end")
        if mark[1] is not None:
            r = self.into(c, nxt, f, mark[1], ch)
            if r:
                return (r[0], at + r[1])
        return None

    def blank(self, lits, e):
        return lits.get(t("empty", app("trim", e)))

    def end(self, c, ev, st, ei):
        r = [c] if c.line is None else self.settle(c, ev, st, ei)
        for y in r:
            if y.mode[0] != "end":
                self.bad("text", "the parser returns before the end of the file", ev, st, ei)

    # ------------------------------------------------------------ results
    def report(self, ck, tag):
        res = Result()
        res.states = self.states
        res.rounds = self.nexit
        if tag == "ids":
            res.bad = {k: b for k, (b, _) in self.bads.items() if k[0] == "text" and ("id " in k[1] or "reference is not recorded" in k[1])}
        else:
            res.bad = {k: b for k, (b, _) in self.bads.items() if k[0] == tag}
        ck.absorb(res, self.label + ": %s, on every sequence of lines" % {
            "text": "requirements, attributes, references and errors put out equal those of the reference reader",
            "ids": "every id that the documented pattern finds is read, whole and unchanged",
            "loc": "every location names the file that is read and the line it was found on"}[tag])


class Mono(Markdown):
    label = "single-requirement parser"
    entry = "parsers::monoreq::parse"
    refrole = "link"

    def sources(self, ev):
        return ev.k in ("read", "ioerr") or ev.k in ("elem", "iterend") and self.is_lines(self.c(ev.raw.a[1]))

    def is_lines(self, s):
        return s.op == "app" and s.a[0] == "lines"

    def initial(self):
        return M(mode=("title",), cur=None, n=frozenset([(None, 0)]), outs=(), lits=frozenset(), cov=None, dep=None,
                 full=frozenset(), anyattr=False, line=None)

    def step(self, c, ev, what, x, st, ei):
        if what == "elem" and self.is_lines(x[1]) or what == "iterend" and self.is_lines(x[1]):
            r = [c] if c.line is None else self.settle(c, ev, st, ei)
            if what == "iterend":
                return [self.aged(y.but(line=t("eof"), lits=frozenset(), mode=("eof",) + y.mode), x[0]) for y in r]
            E = x[2]
            n = lambda y: frozenset({(t("idx", E), 1)} | {(b, o + 1) for b, o in y.n if -3 <= o < 3})
            return [y.but(line=E, n=n(y), lits=frozenset()) for y in r]
        if what == "advance" and c.line is not None and c.line.op == "elem" and c.line.a[0] == x[0]:
            return [self.aged(y, x[0]) for y in self.settle(c, ev, st, ei)]
        if what == "assume" and c.line is not None and c.line.op == "elem" and self.counted(c, x[0]) == (not x[1]):
            return []  # the path takes another element for the first
        if what in ("push", "assume") and c.line is None:
            c = c.but(line=t("nothing"))
        return Markdown.step(self, c, ev, what, x, st, ei)

    def counted(self, c, a):
        """truth of a comparison of the element's index with a constant, from the number of lines read"""
        if a.op not in ("eq", "lt", "le", "gt", "ge") and not (a.op == "app" and a.a[0] in ("lt", "le", "gt", "ge", "eq")):
            return None
        op, xs = (a.op, a.a) if a.op != "app" else (a.a[0], a.a[1:])
        i = t("idx", c.line)
        k = [o - 1 for b, o in c.n if b is None]
        lo, hi = (k[0], k[0]) if k else (3, 1 << 60)
        r = []
        for y in xs:
            if y is i:
                r.append((lo, hi))
            elif is_c(y, "int"):
                r.append((int(y.a[1]), int(y.a[1])))
            else:
                return None
        (a0, a1), (b0, b1) = r
        if op == "eq":
            return True if a0 == a1 == b0 == b1 else False if a1 < b0 or b1 < a0 else None
        if op in ("gt", "ge"):
            (a0, a1), (b0, b1) = (b0, b1), (a0, a1)
        if op in ("lt", "gt"):
            return True if a1 < b0 else False if a0 >= b1 else None
        return True if a1 <= b0 else False if a0 > b1 else None

    def text(self, L):
        if L.op == "elem" or L.op == "prev":
            return t("fld", t("dc", L, "Ok"), "0")
        return L

    def kinds(self, c, lits):
        if (t("readerr"), True) in c.lits:
            return [("ioerr",)]
        if c.line.op in ("eof", "nothing"):
            return [(c.line.op,)]
        out = []
        if c.line.op == "ext":
            e = lits.get(t("empty", c.line))
            if e is not False:
                out.append(("eof",))
            if e:
                return out
        else:
            v = lits.get(t("var", c.line))
            if v is None or "Err" in v:
                out.append(("ioerr",))
            if v == frozenset(("Err",)):
                return out
        m = lits.get(m_("link", self.text(c.line)))
        return out + [("line", q) for q in (True, False) if m is None or m is q]

    def react(self, c, kind, lits, final=False):
        m = c.mode
        k = kind[0]
        nxt = c.but(outs=(), lits=frozenset(), line=None)
        L = c.line
        if m[0] == "eof":
            m = m[1:]
        nxt = nxt.but(mode=m)
        if k in ("eof", "nothing"):
            return [([], nxt.but(mode=("eof",) + m))]
        if k == "ioerr":
            return [([("ioerr", L)], nxt.but(mode=("eof",) + m))]
        if m[0] == "title":
            return [([], nxt.but(mode=("body", frozenset([self.text(L)]))))]
        if kind[1]:
            return [([("ref", "dep", self.text(L))], nxt)]
        return [([], nxt)]

    def settle(self, c, ev, st, ei, final=False):
        res = []
        lits = dict(c.lits)
        for kind in self.kinds(c, lits):
            for exp, nxt in self.react(c, kind, lits):
                outs = c.outs
                if final:
                    req = [o for o in outs if o[0] == "req"]
                    rest = tuple(o for o in outs if o[0] != "req")
                    titles = nxt.mode[-1] if nxt.mode[-1] != "title" else None
                    stem = self.stem(c)
                    if nxt.mode[0] != "eof":
                        self.bad("text", "the parser returns before the end of the file", ev, st, ei)
                    if len(req) != 1:
                        self.bad("text", "%d requirements are put out" % len(req), ev, st, ei)
                        continue
                    if not stem:
                        exp = exp + [("config",)]
                else:
                    rest, req = outs, []
                msg = self.compare(c.but(outs=rest), exp, nxt, kind)
                if isinstance(msg, tuple):
                    self.bad(msg[0], msg[1], ev, st, ei)
                    continue
                for o in req:
                    r = self.whole(c, msg, o[1], titles, stem)
                    if r:
                        self.bad(r[0], r[1], ev, st, ei)
                res.append(msg)
        return list(dict.fromkeys(res))

    def stem(self, c):
        return not any(a.op == "app" and a.a[0] == "has_file_stem" and v is False for a, v in c.lits)

    def about_text(self, c, a):
        return a.op == "app" and a.a[0] == "has_file_stem" or a.op == "var" and a.a[0] is c.line

    def whole(self, c, nxt, x, titles, stem):
        if not (is_agg(x, "adt") and short(x.a[1]) == "Requirement"):
            return ("text", "a requirement of unknown content is put out: %s" % show(x)[:80])
        f = self.names(x)
        if stem and f["id"] is not app("file_stem", PATH):
            return ("text", "the requirement is not named after the file but %s" % show(f["id"])[:80])
        y = f["title"]
        if is_agg(y, "adt") and y.a[2] == "None":
            if titles is not None:
                return ("text", "the requirement has no title although a line was read")
        elif not (is_agg(y, "adt") and y.a[2] == "Some" and titles is not None and y.a[3] in titles):
            return ("text", "the title of the requirement is not the first line: %s" % show(y)[:100])
        l = f["location"]
        if not (is_agg(l, "adt") and short(l.a[1]) == "Location") or self.names(l).get("file") is not PATH:
            return ("loc", "the location of the requirement does not name the file that is read: %s" % show(l)[:80])
        if base(f["covers"]) in nxt.full:
            return ("text", "references are kept as covers")
        b = base(f["depends"])
        if nxt.dep is None:
            if b in nxt.full:
                return ("text", "the requirement has references that were not written")
        elif b is not nxt.dep:
            return ("text", "the references that were read are not those of the requirement")
        return None

    def compare(self, c, exp, nxt, kind):
        at = {"ioerr": "at a read error: ", "eof": "at the end of the file: ", "nothing": ""}.get(kind[0])
        if at is None:
            at = "at the first line: " if c.mode[0] == "title" else "at a reference line: " if kind[1] else "at a line without reference: "
        outs = list(c.outs)
        ch = {}
        for e in exp:
            hit = why = None
            for o in outs:
                r = self.fits(c, e, o, nxt, ch)
                if r is True:
                    hit = o
                    break
                why = r or why
            if hit is None:
                return (why[0], at + why[1]) if why else ("text", at + self.missing(e))
            outs.remove(hit)
        for o in outs:
            return ("text", at + self.extra(c, o))
        return nxt.but(**ch) if ch else nxt

    def missing(self, e):
        return "no error is reported for a path without name" if e[0] == "config" else Markdown.missing(self, e)

    def fits(self, c, e, o, nxt, ch):
        if e[0] == "config":
            return o[0] == "err" or None
        if e[0] == "ioerr" and o[0] == "err":
            x = o[1]
            if not (is_agg(x, "adt") and x.a[2] == "Io"):
                return None
            if x.a[3] is not PATH:
                return ("loc", "a read error is reported for %s" % show(x.a[3]))
            if not any(y.op == "dc" and y.a[1] == "Err" or y.op == "readerr" for y in x.a[4].subs):
                return ("text", "a read error is reported as %s" % show(x.a[4])[:60])
            return True
        return Markdown.fits(self, c, e, o, nxt, ch)

    def end(self, c, ev, st, ei):
        if c.line is None:
            c = c.but(line=t("nothing"))
        self.settle(c, ev, st, ei, True)


# ------------------------------------------------------------------ the grammar of ids
ID_ROLES = {
    "parsers::markdown::parse": (("requirement", 2, "requirement headings"), ("reference", 1, "references")),
    "parsers::monoreq::parse": (("link", 1, "fat arrow links"),),
}


def grammar(ctx, ck):
    """ids are read with exactly the documented pattern, wherever one is read"""
    for entry, roles in ID_ROLES.items():
        pats = sorted(y.a[1].a[1] for y in regexes(ctx.view(entry)) if is_c(y.a[1], "str"))
        ck.cover["obligations"] += len(roles)
        left = set(pats)
        missing = []
        for role, g, what in roles:
            hit = undecided = None
            for p in pats:
                r = rx.equivalent(p, SPEC_RX[role], group=(g, g))
                if r is True:
                    hit = p
                elif r is None:
                    undecided = p
            if hit is not None:
                left.discard(hit)
                ck.rules.append("%s: the ids of %s are matched by %r, equivalent to the documented grammar" % (entry, what, hit))
            elif undecided is not None:
                ck.notes.append("%s: the pattern %r is not decided" % (entry, undecided))
            else:
                missing.append((role, g, what))
        for role, g, what in missing:
            best = None
            for p in left:
                if rx.role(p, SPEC_RX) in SPEC_RX:
                    continue
                try:
                    n = rx.compile_(p)[1]
                    m = rx.compile_(SPEC_RX[role])[1]
                except Exception:
                    continue
                if n == m:
                    best = (p, rx.equivalent(p, SPEC_RX[role], group=(g, g)))
            if best is None:
                ck.notes.append("%s: %s are not read by a regular expression" % (entry, what))
            else:
                ck.fail("grammar", "%s: the ids of %s are read by %r, which treats the line %r differently from the documented %r"
                        % (entry, what, best[0], best[1], SPEC_RX[role]), (entry, "", 0))
