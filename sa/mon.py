"""Round monitors over the abstract transition system of one entry point.

A *round* is the part of a path during which a given set of collection elements is bound (one relation, one
requirement of its upper artefact, one of that requirement's references ...).  A rule says what must and what may
happen in every round, depending on what the path has decided (literals), and that every round is reached.
Rounds are named by the canonical element names of norm.py, so it does not matter which loop, iterator chain or helper
function produces them.
"""
import copy
from terms import *
from norm import Norm, el, F, els

# ------------------------------------------------------------------ conditions (Kleene logic over literals)
YES = ("yes",)
NO = ("no",)


def And(*f):
    return ("and",) + f


def Or(*f):
    return ("or",) + f


def Not(f):
    return ("not", f)


def Atom(a):
    return ("atom", a, True)


def Var(x, *names):
    return ("var", t("var", x), frozenset(names))


def Flag(name):
    return ("flag", name)


def ev3(f, lits, flags=frozenset()):
    k = f[0]
    if k == "yes":
        return True
    if k == "no":
        return False
    if k == "not":
        r = ev3(f[1], lits, flags)
        return None if r is None else not r
    if k in ("and", "or"):
        stop = k == "or"
        unk = False
        for g in f[1:]:
            r = ev3(g, lits, flags)
            if r is stop:
                return stop
            unk = unk or r is None
        return None if unk else not stop
    if k == "atom":
        return lits.get(f[1])
    if k == "flag":
        return f[1] in flags
    if k == "var":
        v = lits.get(f[1])
        if v is None or not isinstance(v, frozenset):
            return None
        if v <= f[2]:
            return True
        if not (v & f[2]):
            return False
        return None
    raise ValueError(k)


def atoms_of(f):
    if f[0] in ("atom", "var"):
        return {f[1]}
    r = set()
    for g in f[1:]:
        if isinstance(g, tuple):
            r |= atoms_of(g)
    return r


def fshow(f):
    k = f[0]
    if k in ("yes", "no"):
        return k
    if k == "not":
        return "not " + fshow(f[1])
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(fshow(g) for g in f[1:]) + ")"
    if k == "atom":
        return show(f[1])
    if k == "flag":
        return f[1]
    return "%s in %s" % (show(f[1].a[0]), "|".join(sorted(f[2])))


class NE:
    """a normalised event"""

    __slots__ = ("k", "a", "raw", "tgt", "base", "binds", "sites")

    def __repr__(self):
        return "%s(%s)" % (self.k, ", ".join(show(x) if x.__class__ is T else str(x) for x in self.a))

    @property
    def loc(self):
        return self.raw.loc


EMPTYING = ("remove", "clear", "pop", "mut", "discard", "retained", "keep", "assign", "new")


class View:
    """an analysed entry point with canonical names"""

    def __init__(self, run, **kw):
        self.run = run
        self.N = Norm(run, **kw)
        self.prog = run.prog
        self.cache = {}
        self.amemo = {}
        self.succ = {}
        self.edges = []
        for s, d, evs in run.edges:
            i = len(self.edges)
            evs = [self.ne(ev) for ev in evs]
            self.edges.append((s, d, evs))
            if any(ev.k == "cut" and harmless_cut(self, ev) for ev in evs):
                continue  # lists of the same length do not end at different times
            self.succ.setdefault(s, []).append(i)
        self.nsteps = 0
        self.correlate()

    # -- what an iteration that came to its end says about every element
    def universals(self):
        """site -> (element, conditions every element met when the iteration came to its end)"""
        elem = {}
        for _, _, evs in self.edges:
            for ev in evs:
                if ev.k == "elem":
                    elem.setdefault(ev.a[0], set()).add(ev.a[2])
        self.elsites = {}
        for s, vs in elem.items():
            for v in vs:
                self.elsites.setdefault(v, set()).add(s)
        elem = {s: next(iter(v)) for s, v in elem.items() if len(v) == 1}
        elem = {s: v for s, v in elem.items() if v.op == "el" and not v.objs}
        by = {}
        for _, _, evs in self.edges:
            for ev in evs:
                if ev.k == "assume" and not ev.raw.a[0].objs and not ev.a[0].objs:
                    for s in ev.sites:
                        if s in elem and elem[s] in ev.a[0].subs and self.about(ev, elem[s]):
                            by.setdefault((elem[s], ev.a[0]), set()).add(s)
        want = {}
        for (v, n), sites in by.items():
            if len(sites) > 1:
                for s in sites:
                    want.setdefault(s, set()).add(n)
        # tables that hold an entry for every element when the iteration that fills them is over
        asked = {}
        for _, _, evs in self.edges:
            for ev in evs:
                h = self.held(ev)
                if h is not None:
                    asked.setdefault(h, set()).add(ev.sites)
        tables = {}
        if asked:
            for _, _, evs in self.edges:
                for ev in evs:
                    if ev.k == "insert" and ev.base is not None:
                        h = t("has", ev.base, ev.a[1])
                        for s in ev.sites:
                            if h in asked and s in elem and elem[s] in ev.a[1].subs and any(s not in x for x in asked[h]):
                                tables.setdefault(s, set()).add(h)
                                want.setdefault(s, set())
        out = {}
        for s, ns in want.items():
            best = None
            st = {}
            work = []

            def step(cur, evs):
                nonlocal best
                for ev in evs:
                    if ev.k in ("advance", "iterend", "begin") and ev.a[0] == s:
                        if cur is not None and ev.k != "begin":
                            best = cur if best is None else best & cur
                        cur = None
                    elif ev.k == "elem" and ev.a[0] == s:
                        if cur is not None:
                            best = cur if best is None else best & cur
                        cur = frozenset()
                    elif cur is not None and ev.k == "assume" and ev.a[0] in ns and s in ev.sites and self.about(ev, elem[s]):
                        cur = cur | {ev.a}
                    elif cur is not None and ev.k == "insert" and ev.base is not None and s in tables and s in ev.sites:
                        h = t("has", ev.base, ev.a[1])
                        if h in tables[s]:
                            cur = cur | {(h, True)}
                    elif cur and ev.k in EMPTYING and s in tables:
                        cur = frozenset(x for x in cur if not (x[0].op == "has" and x[0].a[0] is ev.base))
                return cur

            def go(d, cur):
                if cur is None or d == -1:
                    return
                old = st.get(d)
                new = cur if old is None else old & cur
                if old is None or new != old:
                    st[d] = new
                    work.append(d)

            for n, l in self.succ.items():
                for ei in l:
                    _, d, evs = self.edges[ei]
                    if any(ev.k == "elem" and ev.a[0] == s for ev in evs):
                        go(d, step(None, evs))
            while work:
                n = work.pop()
                for ei in self.succ.get(n, ()):
                    _, d, evs = self.edges[ei]
                    go(d, step(st[n], evs))
            if best:
                out[s] = (elem[s], best)
        return out

    def held(self, ev):
        """the question whether a table has an entry for the element at hand"""
        if ev.k != "assume" or not (ev.a[0].op == "in" and ev.a[0].a[0] is ev.a[0].a[1] or ev.a[0].op == "has"):
            return None
        r = ev.raw.a[0]
        if r.op != "has" or base(r.a[0]).op != "obj":
            return None
        return t("has", base(r.a[0]), ev.a[0].a[1])

    def about(self, ev, v):
        """the condition is about one element of the list, not about two of them"""
        return len(ev.sites & self.elsites[v]) == 1

    def asked_later(self, both):
        """(node, question): after the node it is asked whether the list is empty, before it is walked through again"""
        pred = {}
        for n, l in self.succ.items():
            for ei in l:
                pred.setdefault(self.edges[ei][1], []).append(ei)
        live = set()
        for x, q in both.items():

            def asks(evs):
                for ev in evs:
                    if ev.k == "assume" and ev.a[0] is q:
                        return True
                    if ev.k == "elem" and any(w in q.subs for w in ev.binds or ()):
                        return False
                return None

            work = []
            stop = set()
            for n, l in self.succ.items():
                for ei in l:
                    r = asks(self.edges[ei][2])
                    if r is not None:
                        stop.add(ei)
                    if r and (n, q) not in live:
                        live.add((n, q))
                        work.append(n)
            while work:
                for ei in pred.get(work.pop(), ()):
                    n = self.edges[ei][0]
                    if ei not in stop and (n, q) not in live:
                        live.add((n, q))
                        work.append(n)
        return live

    def correlate(self):
        """drop paths on which an element does not meet what was found for all elements of the same list before"""
        U = self.universals()
        # lists that are asked for being empty and walked through as well
        both = {ev.a[1] for _, _, evs in self.edges for ev in evs if ev.k == "elem"}
        both = {x: t("empty", x) for x in both if x.__class__ is T and not x.objs}
        qs = {ev.a[0] for _, _, evs in self.edges for ev in evs if ev.k == "assume" and ev.a[0].op == "empty"}
        both = {x: q for x, q in both.items() if q in qs}
        if not U and not both:
            return
        live = self.asked_later(both)
        run = self.run
        ids = {}
        edges, succ = [], {}

        def node(n, u):
            if u and both:
                u = frozenset(x for x in u if x[2] is not None or (n, x[0]) in live)
            r = ids.get((n, u))
            if r is None:
                r = ids[(n, u)] = len(ids)
                work.append((n, u))
            return r

        work = []
        start = node(run.start, frozenset())
        while work:
            n, u0 = work.pop()
            for ei in self.succ.get(n, ()):
                _, d, evs = self.edges[ei]
                u = u0
                dead = False
                for ev in evs:
                    if ev.k == "assume" and u:
                        a, y = ev.a
                        h = self.held(ev)
                        for b, z, v in u:
                            if b.op == "empty" and v is None:
                                dead = dead or b is a and y is not z
                            elif (b is a or b is h) and self.about(ev, v) and (not y & z if isinstance(y, frozenset) and isinstance(z, frozenset) else y != z):
                                dead = True
                        if dead:
                            break
                    elif ev.k == "elem" and ev.a[1] in both:
                        if ev.binds:
                            u = frozenset(x for x in u if not any(w is not x[2] and w in x[0].subs for w in ev.binds))
                        u = u | {(both[ev.a[1]], False, None)}
                    elif ev.k == "elem" and u and ev.binds:
                        u = frozenset(x for x in u if not any(w is not x[2] and w in x[0].subs for w in ev.binds))
                    elif ev.k in EMPTYING and u:
                        u = frozenset(x for x in u if not (x[0].op == "has" and x[0].a[0] is ev.base))
                    elif ev.k == "iterend" and (ev.a[0] in U or ev.a[1] in both):
                        q = both.get(ev.a[1])
                        if q is not None and (q, False, None) not in u:
                            u = u | {(q, True, None)}
                        v, ls = U.get(ev.a[0], (None, ()))
                        u = u | {(b, z, v) for b, z in ls}
                if dead:
                    continue
                s2 = ids[(n, u0)]
                succ.setdefault(s2, []).append(len(edges))
                edges.append((s2, -1 if d == -1 else node(d, u), evs))
        self.run = copy.copy(run)
        self.run.start = start
        ex = {}
        for x in run.exits:
            ex.setdefault(x[0], []).append(x)
        self.run.exits = [(i,) + tuple(x[1:]) for (n, u), i in ids.items() for x in ex.get(n, ())]
        self.edges, self.succ = edges, succ

    def ne(self, ev):
        key = (ev.k, ev.a)
        r = self.cache.get(key)
        if r is not None:
            if r.raw is ev:
                return r
            n = NE()
            n.k, n.a, n.tgt, n.base, n.binds, n.sites = r.k, r.a, r.tgt, r.base, r.binds, r.sites
            n.raw = ev
            return n
        n = NE()
        n.k = ev.k
        n.raw = ev
        n.binds = ()
        n.sites = EMPTY
        if ev.k in ("begin", "advance"):
            n.a = ev.a
        elif ev.k == "assume":
            n.a = self.lit(ev.a[0], ev.a[1])
        else:
            n.a = tuple(self.nn(x) for x in ev.a)
        n.tgt = n.base = None
        if ev.k == "elem":
            n.binds = frozenset(self.binds(ev.a[2]))
        for x in ev.a:
            if x.__class__ is T and x.sites:
                n.sites = n.sites | x.sites
        if ev.k in ("push", "insert", "remove", "clear", "pop", "mut", "reorder", "placed", "backward", "discard", "keep", "retained", "write", "strpush", "assign"):
            n.tgt = n.a[0]
            if n.tgt.__class__ is T:
                n.base = n.tgt.a[0] if n.tgt.op == "objref" else n.tgt
        self.cache[key] = n
        return n

    def nn(self, x):
        if x.__class__ is T:
            return self.N.norm(x)
        if isinstance(x, tuple):
            return tuple(self.nn(y) for y in x)
        return x

    def binds(self, E):
        """canonical elements that visiting raw element E fixes anew"""
        N = self.N
        r = set(els(N.norm(E)))
        for y in subterms(E):
            if y.op == "elem" and y is not E:
                r -= els(N.norm(y))
        # an object made in a round holds what belongs to that round
        o = E.a[1]
        if o.op == "obj":
            r -= N.param_els(o)
        return r

    def atom(self, a):
        r = self.amemo.get(a)
        if r is None:
            n = self.N.norm(a)
            r = self.amemo[a] = self.canon(n)
        return r

    def canon(self, n):
        if n.op == "not":
            return t("not", self.canon(n.a[0]))
        if n.op in ("has", "had"):
            u = self.N.unify(n.a[0], n.a[1])
            if u is not None:
                return t("in", u[0], n.a[1])
            if n.op == "had":
                return t("has", *n.a)
        return n

    def lit(self, a, v):
        n = self.atom(a)
        while n.op == "not":
            n, v = n.a[0], not v
        return n, v


class Bad:
    def __init__(self, rule, msg, where, path=()):
        self.rule = rule
        self.msg = msg
        self.where = where
        self.path = path

    def key(self):
        return "%s: %s" % (self.rule, self.msg)

    def text(self):
        return "%s [%s:%s in %s]" % (self.key(), self.where[1], self.where[2], self.where[0])


def nolits(a):
    return False


class Result:
    def __init__(self):
        self.bad = {}
        self.chains = set()
        self.rounds = 0
        self.outs = 0
        self.states = 0
        self.usedobjs = set()


def explore(view, V, rel, on, done, rule, exempt=None, flags0=frozenset(), outside=None, only=None, probing=False):
    """Follow every abstract path; `on(flags, ev, lits)` folds the events of an active round, `done(flags, lits)`
    judges it when it ends (None = fine, else a message).  `outside(ev)` judges events when no round is active.
    `only`: the sets of iterations whose rounds count (a second pass over the same elements for another purpose is not a
    round of this rule)."""
    res = Result()
    V = frozenset(V)
    run = view.run
    want = {}

    def relv(raw, n, sites):
        return rel(n)

    start = (run.start, (), (frozenset(), frozenset(), flags0) if not V else None)
    parent = {start: None}
    work = [start]
    exits = {n: v for n, v, _ in run.exits}
    while work:
        st = work.pop()
        node, stack, act = st
        for ei in view.succ.get(node, ()):
            s, d, evs = view.edges[ei]
            stk, ac = stack, act
            for ev in evs:
                k = ev.k
                if k in ("advance", "iterend", "begin"):
                    site = ev.a[0]
                    if k == "iterend" and ac is not None:
                        f = on(ac[2], ev, ac[1])
                        if f is not ac[2]:
                            ac = (ac[0], ac[1], f)
                    if any(x[0] == site for x in stk):
                        stk = tuple(x for x in stk if x[0] != site)
                        if ac is not None and site in ac[0]:
                            judge(res, view, rule, done, ac, ev, parent, st, ei)
                            ac = None
                    if k == "begin" and ac is not None:
                        f = on(ac[2], ev, ac[1])
                        if f is not ac[2]:
                            ac = (ac[0], ac[1], f)
                    continue
                if k == "elem":
                    b = ev.binds & V
                    if stk and ev.binds:
                        # elements of an element that was left behind are gone with it
                        keep = ac[0] if ac is not None else ()
                        stk = tuple(x for x in stk if x[0] in keep or x[0] == ev.a[0] or not stale(x[1], ev.binds))
                    if b:
                        stk = tuple(x for x in stk if x[0] != ev.a[0]) + ((ev.a[0], b),)
                        if ac is None:
                            own = {}
                            for site, bb in stk:
                                for v in bb:
                                    own[v] = site
                            if len(own) == len(V):
                                sites = frozenset(own.values())
                                if only is not None and sites not in only:
                                    continue
                                lits = {}
                                shadow = {x[0] for x in stk} - sites
                                for a, v in ev.raw.facts.items():
                                    if a.sites & shadow:
                                        continue
                                    n, v = view.lit(a, v)
                                    if rel(n) and n not in lits:
                                        lits[n] = v
                                for a in view.N.constraints(ev.raw.a[1]):
                                    if rel(a):
                                        lits[a] = True
                                ac = (sites, frozenset(lits.items()), flags0)
                                res.rounds += 1
                    if ac is not None:
                        f = on(ac[2], ev, ac[1])
                        if f is not ac[2]:
                            ac = (ac[0], ac[1], f)
                    continue
                if k == "assume":
                    if ac is not None:
                        n, v = ev.a
                        if rel(n) and not (ev.sites & ({x[0] for x in stk} - ac[0])):
                            cur = dict(ac[1])
                            old = cur.get(n)
                            if old is None:
                                cur[n] = v
                                ac = (ac[0], frozenset(cur.items()), ac[2])
                            elif isinstance(v, frozenset) and isinstance(old, frozenset) and old & v and old & v != old:
                                cur[n] = old & v
                                ac = (ac[0], frozenset(cur.items()), ac[2])
                        f = on(ac[2], ev, ac[1])
                        if f is not ac[2]:
                            ac = (ac[0], ac[1], f)
                    continue
                if ac is not None:
                    f = on(ac[2], ev, ac[1])
                    if f is not ac[2] and probing and elsewhere(view, V, ac[0], stk, ev):
                        f = ac[2]
                    if f is not ac[2]:
                        if isinstance(f, str):
                            add(res, view, rule, f, ev, parent, st, ei)
                            f = ac[2]
                        else:
                            res.outs += 1
                            res.chains.add(tuple(
                                (x[0], x[1]) for x in stk
                                if x[0] in ac[0] or any((x[0], z) in run.zips for z in ac[0])))
                        ac = (ac[0], ac[1], f)
                elif outside is not None:
                    m = outside(ev)
                    if m:
                        add(res, view, rule, m, ev, parent, st, ei)
            if d == -1:
                continue
            if d in exits:
                if ac is not None and not (exempt is not None and exempt(exits[d], evs)):
                    judge(res, view, rule, done, ac, evs[-1] if evs else None, parent, st, ei)
                continue
            n = (d, stk, ac)
            if n not in parent:
                parent[n] = (st, ei)
                work.append(n)
    res.states = len(parent)
    view.nsteps += len(parent)
    return res


def elsewhere(view, V, sites, stk, ev):
    """the event is about an element that another iteration over the same elements has bound meanwhile"""
    named = {y.a[0] for x in ev.raw.a if x.__class__ is T for y in x.subs if y.op == "elem"}
    for v in V:
        by = {x[0] for x in stk if v in x[1]}
        if by & sites and by & named and not by & named & sites:
            return True
    return False


def stale(vs, binds):
    return any(v is not w and contains(v, w) for v in vs for w in binds if w not in vs)


def judge(res, view, rule, done, ac, ev, parent, st, ei):
    m = done(ac[2], dict(ac[1]))
    if m:
        add(res, view, rule, m, ev, parent, st, ei)


def add(res, view, rule, m, ev, parent, st, ei):
    if m in res.bad:
        return
    path = []
    cur = (st, ei)
    n = 0
    while cur is not None and n < 400:
        s, e = cur
        path.append(e)
        cur = parent[s]
        n += 1
    path.reverse()
    steps = []
    for e in path:
        for x in view.edges[e][2]:
            if x.k in ("assume", "elem", "push", "insert", "remove", "write", "panic", "iterend"):
                steps.append("%s:%s %s" % (x.loc[1], x.loc[2], repr(x)[:200]))
    where = ev.loc if ev is not None else ("", "", 0)
    res.bad[m] = Bad(rule, m, where, steps[-60:])


# ------------------------------------------------------------------ the standard rule
class Check:
    """collects the outcome of the rules of one property"""

    def __init__(self):
        self.bad = []
        self.rules = []
        self.cover = {"rounds": 0, "outputs": 0, "product_states": 0, "obligations": 0}
        self.notes = []

    def absorb(self, res, what):
        self.cover["rounds"] += res.rounds
        self.cover["outputs"] += res.outs
        self.cover["product_states"] += res.states
        self.cover["obligations"] += 1
        self.bad += list(res.bad.values())
        self.rules.append(what)

    def fail(self, rule, msg, where=("", "", 0)):
        self.bad.append(Bad(rule, msg, where))

    def merge(self, o):
        self.bad += o.bad
        self.rules += o.rules
        self.notes += o.notes
        for k, v in o.cover.items():
            self.cover[k] = self.cover.get(k, 0) + v


def vac_atoms(view, srcs):
    """literals under which there is nothing to visit in the given (raw) sources"""
    out = {}
    for src in srcs:
        for y in subterms(src):
            if y.op == "get":
                n, v = view.lit(t("has", *y.a), False)
                out[n] = v
            elif y.op == "dc" and y.a[1] == "Some":
                out[view.atom(t("var", y.a[0]))] = frozenset(("None",))
            elif y.op == "opt":
                n, v = view.lit(y.a[0], False)
                out[n] = v
        n, v = view.lit(t("empty", src), True)
        out[n] = v
    return out


def vmatch(w, v):
    return w is not None and (w == v or isinstance(v, frozenset) and isinstance(w, frozenset) and w <= v)


def site_srcs(view):
    m = getattr(view, "_srcs", None)
    if m is None:
        m = {}
        for _, _, evs in view.edges:
            for ev in evs:
                if ev.k in ("iterend", "elem"):
                    m.setdefault(ev.a[0], set()).add(ev.raw.a[1])
        view._srcs = m
    return m


def rule(ck, view, name, V, out, must, may=None, exempt=None, strict=True, events=None, dup_ok=True, scope=None, base_ok=None, noop=None):
    """In every round of V: `out(ev)` happens if `must`, and only if `may` (default: must).
    `out(ev)` returns True (the specified output), False (unrelated) or a message (an output of this kind that is not
    what the specification asks for).  `events(ev)` names events that conditions may refer to as flags."""
    if may is None:
        may = must
    V = frozenset(V)
    want = atoms_of(must) | atoms_of(may)
    memo = {}

    def outm(ev):
        k = id(ev.raw)
        r = memo.get(k)
        if r is None:
            r = out(ev)
            memo[k] = r
        return r

    def on(flags, ev, lits):
        if ev.k in ("elem", "assume", "begin", "iterend"):
            if noop is not None and ev.k == "assume" and noop(ev):
                return flags | {"out"}
            if events is None:
                return flags
        r = outm(ev)
        if r is True:
            if "out" in flags:
                if not dup_ok:
                    return "%s: reported twice in one round" % name
                return flags
            flags = flags | {"out"}
        elif r:
            return r
        if events is not None:
            n = events(ev)
            if n:
                flags = flags | {n}
        return flags

    def done(flags, lits):
        if "out" in flags:
            r = ev3(may, lits, flags)
            if r is not True:
                return "%s happens although the path %s: %s" % (
                    name, "excludes it" if r is False else "has not established the condition", fshow(may))
        else:
            r = ev3(must, lits, flags)
            if r is not False:
                return "%s is missing on a path where %s: %s" % (
                    name, "it is required" if r else "the condition was not excluded", fshow(must))
        return None

    def outside(ev):
        r = outm(ev)
        if r is True:
            return "%s happens outside of its scope" % name
        return r or None

    probe = explore(view, V, nolits, lambda f, ev, l: f if ev.k in ("elem", "assume", "begin", "iterend") or outm(ev) is not True else f | {id(ev.raw)}, lambda f, l: None, name, probing=True)
    only = {effective(ch) for ch in probe.chains}
    res = explore(view, V, lambda a: a in want, on, done, name, exempt, outside=outside if strict else None, only=only or None)
    if not res.outs and must != NO:
        ck.fail(name, "%s is never produced" % name)
    ck.absorb(res, "%s: in each round over {%s}: if %s; only if %s" % (
        name, ", ".join(sorted(show(v) for v in V)), fshow(must), fshow(may)))
    complete(ck, view, name, V, res.chains, must, exempt)
    return res


def harmless_cut(view, ev):
    """a zip of a list with one that was built from it element by element"""
    if len(ev.raw.a) < 3:
        return False
    a = els(view.N.norm(ev.raw.a[1]))
    return all(el(view.N.norm(s)) in a for s in ev.raw.a[2:])


def lost(ev, objs):
    """an event that takes entries out of one of these containers (and not into another of them)"""
    return ev.base in objs and not (ev.k == "clear" and len(ev.a) > 1 and base(ev.a[1]) in objs)


def walk(ck, view, name, init, step, final=None, panics=None):
    """Follow every abstract path with a monitor: step(state, ev) -> state or a message (str); final(state, ret)."""
    res = Result()
    start = (view.run.start, init)
    parent = {start: None}
    work = [start]
    exits = {n: v for n, v, _ in view.run.exits}
    while work:
        st = work.pop()
        node, m = st
        for ei in view.succ.get(node, ()):
            s, d, evs = view.edges[ei]
            c = m
            for ev in evs:
                r = step(c, ev)
                if isinstance(r, str):
                    add(res, view, name, r, ev, parent, st, ei)
                elif r is not None:
                    if r is not c:
                        res.outs += 1
                    c = r
            if d == -1:
                continue
            if d in exits:
                res.rounds += 1
                if final is not None:
                    v = exits[d]
                    r = final(c, view.N.norm(v) if v is not None else None)
                    if r:
                        add(res, view, name, r, evs[-1] if evs else None, parent, st, ei)
                continue
            n = (d, c)
            if n not in parent:
                parent[n] = (st, ei)
                work.append(n)
    res.states = len(parent)
    view.nsteps += len(parent)
    ck.absorb(res, name)
    return res


def effective(ch):
    own = {}
    for s, b in ch:
        for v in b:
            own[v] = s
    return frozenset(own.values())


def complete(ck, view, name, V, chains, must=YES, exempt=None):
    """every round of V is visited: each enclosing round runs the next inner iteration to its end"""
    level = {}
    prefs = {}
    for ch in chains:
        seen = set()
        done_ = []
        rem = [c for c in ch if c[1]]
        # effective binders only (innermost per variable), in stack order
        own = {}
        for s, b in rem:
            for v in b:
                own[v] = s
        order = [s for s, b in rem if any(own[v] == s for v in b)]
        for s in order:
            level.setdefault(frozenset(seen), set()).add(s)
            for z, b in rem:
                if z not in order and ((z, s) in view.run.zips or (s, z) in view.run.zips):
                    level[frozenset(seen)].add(z)
            prefs.setdefault(frozenset(seen), set()).add(frozenset(done_))
            seen |= {v for v in own if own[v] == s}
            done_.append(s)
    srcs = site_srcs(view)
    want0 = atoms_of(must)
    for pre, sites in level.items():
        vac = vac_atoms(view, [x for s in sites for x in srcs.get(s, ())])
        want = set(vac) | want0
        found = finders(view, must, sites)

        def on(flags, ev, lits, sites=sites):
            if ev.k == "iterend" and ev.a[0] in sites:
                return flags | {"visited"}
            if ev.k == "cut" and not harmless_cut(view, ev):
                return flags | {"cut"}
            return flags

        def done(flags, lits, vac=vac, sites=sites, found=found):
            if "visited" in flags and "cut" not in flags:
                return None
            if any(lits.get(a) is True for a in found):
                return None
            for a, v in vac.items():
                if vmatch(lits.get(a), v):
                    return None
            if ev3(must, lits) is False:
                return None
            src = sorted({show(view.N.norm(x)) for s in sites for x in srcs.get(s, ())})
            return "%s: not every element of %s is visited" % (name, " / ".join(src))

        res = explore(view, pre, lambda a, w=want: a in w, on, done, name, exempt, only=prefs[pre])
        ck.absorb(res, "%s: completeness of the iteration over %s" % (
            name, " / ".join(sorted({show(view.N.norm(x)) for s in sites for x in srcs.get(s, ())}))))


def is_map(view, src):
    o = base(view.nn(src))
    if o.op == "obj":
        adds = [ev for _, _, evs in view.edges for ev in evs if ev.k in ("push", "insert") and ev.base is o]
        return bool(adds) and all(ev.k == "insert" and len(ev.a) == 3 for ev in adds)
    return view.nn(t("key", el(o))).op != "key"


def finders(view, must, sites):
    """conditions of `must` that only one element of the map visited at `sites` can meet: its key is a given one"""
    parts = [must] if must[0] != "and" else list(must[1:])
    out = set()
    keys = set()
    mine = set()
    for _, _, evs in view.edges:
        for ev in evs:
            if ev.k == "elem" and ev.a[0] in sites:
                E = ev.raw.a[2]
                mine |= els(view.nn(E))
                if is_map(view, ev.raw.a[1]):
                    keys.add(view.nn(t("key", E)))
    for f in parts:
        if f[0] == "atom" and f[1].op == "eq" and f[2] is True:
            x, y = f[1].a
            for p, q in ((x, y), (y, x)):
                own = {e for e in mine if e in p.subs and not any(e in d.subs and d is not e for d in mine)}
                if p in keys and not any(e in q.subs for e in own):
                    out.add(f[1])
    return out


# ------------------------------------------------------------------ containers and what flows into them
class Flow:
    """which abstract containers end up (unchanged, element by element) in a given result container"""

    def __init__(self, view):
        self.view = view
        self.adds = {}
        for _, _, evs in view.edges:
            for ev in evs:
                if ev.k in ("push", "insert") and ev.base is not None:
                    self.adds.setdefault(ev.base, {})[(ev.k, ev.raw.a)] = ev

    def relays(self, o):
        """containers whose elements are pushed into o unchanged: {source base: [site]}"""
        out = {}
        N = self.view.N
        for ev in self.adds.get(o, {}).values():
            raws = ev.raw.a[1:]
            for r in raws:
                x = r
                while x.op in ("key", "val"):
                    x = x.a[0]
                if x.op == "elem":
                    b = N.norm(x.a[1])
                    b = b.a[0] if b.op == "objref" else b
                    if b.op == "obj" and b is not o:
                        out.setdefault(b, set()).add(x.a[0])
        for src in N.cloned.get(o, ()):
            b = N.norm(src)
            b = b.a[0] if b.op == "objref" else b
            if b.op == "obj":
                out.setdefault(b, set())
        return out

    def sinks(self, o):
        seen = []
        todo = [o]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.append(x)
            todo += list(self.relays(x))
        return seen


def base(x):
    return x.a[0] if x.op == "objref" else x


def ret_fields(view, adt, accept=lambda v: True):
    """field name -> set of values over all return values that build `adt`"""
    out = {}
    for v in view.run.retvals:
        for y in subterms(v):
            if is_agg(y, "adt") and short(y.a[1]) == adt:
                names = view.prog.field_names(view.run.crate, y.a[1], y.a[2])
                for n, f in zip(names, y.a[3:]):
                    out.setdefault(n, set()).add(view.N.norm(f))
    return out


# ------------------------------------------------------------------ one iteration
def relay_rule(ck, view, o, site):
    """each element visited at `site` is put into container o, and the visit is complete"""

    def out(ev):
        return ev.k in ("push", "insert") and ev.base is o and site in ev.sites

    site_rule(ck, view, "move into #%s" % o.a[0], {site}, out)


def site_rule(ck, view, name, sites, out, exempt=None, whole_=True):
    """each element visited at one of `sites` leads to an output, and the visit is complete"""
    bad = {}
    res = Result()
    for site in sites:
        start = (view.run.start, None)
        parent = {start: None}
        work = [start]
        exits = {n: v for n, v, _ in view.run.exits}
        while work:
            st = work.pop()
            node, act = st
            for ei in view.succ.get(node, ()):
                s, d, evs = view.edges[ei]
                ac = act
                for ev in evs:
                    if ev.k in ("advance", "iterend", "begin") and ev.a[0] == site:
                        if ac == 0:
                            add(res, view, name, "%s is missing for an element" % name, ev, parent, st, ei)
                        ac = None
                    elif ev.k == "elem" and ev.a[0] == site:
                        ac = 0
                        res.rounds += 1
                    else:
                        r = out(ev)
                        if r is True:
                            res.outs += 1
                            if ac is None:
                                add(res, view, name, "%s happens outside of its scope" % name, ev, parent, st, ei)
                            else:
                                ac = 1
                        elif r:
                            add(res, view, name, r, ev, parent, st, ei)
                if d == -1:
                    continue
                if d in exits:
                    if ac == 0 and not (exempt is not None and exempt(exits[d], evs)):
                        add(res, view, name, "%s is missing for an element" % name, evs[-1], parent, st, ei)
                    continue
                n = (d, ac)
                if n not in parent:
                    parent[n] = (st, ei)
                    work.append(n)
        res.states += len(parent)
    ck.absorb(res, "%s: once for each element visited at site(s) %s" % (name, sorted(sites)))
    for s in sites if whole_ else ():
        complete_site(ck, view, name, s, sites, exempt)


def complete_site(ck, view, name, site, sites, exempt=None):
    """whenever the enclosing iteration has an element, the visit at `site` (or its siblings) runs to its end"""
    outer = view.N.innermost(site)
    same = {s for s in sites if view.N.innermost(s) == outer}
    srcs = site_srcs(view)
    vac = vac_atoms(view, [x for s in same for x in srcs.get(s, ())])
    res = Result()
    start = (view.run.start, frozenset() if outer is None else None)
    parent = {start: None}
    work = [start]
    exits = {n: v for n, v, _ in view.run.exits}
    msg = "%s: not every element is visited" % name

    def close(ac, ev, st, ei):
        if ac is not None and "visited" not in ac:
            add(res, view, name, msg, ev, parent, st, ei)

    while work:
        st = work.pop()
        node, act = st
        for ei in view.succ.get(node, ()):
            s, d, evs = view.edges[ei]
            ac = act
            for ev in evs:
                if outer is not None and ev.k in ("advance", "iterend", "begin") and ev.a[0] == outer:
                    close(ac, ev, st, ei)
                    ac = None
                elif outer is not None and ev.k == "elem" and ev.a[0] == outer:
                    ac = frozenset()
                    res.rounds += 1
                    for a, v in ev.raw.facts.items():
                        n, v = view.lit(a, v)
                        if n in vac and vmatch(v, vac[n]):
                            ac = frozenset(("visited",))
                elif ac is not None:
                    if ev.k == "iterend" and ev.a[0] in same:
                        ac = ac | {"visited"}
                    elif ev.k == "assume" and ev.a[0] in vac and vmatch(ev.a[1], vac[ev.a[0]]):
                        ac = ac | {"visited"}
            if d == -1:
                continue
            if d in exits:
                if not (exempt is not None and exempt(exits[d], evs)):
                    close(ac, evs[-1] if evs else None, st, ei)
                continue
            n = (d, ac)
            if n not in parent:
                parent[n] = (st, ei)
                work.append(n)
    res.states = len(parent)
    ck.absorb(res, "%s: completeness of the visit" % name)


# ------------------------------------------------------------------ obligations
def obligations(ck, view, name, trigger, settle, final=None, start=()):
    """Whenever trigger(ev) opens an obligation (key, description), settle(ev, key) must hold for a later event before
    the elements the key mentions are left behind, or before the function returns (final(key, ret) may accept it)."""
    res = Result()
    run = view.run
    s0 = (run.start, frozenset(start))
    parent = {s0: None}
    work = [s0]
    exits = {n: v for n, v, _ in run.exits}
    total = 0
    while work:
        st = work.pop()
        node, pend = st
        for ei in view.succ.get(node, ()):
            s, d, evs = view.edges[ei]
            p = pend
            for ev in evs:
                if ev.k in ("advance", "iterend", "begin") and p:
                    site = ev.a[0]
                    late = [o for o in p if site in o[2]]
                    for o in late:
                        # an iteration's end may itself settle what was opened inside it
                        if ev.k == "iterend" and settle(ev, o[0]):
                            pass
                        else:
                            add(res, view, name, o[1], ev, parent, st, ei)
                        p = p - {o}
                if p:
                    done_ = {o for o in p if settle(ev, o[0])}
                    if done_:
                        p = p - done_
                        res.outs += len(done_)
                for o in trigger(ev) or ():
                    key, msg = o[0], o[1]
                    sites = o[2] if len(o) > 2 else frozenset()
                    for x in ([] if len(o) > 2 else key):
                        if x.__class__ is T:
                            sites = sites | x.sites
                    p = p | {(key, msg, frozenset(sites))}
                    res.rounds += 1
            if d == -1:
                continue
            if d in exits:
                ret = view.N.norm(exits[d]) if exits[d] is not None else None
                for o in p:
                    if not (final is not None and final(o[0], ret)):
                        add(res, view, name, o[1], evs[-1] if evs else None, parent, st, ei)
                continue
            n = (d, p)
            if n not in parent:
                parent[n] = (st, ei)
                work.append(n)
    res.states = len(parent)
    view.nsteps += len(parent)
    ck.absorb(res, name)
    return res
