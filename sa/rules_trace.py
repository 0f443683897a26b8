"""Rules about trace::trace: which coverage, uncovered, derived and error entries a traced graph contains."""
from terms import *
from norm import el, F, els
from mon import *

G = t("sym", "graph")
ARTS = F(G, "artefacts")


def val(x):
    return t("val", x)


def get(m, k):
    return t("get", m, k)


A = val(el(ARTS))
R = val(el(F(A, "requirements")))
REL = el(F(G, "relations"))
UA = get(ARTS, F(REL, "upper"))
eU = el(F(UA, "requirements"))
U = val(eU)
D = el(F(U, "depends"))
L = el(F(REL, "lower"))
LA = get(ARTS, L)
LR = get(F(LA, "requirements"), F(D, "id"))
el2 = el(F(LA, "requirements"))
l2 = val(el2)
C_ = el(F(l2, "covers"))
RC = el(F(R, "covers"))
RD = el(F(R, "depends"))

V_REL = {REL}
V_U = {REL, eU}
V_DOWN = {REL, eU, D, L}
V_DOWN2 = {REL, eU, D, L, el2}
V_UP = {REL, eU, L, el2, C_}
V_A = {el(ARTS)}
V_R = {el(ARTS), el(F(A, "requirements"))}

def eqa(a, b):
    if show(b) < show(a):
        a, b = b, a
    return t("eq", a, b)


DUP = Atom(t("in", F(R, "id"), F(R, "id")))
DOWN = Atom(t("has", F(LA, "requirements"), F(D, "id")))
DOWN2 = Atom(eqa(F(l2, "id"), F(D, "id")))
UP = Atom(eqa(F(C_, "id"), F(U, "id")))


def some_of(x):
    return t("fld", t("dc", x, "Some"), "0")


def variant(x, name=None):
    return is_agg(x, "adt") and (name is None or x.a[2] == name)


class Trace:
    def __init__(self, ctx):
        self.ctx = ctx
        self.view = ctx.view("trace::trace")
        v = self.view
        self.flow = Flow(v)
        rf = ret_fields(v, "TracedGraph")
        self.rf = rf
        self.problem = None

        def one(name):
            s = rf.get(name, set())
            if len(s) == 1 and next(iter(s)).op in ("obj", "objref"):
                return base(next(iter(s)))
            self.problem = "the result's field %s is not a container the analysis can follow" % name
            return None

        self.errors = one("errors")
        self.rels = one("traced_relations")
        self.der = one("derived")
        self.arts = one("artefacts")
        if self.problem:
            return
        self.err_sinks = set(self.flow.sinks(self.errors))
        self.cov = set()
        self.unc = set()
        for ev in self.all("push", "insert"):
            if ev.base is self.rels:
                x = ev.a[-1]
                if variant(x) and short(x.a[1]) == "TracedRelation":
                    names = v.prog.field_names("", x.a[1], x.a[2])
                    d = dict(zip(names, x.a[3:]))
                    self.cov.add(base(d["covered"]))
                    self.unc.add(base(d["uncovered"]))
        if len(self.cov) != 1 or len(self.unc) != 1:
            self.problem = "traced relations are not built from one covered and one uncovered list"
            return
        self.cov = set(self.flow.sinks(next(iter(self.cov))))
        self.unc = set(self.flow.sinks(next(iter(self.unc))))
        self.derived_sets = set()
        for ev in self.all("insert"):
            if ev.base is self.der:
                self.derived_sets |= set(self.flow.sinks(base(ev.a[2])))
        for ev in self.all("push", "insert"):
            pass

    def all(self, *ks):
        for _, _, evs in self.view.edges:
            for ev in evs:
                if ev.k in ks:
                    yield ev

    def fields(self, x):
        names = self.view.prog.field_names("", x.a[1], x.a[2])
        if not names:
            names = [str(i) for i in range(len(x.a) - 3)]
        return dict(zip(names, x.a[3:]))

    # ---- event classes
    def is_cov(self, ev, direction=None):
        if ev.k in ("push", "insert") and ev.base in self.cov:
            x = ev.a[-1] if ev.k == "push" else ev.a[1]
            if variant(x) and short(x.a[1]) == "Coverage":
                d = self.fields(x)
                return direction is None or variant(d["direction"], direction)
            return direction is None and not self.is_relay(ev)
        return False

    def is_relay(self, ev):
        x = ev.raw.a[1]
        while x.op in ("key", "val"):
            x = x.a[0]
        return x.op == "elem" and base(self.view.N.norm(x.a[1])).op == "obj"

    def source(self, ev):
        x = ev.raw.a[1]
        while x.op in ("key", "val"):
            x = x.a[0]
        return base(self.view.N.norm(x.a[1]))

    def expect(self, x, want):
        """compare an aggregate with the specified field values; None if equal, else a message"""
        d = self.fields(x)
        for n, w in want.items():
            if n not in d:
                return "%s has no field %s" % (short(x.a[2] or x.a[1]), n)
            ws = w if isinstance(w, (set, list, tuple)) else (w,)
            if d[n] not in ws:
                return "%s.%s is %s instead of %s" % (short(x.a[2] or x.a[1]), n, show(d[n]), show(list(ws)[0]))
        return None

    # ---- which tables does a rule read; are they complete?
    def tables(self, ck, objs, skip=()):
        """every table that the rules read through holds every entry of its kind"""
        v = self.view
        todo = list(objs)
        seen = set(skip)
        while todo:
            o = todo.pop()
            if o in seen or o.op != "obj":
                continue
            seen.add(o)
            groups = {}
            for ev in self.flow.adds.get(o, {}).values():
                k = ev.a[1] if ev.k == "insert" else None
                x = ev.a[-1]
                V = els(ev.a[1]) | els(x)
                groups.setdefault((frozenset(V), k), []).append(ev)
                for y in subterms(x):
                    if y.op == "obj":
                        todo.append(y)
            byV = {}
            for (V, k), evs in groups.items():
                byV.setdefault(V, []).append((k, evs))
            for V, lst in byV.items():
                if not V:
                    continue
                evset = {(e.k, e.raw.a) for _, evs in lst for e in evs}
                conds = [Not(DUP)]
                for k, _ in lst:
                    if k is not None:
                        conds.append(Not(Atom(v.canon(t("has", o, k)))))
                must = And(*conds)
                rule(ck, v, "entry of helper table #%s" % o.a[0], V,
                     lambda ev: (ev.k, ev.raw.a) in evset if ev.k in ("push", "insert") else False,
                     must, YES, strict=False)
        for ev in self.all("remove", "clear", "pop", "mut", "discard", "assign"):
            if ev.base in seen and ev.base not in skip:
                ck.fail("helper table", "entries are removed from a helper table (%s)" % ev.k, ev.loc)

    def objs_of(self, *evs):
        r = set()
        for ev in evs:
            for x in ev.raw.a:
                if x.__class__ is T:
                    r |= set(x.objs)
        return r

    def chain_objs(self, pred):
        """tables that the rounds of the given outputs iterate or look up"""
        r = set()
        v = self.view
        for ev in self.all("push", "insert", "remove"):
            if pred(ev):
                for x in ev.raw.a[1:]:
                    if x.__class__ is T:
                        r |= set(x.objs)
                for a in ev.raw.facts:
                    r |= set(a.objs)
        return {o for o in r if o.op == "obj"}

    def skip_objs(self):
        return self.err_sinks | self.cov | self.unc | {self.rels, self.der, self.arts} | self.derived_sets | self.pending()

    def pending(self):
        """sets from which links are removed again when they turn out to be valid"""
        r = set()
        for ev in self.all("remove"):
            if ev.base not in self.derived_sets:
                r.add(ev.base)
        return r

    # ---- properties
    def scoped(self, ck):
        """each relation's lists are its own, and each relation is reported"""
        v = self.view
        for s in self.cov | self.unc:
            sc = set()
            for site in v.N.newscope.get(s, ()):
                for E in v.N.elems.get(site, ()):
                    sc |= els(v.N.norm(E))
            if REL not in sc:
                ck.fail("relation lists", "a covered/uncovered list is shared between relations")
        rule(ck, v, "entry in traced_relations", V_REL,
             lambda ev: (self.expect(ev.a[-1], {"relation": REL}) or True) if ev.k in ("push", "insert") and ev.base is self.rels else False,
             YES, dup_ok=False)
        self.destroyed(ck, self.cov | self.unc | {self.rels})

    def destroyed(self, ck, objs, allow=()):
        for ev in self.all("remove", "clear", "pop", "mut", "discard", "assign"):
            if lost(ev, objs) and ev.k not in allow:
                ck.fail("result container", "entries of a result container are dropped again (%s)" % ev.k, ev.loc)

    def coverage(self, ck, direction):
        v = self.view
        self.scoped(ck)
        for ev in self.all("push", "insert"):
            if ev.base in self.cov and not self.is_relay(ev):
                x = ev.a[-1] if ev.k == "push" else ev.a[1]
                if not (variant(x) and short(x.a[1]) == "Coverage" and variant(self.fields(x)["direction"])):
                    ck.fail("coverage", "something that is not a recognised coverage entry is added", ev.loc)
        if direction == "Downwards":
            alts = [
                (V_DOWN, DOWN, {"upper": F(U, "id"), "lower": F(D, "id"), "location": F(D, "location")}),
                (V_DOWN2, DOWN2, {"upper": F(U, "id"), "lower": (F(D, "id"), F(l2, "id")), "location": F(D, "location")}),
            ]
        else:
            alts = [(V_UP, UP, {"upper": (F(U, "id"), F(C_, "id")), "lower": F(l2, "id"), "location": F(C_, "location")})]
        self.alts(ck, alts, lambda ev: self.is_cov(ev, direction), "coverage (%s)" % direction, lambda ev: ev.a[-1])

    def alts(self, ck, alts, pred, name, agg_of, dup_ok=True):
        best = None
        for V, cond, want in alts:
            c = Check()

            def out(ev):
                if not pred(ev):
                    return False
                if self.is_relay(ev):
                    return False
                return self.expect(agg_of(ev), want) or True

            rule(c, self.view, name, V, out, cond, dup_ok=dup_ok)
            if best is None or len(c.bad) < len(best.bad):
                best = c
            if not c.bad:
                break
        ck.merge(best)
        self.tables(ck, self.chain_objs(pred), self.skip_objs())

    def relays(self, ck, sinks):
        """elements moved between containers are all moved"""
        v = self.view
        for o in sinks:
            for p, sites in self.flow.relays(o).items():
                if p not in sinks:
                    continue
                for s in sites:
                    relay_rule(ck, v, o, s)

    def uncovered(self, ck):
        v = self.view
        self.scoped(ck)
        self.relays(ck, self.unc | self.cov)

        def out(ev):
            if ev.k in ("push", "insert") and ev.base in self.unc and not self.is_relay(ev):
                return True if ev.a[1] is F(U, "id") else "uncovered entry is %s instead of the upper requirement's id" % show(ev.a[1])
            return False

        rule(ck, v, "uncovered entry", V_U, out, Not(Flag("cov")),
             events=lambda ev: "cov" if self.is_cov(ev) else None, dup_ok=False)

    def unused(self, ck):
        v = self.view
        self.relays(ck, self.err_sinks)

        def out(ev):
            x = self.err(ev, "UnusedRelation")
            if x is None:
                return False
            return self.expect(x, {"0": REL}) or True

        rule(ck, v, "UnusedRelation error", V_REL, out, Not(Flag("cov")),
             events=lambda ev: "cov" if self.is_cov(ev) else None, dup_ok=False)

    def err(self, ev, name=None):
        if ev.k in ("push", "insert") and ev.base in self.err_sinks and not self.is_relay(ev):
            x = ev.a[1]
            if variant(x) and (name is None or x.a[2] == name):
                return x
        return None

    def known_errors(self, ck):
        known = {"DuplicateRequirement", "DependWithWrongTitle", "CoveredWithWrongTitle", "ReferencedWithoutTitle",
                 "UnusedRelation", "CoversUnknownRequirement", "DependOnUnknownRequirement"}
        for ev in self.all("push", "insert"):
            if ev.base in self.err_sinks and not self.is_relay(ev):
                x = ev.a[1]
                if not variant(x) or x.a[2] not in known:
                    ck.fail("tracing errors", "an error that no tracing rule asks for is added: %s" % show(x)[:80], ev.loc)
        self.destroyed(ck, self.err_sinks)
        self.relays(ck, self.err_sinks)

    def carried(self, ck):
        """the traced graph holds every artefact of the graph under its id"""
        v = self.view

        def out(ev):
            if ev.k in ("insert", "push") and ev.base is self.arts:
                if ev.a[1] not in (F(A, "id"), t("key", el(ARTS))):
                    return "an artefact is filed under %s" % show(ev.a[1])
                return True if ev.a[-1] is A else "the traced graph's artefact is %s" % show(ev.a[-1])[:80]
            return False

        rule(ck, v, "artefact carried over", V_A, out, YES)
        self.destroyed(ck, {self.arts})

    def titles(self, ck):
        v = self.view
        self.known_errors(ck)
        dt, ct = F(D, "title"), F(C_, "title")
        for V, cond, low in ((V_DOWN, DOWN, LR), (V_DOWN2, DOWN2, l2)):
            c = Check()
            lt = F(low, "title")
            same = And(Var(lt, "Some"), Atom(eqa(some_of(dt), some_of(lt))))
            rule(c, v, "DependWithWrongTitle error", V,
                 lambda ev: self.match(ev, "DependWithWrongTitle", {"upper": U, "lower": low, "wrong_title": some_of(dt), "location": F(D, "location")}),
                 And(cond, Var(dt, "Some"), Not(same)), dup_ok=False)
            rule(c, v, "ReferencedWithoutTitle error (depends)", V,
                 lambda ev: self.match(ev, "ReferencedWithoutTitle", {"referenced": low, "location": F(D, "location")}, ("location", F(D, "location"))),
                 And(cond, Var(dt, "None"), Atom(F(LA, "reference_with_title"))), dup_ok=False)
            if not c.bad or low is l2:
                break
            keep = c
        if c.bad and low is l2:
            c = keep
        ck.merge(c)
        ut = F(U, "title")
        same = And(Var(ut, "Some"), Atom(eqa(some_of(ct), some_of(ut))))
        rule(ck, v, "CoveredWithWrongTitle error", V_UP,
             lambda ev: self.match(ev, "CoveredWithWrongTitle", {"upper": U, "lower": l2, "wrong_title": some_of(ct), "location": F(C_, "location")}),
             And(UP, Var(ct, "Some"), Not(same)), dup_ok=False)
        rule(ck, v, "ReferencedWithoutTitle error (covers)", V_UP,
             lambda ev: self.match(ev, "ReferencedWithoutTitle", {"referenced": U, "location": F(C_, "location")}, ("location", F(C_, "location"))),
             And(UP, Var(ct, "None"), Atom(F(UA, "reference_with_title"))), dup_ok=False)
        for ev in self.all("push", "insert"):
            x = self.err(ev, "ReferencedWithoutTitle")
            if x is not None and self.fields(x)["location"] not in (F(D, "location"), F(C_, "location")):
                ck.fail("ReferencedWithoutTitle error", "its location is not that of the reference", ev.loc)
        pred = lambda ev: self.err(ev) is not None and self.err(ev).a[2] in ("DependWithWrongTitle", "CoveredWithWrongTitle", "ReferencedWithoutTitle")
        self.tables(ck, self.chain_objs(pred), self.skip_objs())

    def match(self, ev, name, want, only=None):
        x = self.err(ev, name)
        if x is None:
            return False
        if only is not None and self.fields(x).get(only[0]) is not only[1]:
            return False
        return self.expect(x, want) or True

    def duplicates(self, ck):
        v = self.view
        self.known_errors(ck)
        prev = None

        def out(ev):
            x = self.err(ev, "DuplicateRequirement")
            if x is None:
                return False
            d = self.fields(x)
            if d["1"] is not R:
                return "DuplicateRequirement.1 is %s, not the requirement found again" % show(d["1"])
            p = d["0"]
            if not (p.op == "val" and p.a[0].op == "some" and p.a[0].a[1] is F(R, "id") and p.a[0].a[0] is el(F(A, "requirements"))):
                return "DuplicateRequirement.0 is %s, not the requirement seen before under that id" % show(p)
            return True

        rule(ck, v, "DuplicateRequirement error", V_R, out, DUP, dup_ok=False)
        self.tables(ck, self.chain_objs(lambda ev: self.err(ev, "DuplicateRequirement") is not None), self.skip_objs())

    # ---- pending sets: derived, dangling references
    def derived(self, ck):
        v = self.view
        if not self.derived_sets:
            ck.fail("derived", "the derived sets could not be followed")
            return
        rule(ck, v, "derived list of the artefact", V_A,
             lambda ev: (True if ev.a[1] is F(A, "id") else "derived entry under key %s" % show(ev.a[1])) if ev.k == "insert" and ev.base is self.der else False,
             YES, dup_ok=False)
        self.destroyed(ck, {self.der})
        dsinks = self.derived_sets
        rid = F(R, "id")
        ign = Atom(F(A, "ignore_derived_requirements"))
        removal = [ev for ev in self.all("remove") if ev.base in dsinks]
        # what the candidates are filled from is a table, not a set of candidates
        pre = set()
        cand = {ev.base for ev in removal}
        while True:
            more = {self.source(ev) for ev in self.all("push", "insert")
                    if ev.base in cand | pre and self.is_relay(ev)} & dsinks - cand - pre
            if not more:
                break
            pre |= more
        dsinks = set(dsinks) - pre
        self.relays(ck, dsinks)
        fills = lambda ev: ev.k in ("insert", "push") and ev.base in dsinks and not (self.is_relay(ev) and self.source(ev) not in pre)
        if removal:
            rule(ck, v, "candidate for derived", V_R,
                 lambda ev: (True if ev.a[1] is rid else "derived candidate is %s" % show(ev.a[1]))
                 if fills(ev) else False,
                 And(Not(ign), Not(DUP)), Not(ign) if pre else And(Not(ign), Not(DUP)))
            if pre:
                rule(ck, v, "source of candidates for derived", V_R,
                     lambda ev: ev.k in ("insert", "push") and ev.base in pre, NO, Not(DUP))
            for ev in self.all("clear", "pop", "mut", "discard", "assign"):
                if lost(ev, dsinks):
                    ck.fail("derived", "derived candidates are dropped by %s" % ev.k, ev.loc)
            self.removals(ck, dsinks, "derived candidate", lambda x, low: x in low, own=True)
        else:
            self.seen_filter(ck, dsinks, ign)
        self.tables(ck, self.chain_objs(lambda ev: ev.base in dsinks) | pre, self.skip_objs() - pre)
        reads = lambda ev: (ev.k == "insert" and ev.base is self.der) or (
            ev.k in ("insert", "push") and ev.base in dsinks and not fills(ev))
        if removal:
            self.order(ck, "derived candidates", cand, ("insert", "push"), ("remove",), reads)

    def known(self, ev):
        m = self.__dict__.setdefault("_known", {})
        r = m.get(id(ev.raw))
        if r is None:
            r = m[id(ev.raw)] = {n for n, y in (self.view.lit(a, y) for a, y in ev.raw.facts.items()) if y is True}
            for x in ev.raw.a:
                for y in (x.subs if x.__class__ is T else ()):
                    if y.op == "elem":
                        r |= set(self.view.N.constraints(y.a[1]))
        return r

    def removals(self, ck, objs, what, keyok, own=False):
        """in every coverage round the entry of the covered link is removed, and nowhere else"""
        v = self.view

        def isrem(ev, lows, side=None, other=None):
            if ev.k != "remove" or ev.base not in objs:
                return False
            return ev.a[1] in lows and not (other is not None and other in self.known(ev) and side not in self.known(ev))

        def gone(ev, lows):
            # there is nothing to remove
            x, y = ev.raw.a
            while x.op == "not":
                x, y = x.a[0], not y
            if y is not False or x.op not in ("has", "in"):
                return False
            o, k = x.a if x.op == "has" else x.a[::-1]
            return (base(o) in objs or base(v.nn(o)) in objs) and v.nn(k) in lows

        down = isdown = None
        best = None
        for V, cond, lows in ((V_DOWN, DOWN, (F(D, "id"), F(LR, "id"))), (V_DOWN2, DOWN2, (F(D, "id"), F(l2, "id")))):
            c = Check()
            lows = [self.wrap(what, x, "D") for x in lows]
            rule(c, v, "%s removed when covered (Downwards)" % what, V, lambda ev: isrem(ev, lows, DOWN2[1], UP[1]), cond, noop=lambda ev: gone(ev, lows))
            if best is None or len(c.bad) < len(best.bad):
                best = c
            if not c.bad:
                break
        c2 = Check()
        ups = [self.wrap(what, F(l2, "id"), "U")]
        rule(c2, v, "%s removed when covered (Upwards)" % what, V_UP, lambda ev: isrem(ev, ups, UP[1], DOWN2[1]), UP, noop=lambda ev: gone(ev, ups))
        dn = [self.wrap(what, F(D, "id"), "D"), self.wrap(what, F(l2, "id"), "D")]
        if what == "derived candidate":
            ck.merge(best)
            ck.merge(c2)
            allowed = dn + ups
        elif what == "depends link":
            ck.merge(best)
            allowed = dn
        else:
            ck.merge(c2)
            allowed = ups
        for ev in self.all("remove"):
            if ev.base in objs:
                if ev.a[1] not in allowed:
                    ck.fail(what, "%s %s is removed without being covered" % (what, show(ev.a[1])), ev.loc)
                elif own and ev.tgt.op == "objref":
                    m = {ev.tgt.a[i]: ev.tgt.a[i + 1] for i in range(1, len(ev.tgt.a), 2)}
                    if m.get(A) is not LA:
                        ck.fail(what, "%s is removed from the wrong artefact's set" % what, ev.loc)

    def wrap(self, what, low, d):
        if what == "derived candidate":
            return low
        return self._pair(low, d)

    def _pair(self, low, d):
        return tup(F(U, "id"), low)

    def seen_filter(self, ck, dsinks, ign):
        """derived computed as: every requirement whose id is not in the set of covered ids"""
        v = self.view
        rid = F(R, "id")
        seen = set()
        for ev in self.all("insert", "push"):
            if ev.base in dsinks:
                for a in ev.raw.facts:
                    n = v.N.norm(a)
                    if n.op == "has" and base(n.a[0]).op == "obj" and n.a[1] is rid:
                        seen.add(base(n.a[0]))
        lows = (F(D, "id"), F(l2, "id"))
        seen = {s for s in seen if any(ev.base is s and ev.a[1] in lows for ev in self.all("insert", "push"))}
        if not seen:
            ck.fail("derived", "no rule found that takes covered requirements out of the derived list")
            return
        c = Check()
        rule(c, v, "covered requirement recorded (Downwards)", V_DOWN, lambda ev: ev.k in ("insert", "push") and ev.base in seen and ev.a[1] is F(D, "id"), DOWN)
        rule(c, v, "covered requirement recorded (Upwards)", V_UP, lambda ev: ev.k in ("insert", "push") and ev.base in seen and ev.a[1] is F(l2, "id"), UP)
        ck.merge(c)
        hit = [Atom(v.canon(v.N.norm(t("has", s, rid)))) for s in seen]
        raw = [Atom(t("has", s, rid)) for s in seen]
        ors = Or(*(hit + raw))
        want = And(Not(ign), Not(ors))
        rule(ck, v, "derived entry", V_R,
             lambda ev: (True if ev.a[1] is rid else "derived entry is %s" % show(ev.a[1]))
             if ev.k in ("insert", "push") and ev.base in dsinks and not self.is_relay(ev) else False,
             And(want, Not(DUP)), want)

    def order(self, ck, what, objs, fills, drains, results):
        """every candidate is entered before the first link is taken out again, and read off only after the last one"""
        v = self.view
        name = "%s: order of the phases" % what
        res = Result()
        exits = {n for n, _, _ in v.run.exits}
        start = (v.run.start, frozenset())
        parent = {start: None}
        work = [start]
        relsites = set()
        for ev in self.all("elem"):
            if REL in ev.binds:
                relsites.add(ev.a[0])
        dsites = {s for s in relsites for ev in self.all(*drains) if ev.base in objs and s in ev.sites}
        while work:
            st = work.pop()
            node, fl = st
            for ei in v.succ.get(node, ()):
                _, d, evs = v.edges[ei]
                f = fl
                for ev in evs:
                    if ev.k == "elem" and ev.a[0] in dsites:
                        if "read" in f:
                            add(res, v, name, "%s: relations are still traced after the leftovers were read" % what, ev, parent, st, ei)
                        f = f | {"rel"}
                    elif ev.k in fills and ev.base in objs and not self.is_relay(ev) and ev.k not in drains:
                        if "rel" in f:
                            add(res, v, name, "%s: entered after relations were traced already" % what, ev, parent, st, ei)
                    elif results(ev):
                        f = f | {"read"}
                if d == -1 or d in exits:
                    continue
                n = (d, f)
                if n not in parent:
                    parent[n] = (st, ei)
                    work.append(n)
        res.states = len(parent)
        ck.absorb(res, name)

    def dangling(self, ck):
        v = self.view
        self.known_errors(ck)
        for what, name, ref, key, d in (
            ("covers link", "CoversUnknownRequirement", RC, tup(F(RC, "id"), F(R, "id")), "U"),
            ("depends link", "DependOnUnknownRequirement", RD, tup(F(R, "id"), F(RD, "id")), "D"),
        ):
            V = V_R | {ref}
            pend = {ev.base for ev in self.all("insert") if ev.a[1] is key and any(e2.base is ev.base for e2 in self.all("remove"))}
            pend |= {ev.base for ev in self.all("insert") if ev.a[1] is key and ev.base not in self.err_sinks}
            if not pend:
                ck.fail(what, "no set of %ss to verify could be found" % what)
                continue
            sets = set()
            for p in pend:
                sets.add(p)
            rule(ck, v, "%s to verify" % what, V,
                 lambda ev: (True if ev.a[1] is key else "%s is recorded as %s" % (what, show(ev.a[1]))) if ev.k == "insert" and ev.base in sets else False,
                 Not(DUP), YES)
            self.removals(ck, sets, what, None)
            for ev in self.all("clear", "pop", "mut", "discard", "assign"):
                if lost(ev, sets):
                    ck.fail(what, "%ss to verify are dropped by %s" % (what, ev.k), ev.loc)
            # what is left over is reported, element by element
            owner = t("val", t("some", el(F(A, "requirements")), F(R, "id")))
            oref = el(F(owner, "covers" if d == "U" else "depends"))

            def out(ev, name=name, ref=ref, owner=owner, oref=oref):
                x = self.err(ev, name)
                if x is None:
                    return False
                return self.expect(x, {"0": (owner, R), "1": (F(ref, "id"), F(oref, "id")), "2": (F(oref, "location"), F(ref, "location"))}) or same(ev, self.fields(x)["2"]) or True

            def same(ev, loc, ref=ref, oref=oref):
                if loc is not F(oref, "location"):
                    return None
                for a, y in ev.raw.facts.items():
                    n, y = v.lit(a, y)
                    if y is True and n.op == "eq" and set(n.a) == {F(oref, "id"), F(ref, "id")}:
                        return None
                return "its location may be that of another reference"

            sites = set()
            for ev in self.all("elem"):
                if base(ev.a[1]) in sets:
                    sites.add(ev.a[0])
            errs = [ev for ev in self.all("push") if self.err(ev, name) is not None]
            used = set()
            for ev in errs:
                used |= ev.sites & sites
            self.order(ck, what + "s", sets, ("insert",), ("remove",), lambda ev: ev.k == "elem" and ev.a[0] in used)
            if not used:
                ck.fail(what, "what is left unverified is not turned into %s errors" % name)
            c = Check()
            site_rule(c, v, name + " error", used, out)
            ck.merge(c)
            self.tables(ck, self.chain_objs(lambda ev: self.err(ev, name) is not None), self.skip_objs() | sets)


