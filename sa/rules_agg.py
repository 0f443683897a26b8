"""Rules about the aggregated graph that the markdown trace is written from."""
from terms import *
from norm import el, F, els
from mon import *
from rules_trace import val, get, variant

TG = t("sym", "traced_graph")
ARTS = F(TG, "artefacts")
A = el(ARTS)
ER = el(F(val(A), "requirements"))
REL = el(F(TG, "traced_relations"))
RR = F(REL, "relation")
COV = el(F(REL, "covered"))
UP = el(F(get(ARTS, F(RR, "upper")), "requirements"))
LO = el(F(RR, "lower"))
LOW = el(F(get(ARTS, LO), "requirements"))


def objs_in(x):
    return {base(y) for y in [x] if base(y).op == "obj"}


def aggregate(ctx, ck):
    v = ctx.view("aggregator::AggregatedGraph::new")
    fs = ret_fields(v, "AggregatedGraph")
    if not fs:
        ck.fail("aggregation", "no aggregated graph is returned")
        return
    for x in fs["traced_graph"]:
        if x is not TG:
            ck.fail("aggregation", "the aggregated graph refers to %s instead of the traced graph" % show(x))
    reqs = {base(x) for x in fs["requirements"]}
    evs = []
    seen = set()
    for _, _, es in v.edges:
        for ev in es:
            if id(ev.raw) not in seen:
                seen.add(id(ev.raw))
                evs.append(ev)
    maps = {"covers": set(), "depends": set()}

    def entry(ev):
        if ev.k != "insert" or ev.base not in reqs:
            return False
        x = ev.a[2]
        if not variant(x):
            return False
        names = v.prog.field_names(v.run.crate, x.a[1], x.a[2])
        f = dict(zip(names, x.a[3:]))
        for s in maps:
            if s in f:
                maps[s] |= objs_in(f[s])
        if ev.a[1] is not F(val(ER), "id"):
            return "the entry of a requirement is filed under %s instead of its id" % show(ev.a[1])
        if f.get("requirement") is not val(ER):
            return "the entry of a requirement holds %s" % show(f.get("requirement"))
        if f.get("artefact") is not val(A):
            return "the entry of a requirement names %s as its artefact" % show(f.get("artefact"))
        return True

    for ev in evs:
        entry(ev)
    rule(ck, v, "aggregation: entry of each requirement", {A, ER}, entry, YES, strict=False)
    if not maps["covers"] or not maps["depends"]:
        ck.notes.append("aggregation: the tables of references are not built in a way the analysis follows")
        return
    if maps["covers"] & maps["depends"]:
        ck.fail("aggregation", "both directions are collected in one table")
    lists = {}
    for s in maps:
        lists[s] = set()
        for ev in evs:
            if ev.k == "insert" and ev.base in maps[s]:
                lists[s] |= objs_in(ev.a[2])

    # a list made on the spot belongs to the requirement whose table it is put into at that moment
    homes = {}
    for ev in evs:
        if ev.k == "insert" and ev.base in maps["covers"] | maps["depends"] and COV in ev.a[0].subs:
            for o in objs_in(ev.a[2]):
                homes.setdefault(o, []).append(ev.a[0])
    for s in maps:
        # ... and one that was there already is named by the table it is found in
        for ev in evs:
            if ev.k == "push" and ev.base is not None and ev.base.op in ("get", "val") and any(y.op in ("objref", "obj") and base(y) in maps[s] for y in ev.base.subs):
                lists[s].add(ev.base)

    there = And(*[Not(Atom(a)) for a in {ev.a[0] for ev in evs if ev.k == "assume" and ev.a[0].op in ("in", "has") and ev.a[0].a[-1] is RR}])

    for s, V in (("depends", {REL, UP}), ("covers", {REL, LO, LOW})):
        owner = val(UP) if s == "depends" else val(LOW)

        def init(ev, s=s, owner=owner):
            if ev.k != "insert" or ev.base not in maps[s]:
                return False
            if ev.a[1] is not RR:
                return "a list of references is filed under %s instead of the relation" % show(ev.a[1])
            return owner in ev.a[0].subs or F(owner, "id") in ev.a[0].subs

        rule(ck, v, "aggregation: every requirement has a list for each relation it %s" % ("depends in" if s == "depends" else "may cover in"),
             V, init, there, YES, strict=False)

    def looked(me):
        """links of requirements that are in no artefact cannot be filed (tracing makes none)"""
        at = {ev.a[0] for ev in evs if ev.k == "assume" and ev.a[0].op in ("in", "has") and F(COV, me) in ev.a[0].subs}
        at |= {ev.a[0] for ev in evs if ev.k == "assume" and ev.a[0].op in ("in", "has") and RR in ev.a[0].subs}
        return And(*[Atom(a) for a in at])

    for s, me, other in (("depends", "upper", "lower"), ("covers", "lower", "upper")):
        if not lists[s]:
            ck.notes.append("aggregation: the lists of %s references are not followed" % s)
            continue

        def link(ev, s=s, me=me, other=other):
            if ev.k != "push" or ev.base not in lists[s]:
                return False
            x = ev.a[1]
            inst = frozenset().union(*[h.subs for h in homes.get(ev.base, [ev.a[0]])])
            if F(COV, me) not in inst or F(COV, other) in inst:
                return "a coverage is filed under another requirement than its %s one" % me
            if not (is_agg(x, "tuple") and len(x.a) >= 5):
                return False
            if x.a[4] is not F(COV, "location"):
                return "a coverage is filed with location %s" % show(x.a[4])
            if F(COV, other) not in x.a[3].subs or F(COV, me) in x.a[3].subs:
                return "a coverage is filed with another requirement than its %s one" % other
            return True

        rule(ck, v, "aggregation: each coverage is filed under its %s requirement" % me, {REL, COV}, link, looked(me), YES, strict=False)

    both = lists["depends"] | lists["covers"]
    ms = maps["depends"] | maps["covers"]

    def step(m, ev):
        filled, absent = m
        if ev.k == "push" and ev.base in both:
            return (True, absent)
        if ev.k == "assume" and ev.a[0].op in ("in", "has") and RR in ev.a[0].subs:
            return (filled, ev.a[1] is False)
        if ev.k in ("advance", "iterend", "begin") and any(v.nn(x) is REL for x in elems_at(evs, ev.a[0])):
            return (False, False)
        if ev.k == "insert" and ev.base in ms and filled and not absent:
            return "the list of a relation is replaced after references were filed in it"
        return m

    walk(ck, v, "aggregation: lists are created before they are filled", (False, False), step)
    for ev in evs:
        if ev.k in ("remove", "clear", "pop", "mut", "discard", "retained", "keep") and ev.base in both | ms | reqs:
            ck.fail("aggregation", "entries are dropped again (%s)" % ev.k, ev.loc)


def elems_at(evs, site):
    return [ev.raw.a[2] for ev in evs if ev.k == "elem" and ev.a[0] == site]
