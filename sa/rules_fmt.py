"""Rules about the reports: every problem, requirement and link is written, and every failing write is an error."""
import re
from terms import *
from norm import el, F, els
from mon import *
from rules_trace import val, get, some_of, variant

TG = t("sym", "traced_graph")
GR = t("sym", "graph")
W = t("sym", "writer")
FMT = t("var", t("sym", "format"))

# functions whose result no longer shows the text they were given
LOSSY = {"to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace_all", "replace", "len", "is_empty",
         "is_some", "is_none", "chars", "split", "bytes", "index", "file_name", "file_stem", "parent", "extension", "count", "first", "last",
         "starts_with", "ends_with", "contains", "truncate", "hash"}


def errret(v):
    def f(ret, evs=None):
        r = v.N.norm(ret) if ret is not None and ret.__class__ is T else ret
        return r is not None and (is_agg(r, "adt") and r.a[2] == "Err")

    return f


def whole(c, x, trim=True):
    """the text of x is part of the content c, unabridged"""
    if c is x:
        return True
    if c.__class__ is not T or x not in c.subs:
        return False
    if c.op in ("fld", "dc", "get", "el", "elem", "key", "val", "c", "sym"):
        return False
    if c.op in ("app", "ext"):
        nm = str(c.a[0] if c.op == "app" else c.a[1]).split("::")[-1].split("<")[0]
        if nm in LOSSY or not trim and nm.startswith("trim"):
            return False
    return any(whole(y, x, trim) for y in c.a if y.__class__ is T)


def loc_parts(x):
    """how the parts of location x may be written"""
    lif = F(x, "location_in_file")
    s = some_of(lif)

    def p(v, i):
        return t("fld", t("dc", s, v), i)

    return lif, s, p


def lacks(v, x):
    n, y = v.lit(t("empty", x.a[0]), False)
    return Atom(n) if y else Not(Atom(n))


class Fmt:
    """one report: entry point `fn` for one format"""

    def __init__(self, ctx, fn, fmt, root):
        self.name = "%s report (%s)" % (fmt, fn)
        self.view = v = ctx.view("formatters::" + fn, facts={t("var", t("sym", "format")): frozenset((fmt,))}, tag=fmt)
        self.N = v.N
        self.root = root
        self.memo = {}
        self.err = errret(v)
        self.evs = []
        seen = set()
        for _, _, evs in v.edges:
            for ev in evs:
                if id(ev.raw) not in seen:
                    seen.add(id(ev.raw))
                    self.evs.append(ev)
        self.agg = None
        for ev in self.evs:
            if ev.k == "call" and str(ev.a[0]).endswith("AggregatedGraph::new") and ev.a[1] and ev.a[1][0] is root:
                self.agg = ev.a[2]
        self.find_sinks()

    # -- where text must go to be part of the report
    def target(self, ev):
        """what a write, push or strpush adds to"""
        x = ev.a[0]
        return base(x) if x.__class__ is T else x

    def content(self, ev):
        return ev.a[-1]

    def is_out(self, x):
        """x is the report's writer, however wrapped"""
        if x is W:
            return True
        if x.op in ("app", "ext", "objref"):
            return any(self.is_out(y) for y in x.a if y.__class__ is T)
        return False

    def find_sinks(self):
        self.puts = [ev for ev in self.evs if ev.k in ("write", "strpush") or ev.k in ("push", "insert")]
        clones = {}
        for ev in self.evs:
            if ev.k == "clone":
                clones.setdefault(base(ev.a[0]), set()).add(base(ev.a[1]))
        self.clones = clones
        sinks = set()
        self.drains = {}  # sink -> events that pass its content on
        self.each = {}  # sink -> events that pass its elements on
        grow = True
        while grow:
            grow = False
            for ev in self.puts:
                tg = self.target(ev)
                if not (self.is_out(tg) or tg in sinks):
                    continue
                # elements of a container of buffers
                for y in [y for x in ev.raw.a[1:] if x.__class__ is T for y in x.subs]:
                    if y.op == "elem" and y.a[1].__class__ is T and base(self.N.norm(y)).op == "obj":
                        o = base(y.a[1])
                        if o.op != "obj" or o is tg:
                            continue
                        if o not in sinks:
                            sinks.add(o)
                            grow = True
                        self.each.setdefault(o, set()).add(ev)
                for y in [y for x in ev.a[1:] if x.__class__ is T for y in x.subs]:
                    o = base(y)
                    if o.op != "obj" or o is tg:
                        continue
                    for q in {o} | clones.get(o, set()):
                        if q.op != "obj" or q is tg:
                            continue
                        if q not in sinks and any(self.target(e) is q and e.k in ("write", "strpush", "push", "insert") for e in self.puts):
                            sinks.add(q)
                            grow = True
                        if any(whole(x, o) for x in ev.a[1:] if x.__class__ is T):
                            self.drains.setdefault(q, set()).add(ev)
                        if el(o) in ev.a[-1].subs:
                            self.each.setdefault(q, set()).add(ev)
        # a container whose elements are graph elements is a worklist, not text
        self.sinks = {o for o in sinks if o in self.drains or o in self.each}

    def put(self, ev):
        if ev.k not in ("write", "strpush", "push", "insert"):
            return False
        tg = self.target(ev)
        return tg.__class__ is T and (self.is_out(tg) or tg in self.sinks)

    # -- rules
    def shown(self, ck, what, V, must, ok):
        """in every round of V (under `must`) something that satisfies ok(content) is written"""
        v = self.view

        def out(ev):
            return self.put(ev) and bool(ok(self.content(ev), ev))

        rule(ck, v, "%s: %s" % (self.name, what), V, out, must, YES, exempt=self.err, strict=False)
        self.tables(ck, what, out, must)

    def tables(self, ck, what, out, must):
        """worklists that the rounds iterate over hold everything they were made for"""
        v = self.view
        objs = set()
        for ev in self.evs:
            if out(ev):
                for x in list(ev.raw.a) + list(ev.raw.facts):
                    if x.__class__ is T:
                        objs |= {o for o in x.objs if o.op == "obj"}
        objs -= self.sinks
        for o in objs:
            adds = [ev for ev in self.evs if ev.k in ("push", "insert") and ev.base is o]
            byV = {}
            for ev in adds:
                vs = frozenset().union(*[els(x) for x in ev.a[1:] if x.__class__ is T]) if len(ev.a) > 1 else frozenset()
                byV.setdefault(vs, []).append(ev)
            for vs, lst in byV.items():
                if not vs:
                    continue
                keys = {(e.k, e.raw.a) for e in lst}
                # an element that is written later exists only if its list has one
                far = {x for a in atoms_of(must) for x in els(a)} - vs
                need = And(must, *[lacks(v, x) for x in far if x.op == "el"]) if len(byV) == 1 else YES
                rule(ck, v, "%s: %s collected before it is written" % (self.name, what), vs,
                     lambda ev: ev.k in ("push", "insert") and (ev.k, ev.raw.a) in keys, need, YES, exempt=self.err, strict=False)
            for ev in self.evs:
                if ev.base is o and ev.k in ("remove", "clear", "pop", "mut", "discard"):
                    ck.fail("%s: %s" % (self.name, what), "entries that were collected for the report are dropped again (%s)" % ev.k, ev.loc)

    def flushed(self, ck, dedup=()):
        """text put into a buffer reaches the report"""
        v = self.view
        for B in self.sinks:
            sc = frozenset(v.N.newscope.get(B, ()))
            al = {B} | {c for c, s in self.clones.items() if B in s}

            def trigger(ev, B=B, sc=sc):
                if ev.k in ("write", "strpush", "push", "insert") and self.target(ev) is B:
                    src = self.content(ev)
                    d = any(x in src.subs or t("var", x) in {v.lit(a, y)[0] for a, y in ev.raw.facts.items()} for x in dedup)
                    return [(("flush", d), "%s: text that was collected is not written" % self.name, sc)]
                return ()

            def settle(ev, key, B=B, al=al):
                if self.put(ev) and self.target(ev) is not B and any(whole(y, x) for x in al for y in ev.a[1:] if y.__class__ is T):
                    return True
                if ev.k == "iterend" and ev.a[1].__class__ is T and base(ev.a[1]) in al and B in self.each:
                    return True
                if ev.k == "assume" and ev.a[0].op in ("in", "has") and ev.a[1] is True and key[1] and any(x in ev.a[0].subs for x in al):
                    return True
                return False

            def final(key, ret):
                return self.err(ret)

            obligations(ck, v, "buffered text", trigger, settle, final)
            for site in self.sites_of(B, al):
                site_rule(ck, v, "%s: writing collected text" % self.name, {site},
                          lambda ev, site=site: self.put(ev) and self.target(ev) is not B and site in ev.sites, exempt=self.err, whole_=False)
            for ev in self.evs:
                if ev.base is B and ev.k in ("remove", "clear", "pop", "discard", "retained", "keep", "mut"):
                    if ev.k == "clear" and B in self.drains:
                        continue
                    if ev.k == "mut" and not (len(ev.a) > 1 and is_c(ev.a[1], "str") and ev.a[1].a[1].startswith("dedup_by")):
                        continue
                    ck.fail("%s: buffered text" % self.name, "text that was collected is dropped again (%s)" % ev.k, ev.loc)

    def library(self, ck):
        """library buffers on top of the writer are flushed"""
        v = self.view

        def step(m, ev):
            if ev.k == "write" and self.is_out(ev.a[0]) and buffered_writer(ev.a[0]):
                return "dirty"
            if ev.k == "flush":
                return "clean"
            return m

        walk2(ck, v, "%s: library buffers are flushed" % self.name, "clean", step,
              lambda m, ret: None if m == "clean" or self.err(ret) else "output may still be in a buffer when success is returned")

    def sites_of(self, B, al):
        return sorted({ev.a[0] for ev in self.evs if ev.k == "elem" and ev.a[1].__class__ is T and base(ev.a[1]) in al}) if B in self.each else []

    def rest(self, x, n):
        """x compares the number n of written bytes with the length of the text, or is what is left after n bytes"""
        for y in x.subs:
            if y.op in ("eq", "lt") and n in y.a and any(z.op == "len" for z in y.a) or y.op == "app" and "slice" in str(y.a[0]) and n in y.subs:
                return True
        return False

    def failures(self, ck):
        """every failing write makes the report fail"""
        v = self.view

        def step(m, ev):
            if ev.k == "ioerr":
                # a failing write into memory cannot happen
                x = ev.a[1]
                return True if any(self.is_out(y) for y in x.a if y.__class__ is T) or x.op != "ext" else m
            return m

        for ev in self.evs:
            if ev.k == "partial_write" and self.is_out(ev.a[0]):
                n = ev.a[1]
                used = any(self.rest(x, n) or self.rest(x, ev.raw.a[1]) for e2 in self.evs for x in list(e2.a) + list(e2.raw.facts) if x.__class__ is T)
                if not used:
                    ck.fail("%s: short writes" % self.name, "a write that takes only a part of the text is neither repeated nor reported", ev.loc)
        walk(ck, v, "%s: failing writes" % self.name, False, step,
             lambda m, ret: "%s: success is returned although a write failed" % self.name if m and not self.err(ret) else None)

    # -- errors
    def problems(self, ck, src, V, what):
        """each error of a list is written with everything that identifies it"""
        e = el(src)
        V = set(V) | {e}
        if not self.produces(src):
            ck.fail("%s: %s" % (self.name, what), "%s are never written" % what)
            return
        self.shown(ck, what, V, Not(Var(e, "EmptyGraph")), lambda c, ev: e in c.subs)
        self.details(ck, e, what)

    def produces(self, src):
        e = el(src)
        return any(self.put(ev) and e in self.content(ev).subs for ev in self.evs)

    def rounds_of(self, e):
        """sites of the iterations over e in which something about e is written"""
        v = self.view
        sites = set()
        for ev in self.evs:
            if self.put(ev) and e in ev.a[-1].subs:
                for x in ev.raw.a:
                    if x.__class__ is T:
                        for y in x.subs:
                            if y.op == "elem" and e in v.nn(y).subs:
                                sites.add(y.a[0])
        return {s for s in sites if any(k.op == "elem" and v.nn(k) in (e, val(e)) for k in self.elems_at(s))}

    def elems_at(self, site):
        r = getattr(self, "_elems", None)
        if r is None:
            r = self._elems = {}
            for ev in self.evs:
                if ev.k == "elem":
                    r.setdefault(ev.a[0], set()).add(ev.raw.a[2])
        return r.get(site, ())

    def details(self, ck, e, what):
        v = self.view
        ve = t("var", e)
        sites = self.rounds_of(e)
        need = {k: [(what, mk(e)) for what, mk in l] for k, l in DETAILS.items()}
        gnu = "GnuError" in self.name

        def trigger(ev):
            if ev.k != "assume" or ev.a[0] is not ve:
                return ()
            st = ev.sites & sites
            if not st:
                return ()
            if len(ev.a[1]) != 1:
                return [(("any", ()), "an error of one of the kinds %s is written without what identifies it" % "/".join(sorted(ev.a[1])), st)]
            vn = next(iter(ev.a[1]))
            out = []
            for kind, terms_ in need.get(vn, ()):
                if kind == "gnuloc" and not gnu:
                    continue
                if kind in ("loc", "gnuloc"):
                    for part in ("file", "line", "column"):
                        out.append(((part, terms_), "%s: the %s of a %s error is not written" % (self.name, part, vn), st))
                else:
                    out.append((("text", terms_), "%s: %s of a %s error is not written" % (self.name, kind, vn), st))
            return out

        obligations(ck, v, "%s: %s name what they are about" % (self.name, what), trigger,
                    lambda ev, key: self.tells(ev, key) or self.put(ev) and whole(ev.a[-1], e), lambda key, ret: self.err(ret))

    def location(self, ck, what, e, *locs):
        """in each round over e the location is written"""
        sites = self.rounds_of(e)

        def trigger(ev):
            if ev.k == "elem" and ev.a[0] in sites:
                st = frozenset((ev.a[0],))
                return [((part, locs), "%s: the %s of the location of %s is not written" % (self.name, part, what), st) for part in ("file", "line", "column")]
            return ()

        obligations(ck, self.view, "%s: location of %s" % (self.name, what), trigger, self.tells, lambda key, ret: self.err(ret))

    def when(self, ck, what, conds):
        """conds: {(atom, value): texts}; once the atom is known to have the value, one of the texts is written"""

        def trigger(ev):
            if ev.k == "assume" and ev.a in conds:
                xs = conds[ev.a]
                st = ev.sites & frozenset().union(*[ev.sites])
                return [(("text", xs), "%s: %s is not written" % (self.name, what), st)]
            return ()

        obligations(ck, self.view, "%s: %s" % (self.name, what), trigger, self.tells, lambda key, ret: self.err(ret))

    def tells(self, ev, key):
        v = self.view
        k, xs = key
        if k in ("line", "column"):
            for a, y in ev.raw.facts.items():
                n, y = v.lit(a, y)
                if n.op == "var" and y.__class__ is frozenset:
                    for x in xs:
                        lif, s, p = loc_parts(x)
                        if n.a[0] is lif and y == frozenset(("None",)):
                            return True
                        if n.a[0] is s and k == "column" and "LineAndColumn" not in y:
                            return True
        if not self.put(ev):
            return False
        c = ev.a[-1]
        if k in ("text", "any"):
            return any(whole(c, x) for x in xs)
        for x in xs:
            if whole(c, x):
                return True
            lif, s, p = loc_parts(x)
            if k == "file" and whole(c, F(x, "file")):
                return True
            if k != "file" and (whole(c, lif) or whole(c, s)):
                return True
            if k == "line" and any(whole(c, p(n, "0")) for n in ("Line", "LineAndColumn", "String")):
                return True
            if k == "column" and whole(c, p("LineAndColumn", "1")):
                return True
        return False


def pay(e, vn, i):
    return t("fld", t("dc", e, vn), i)


def _d(vn, kind, *paths):
    def mk(e):
        out = []
        for p in paths:
            x = t("dc", e, vn)
            for f in p.split("."):
                x = t("fld", x, f)
            out.append(x)
        return tuple(out)

    return kind, mk


DETAILS = {
    "Format": [_d("Format", "loc", "0"), _d("Format", "the message", "1")],
    "DuplicateRequirement": [_d("DuplicateRequirement", "the id", "0.id", "1.id"), _d("DuplicateRequirement", "loc", "0.location"),
                             _d("DuplicateRequirement", "loc", "1.location")],
    "DuplicateAttribute": [_d("DuplicateAttribute", "loc", "0"), _d("DuplicateAttribute", "the attribute", "1"), _d("DuplicateAttribute", "the requirement", "2")],
    "Io": [_d("Io", "the path", "0"), _d("Io", "the message", "1")],
    "Config": [_d("Config", "the message", "0")],
    "DuplicateArtefact": [_d("DuplicateArtefact", "the artefact", "0")],
    "UnknownArtefact": [_d("UnknownArtefact", "the artefact", "0")],
    "UnusedRelation": [_d("UnusedRelation", "the relation", "0", "0.upper")],
    "CoveredWithWrongTitle": [_d("CoveredWithWrongTitle", "the requirement", "upper.id"), _d("CoveredWithWrongTitle", "loc", "location"), _d("CoveredWithWrongTitle", "gnuloc", "upper.location"),
                              _d("CoveredWithWrongTitle", "the wrong title", "wrong_title")],
    "DependWithWrongTitle": [_d("DependWithWrongTitle", "the requirement", "lower.id"), _d("DependWithWrongTitle", "loc", "location"), _d("DependWithWrongTitle", "gnuloc", "lower.location"),
                             _d("DependWithWrongTitle", "the wrong title", "wrong_title")],
    "ReferencedWithoutTitle": [_d("ReferencedWithoutTitle", "the requirement", "referenced.id"), _d("ReferencedWithoutTitle", "loc", "location")],
    "RequirementWithoutTitle": [_d("RequirementWithoutTitle", "the requirement", "0.id"), _d("RequirementWithoutTitle", "gnuloc", "0.location")],
    "DependOnUnknownRequirement": [_d("DependOnUnknownRequirement", "the requirement", "0.id"), _d("DependOnUnknownRequirement", "the unknown id", "1"),
                                   _d("DependOnUnknownRequirement", "loc", "2")],
    "CoversUnknownRequirement": [_d("CoversUnknownRequirement", "the requirement", "0.id"), _d("CoversUnknownRequirement", "the unknown id", "1"),
                                 _d("CoversUnknownRequirement", "loc", "2")],
}


def buffered_writer(w):
    return any(y.op in ("app", "ext") and ("BufWriter" in str(y.a) or "LineWriter" in str(y.a)) for y in w.subs)


def walk2(ck, view, name, init, step, final):
    """walk() for monitors whose states are words"""
    walk(ck, view, name, (init,), lambda m, ev: (step(m[0], ev),), lambda m, ret: final(m[0], ret))


# ------------------------------------------------------------------ the reports
def tg_parts():
    A = el(F(TG, "artefacts"))
    REL = el(F(TG, "traced_relations"))
    DER = el(F(TG, "derived"))
    return A, REL, DER


def req_at(x, rid):
    """x is (a field of) the requirement with this id"""
    return rid in x.subs and any(y.op in ("get", "fld", "val", "el") for y in [x])


def id_text(rid):
    def ok(c, ev):
        return any(y is rid or y.op == "fld" and y.a[1] == "id" and rid in y.subs for y in c.subs)

    return ok


def location_text(rid):
    def ok(c, ev):
        return any(y.op == "fld" and y.a[1] == "location" and rid in y.subs for y in c.subs)

    return ok


def common(F_, ck):
    if not any(F_.put(ev) for ev in F_.evs):
        ck.fail(F_.name, "nothing is written")


def gnu(ctx, ck):
    f = Fmt(ctx, "tracing", "GnuError", TG)
    trace_problems(f, ck)
    A, REL, DER = tg_parts()
    u = el(F(REL, "uncovered"))
    f.shown(ck, "location of uncovered requirements", {REL, u}, YES, location_text(u))
    d = el(val(DER))
    f.shown(ck, "location of derived requirements", {DER, d}, YES, location_text(d))
    gnu_lines(f, ck)
    f.flushed(ck)


def trace_problems(f, ck):
    A, REL, DER = tg_parts()
    f.problems(ck, F(TG, "errors"), (), "tracing errors")
    f.problems(ck, F(val(A), "errors"), {A}, "input errors")
    u = el(F(REL, "uncovered"))
    f.shown(ck, "uncovered requirements", {REL, u}, YES, id_text(u))
    d = el(val(DER))
    f.shown(ck, "derived requirements", {DER, d}, YES, id_text(d))
    labels(f, ck)
    sections(f, ck, {"input": [el(F(val(A), "errors"))], "tracing": [el(F(TG, "errors"))], "uncovered": [u], "derived": [d]}, HEADS, "an item of the kind '%s'")


GNU_LOCS = {("Format", "0"), ("DuplicateAttribute", "0"), ("Io", "0"), ("DependOnUnknownRequirement", "2"), ("CoversUnknownRequirement", "2")}


def gnu_lines(f, ck):
    """a location that is written starts its line and is followed by a colon"""
    n = 0
    for ev in f.evs:
        if not f.put(ev) or ev.a[-1].op != "cat":
            continue
        parts = ev.a[-1].a
        for i, x in enumerate(parts):
            y = x.a[0] if x.op == "disp" else x
            if y.op == "fld" and (y.a[1] == "location" or y.a[0].op == "dc" and (str(y.a[0].a[1]), str(y.a[1])) in GNU_LOCS):
                n += 1
                if i and not (is_c(parts[i - 1], "str") and parts[i - 1].a[1].endswith("\n")):
                    ck.fail("GNU lines", "a location is not at the start of its line", ev.loc)
                if i + 1 < len(parts) and is_c(parts[i + 1], "str") and not parts[i + 1].a[1].startswith(":"):
                    ck.fail("GNU lines", "a location is not followed by a colon", ev.loc)
    ck.cover["gnu_locations"] = n


# what the words before (or after) a value in the text of an error say that it is; None: not decided
TITLES = (r"title of (the )?upper", ("upper.title",)), (r"title of (the )?lower", ("lower.title",)), (r"expected", ("upper.title", "lower.title")), (r"actual|title used", ("wrong_title",)), \
    (r"upper requirement", ("upper",)), (r"lower requirement", ("lower",))
BEFORE = {
    "DuplicateRequirement": ((r"first (seen|defined)|previously|originally", ("0",)), (r"then again|again (seen )?in|seen again", ("1",))),
    "CoveredWithWrongTitle": TITLES,
    "DependWithWrongTitle": TITLES,
    "DependOnUnknownRequirement": ((r"unknown requirement", ("1",)),),
    "CoversUnknownRequirement": ((r"unknown requirement", ("1",)),),
    "DuplicateAttribute": ((r"duplicate attribute", ("1",)), (r"when parsing", ("2",))),
}
AFTER = {
    "DuplicateRequirement": ((r"^: note: previous", ("0",)), (r"^: duplicate", ("1",))),
    "CoveredWithWrongTitle": ((r"^ (is |was )?covered with wrong", ("upper",)),),
    "DependWithWrongTitle": ((r"^ (is |was )?depended (on )?with wrong", ("lower",)),),
    "DependOnUnknownRequirement": ((r"^\W* depends on unknown", ("0",)),),
    "CoversUnknownRequirement": ((r"^\W* covers unknown", ("0",)),),
    "DuplicateAttribute": ((r"^ has duplicate", ("2",)),),
}


def labels(f, ck):
    """the words around a value in the text of an error fit the value"""
    n = 0
    for ev in f.evs:
        c = ev.a[-1] if ev.k in ("write", "strpush", "push", "insert") else None
        if c.__class__ is not T or c.op != "cat":
            continue
        parts = c.a
        for i, x in enumerate(parts):
            if x.__class__ is not T or is_c(x):
                continue
            has = {}
            for y in x.subs:
                if y.op == "fld" and y.a[0].op == "dc" and str(y.a[0].a[1]) in BEFORE:
                    fs = has.setdefault(str(y.a[0].a[1]), set())
                    fs.add(str(y.a[1]))
                    if F(y, "title") in x.subs:
                        fs.add(str(y.a[1]) + ".title")
            if len(has) != 1:
                continue
            (vn, fs), = has.items()
            lits = []
            if i and is_c(parts[i - 1], "str"):
                s = str(parts[i - 1].a[1]).lower()
                found = sorted((m.end(), want, m.group()) for rx, want in BEFORE[vn] for m in re.finditer(rx, s))
                lits += found[-1:]
            if i + 1 < len(parts) and is_c(parts[i + 1], "str"):
                s = str(parts[i + 1].a[1]).lower()
                lits += [(0, want, m.group()) for rx, want in AFTER[vn] for m in re.finditer(rx, s)]
            for _, want, said in lits:
                n += 1
                if not fs & set(want):
                    ck.fail("%s: the words fit the values" % f.name, "what is called '%s' in the text of a %s error is field %s, not field %s" % (
                        said.strip(" :"), vn, "/".join(sorted(y for y in fs if "." not in y)), " or ".join(want)), ev.loc)
    ck.cover["labelled_values"] = ck.cover.get("labelled_values", 0) + n


HEADS = (("input", r"(input|parsing|artefact) errors?\b"), ("tracing", r"tracing errors?\b"), ("uncovered", r"\buncovered\b"), ("derived", r"\bderived\b"))


SIDES = (("upwards", r"\bupwards?\b"), ("downwards", r"\bdownwards?\b"))


def sections(f, ck, lists, heads, what):
    """an item is listed under the heading (or with the word) of its own kind: lists: kind -> terms of its items"""
    def said(c):
        w = {k for y in c.subs if is_c(y, "str") for k, rx in heads if re.search(rx, str(y.a[1]).lower())}
        return next(iter(w)) if len(w) == 1 else None

    def step(m, ev):
        if ev.k not in ("write", "strpush", "push", "insert") or ev.a[-1].__class__ is not T:
            return m
        c = ev.a[-1]
        own = [k for k, xs in lists.items() if any(x in c.subs for x in xs)]
        s = said(c)
        if len(own) == 1:
            if s is None:
                s = m[0]
            for s in (s, m[1]):
                if s is not None and s != own[0] and f.put(ev):
                    return "%s is listed as '%s'" % (what % own[0], s)
            return m
        if s is None or own or not any(is_c(y, "str") and re.search(r"[#:]|requirement", str(y.a[1]).lower()) for y in c.subs):
            return m
        # a line of its own is a heading
        return (s, s if is_c(c, "str") and len(c.a[1].strip().split("\n")) == 1 and c.a[1].endswith("\n") else m[1])

    walk(ck, f.view, "%s: items stand under the heading of their kind" % f.name, (None, None), step)


def text(*xs):
    def ok(c, ev):
        return any(whole(c, x) for x in xs)

    return ok


def one_requirement(f, ck, V, owner, r, also=()):
    """everything about a requirement: r is the term it is read as, `also` other terms for the same requirement"""
    rs = (r,) + tuple(also)
    e = owner
    f.shown(ck, "requirement ids", V, YES, text(*[F(x, "id") for x in rs]))
    f.location(ck, "requirements", e, *[F(x, "location") for x in rs])
    f.when(ck, "the title of a requirement", {(t("var", F(x, "title")), frozenset(("Some",))): tuple(some_of(F(y, "title")) for y in rs) for x in rs})
    if not any(f.put(ev) and any(some_of(F(x, "title")) in ev.a[-1].subs or whole(ev.a[-1], F(x, "title")) for x in rs) for ev in f.evs):
        ck.fail(f.name, "the title of requirements is never written")
    # attributes
    for x in rs:
        at = F(x, "attributes")
        a = el(at)
        if not any(ev.k == "elem" and ev.a[2] is a for ev in f.evs):
            continue
        DESC = C("str", "Description")
        dget = get(at, DESC)
        sep = [ev for ev in f.evs if f.put(ev) and whole(ev.a[-1], dget)]
        lims = [Not(Atom(t("empty", app("trim", val(a)))))]
        if sep:
            lims.append(Not(Atom(eqt(DESC, t("key", a)))))
            f.when(ck, "the description of a requirement", {(t("has", at, DESC), True): (dget,)})
        if f.produces(at):
            f.shown(ck, "names of attributes", set(V) | {a}, And(*lims), text(t("key", a)))
            f.shown(ck, "values of attributes", set(V) | {a}, And(*lims), text(val(a)))
            break
    else:
        ck.fail(f.name, "attributes of requirements are never written")


def eqt(a, b):
    if show(b) < show(a):
        a, b = b, a
    return t("eq", a, b)


def calls_derived(f, ck, V, up, ups, out):
    name = "%s: a requirement that covers nothing is called derived" % f.name
    v = f.view
    one = Check()
    # either no coverage was met in the round ...
    rule(one, v, name, V, out, Not(Flag("covers")), Not(Flag("covers")), exempt=f.err,
         events=lambda ev: "covers" if ev.k == "elem" and ev.a[2] is ups else None)
    if one.bad:
        # ... or all lists of coverages were found empty
        n, y = v.lit(t("empty", ups.a[0]), False)
        asks = lambda ev: ev.k == "assume" and ev.a[0] is n
        sites = {s for ev in f.evs if asks(ev) for s in ev.sites if any(v.nn(E) is up for E in v.N.elems.get(s, ()))}
        for s in sites:
            two = Check()

            def seen(ev, s=s):
                if asks(ev) and s in ev.sites and ev.a[1] is y:
                    return "covers"
                if ev.k == "cut":
                    return "cut"
                return "end" if ev.k == "iterend" and ev.a[0] == s else None

            must = And(Flag("end"), Not(Flag("covers")), Not(Flag("cut")))
            rule(two, v, name, V, out, must, must, exempt=f.err, events=seen)
            site_rule(two, v, name, {s}, lambda ev, s=s: asks(ev) and s in ev.sites, exempt=f.err, whole_=False)
            if not two.bad:
                one = two
                break
    ck.merge(one)


def markdown_trace(ctx, ck):
    f = Fmt(ctx, "tracing", "Markdown", TG)
    trace_problems(f, ck)
    A, REL, DER = tg_parts()
    er = el(F(val(A), "requirements"))
    rid = F(val(er), "id")
    if f.agg is None:
        ck.notes.append("%s: not written from the aggregated graph, requirement sections are not checked" % f.name)
    else:
        RT = get(F(f.agg, "requirements"), rid)
        V = {A, er}
        one_requirement(f, ck, V, er, F(RT, "requirement"), (val(er),))
        for side in ("covers", "depends"):
            c = el(F(RT, side))
            cc = el(val(c))
            other, loc = F(cc, "0"), F(cc, "1")
            word = "upwards" if side == "covers" else "downwards"
            if not f.produces(F(RT, side)):
                ck.fail(f.name, "%s tracing of requirements is never written" % word)
                continue
            f.shown(ck, "relations of %s tracing" % word, V | {c}, YES, text(t("key", c), F(t("key", c), "upper"), F(t("key", c), "lower")))
            f.shown(ck, "requirements of %s tracing" % word, V | {c, cc}, YES, text(F(other, "id")))
            f.location(ck, "references of %s tracing" % word, cc, loc)
        up, down = (el(F(RT, x)) for x in ("covers", "depends"))
        ups, downs = el(val(up)), el(val(down))
        sections(f, ck, {"upwards": [t("key", up), ups], "downwards": [t("key", down), downs]}, SIDES, "an entry of the %s tracing of a requirement")
        # a requirement that covers nothing is called derived, a relation that nothing covers is called uncovered
        says = lambda ev, w: f.put(ev) and is_c(ev.a[-1], "str") and re.search(r"\b%s\b" % w, ev.a[-1].a[1].lower()) is not None and "#" not in ev.a[-1].a[1]
        if any(says(ev, "uncovered") for ev in f.evs):
            none = Not(lacks(f.view, downs))
            rule(ck, f.view, "%s: a relation that nothing covers is called uncovered" % f.name, V | {down},
                 lambda ev: says(ev, "uncovered"), none, none, exempt=f.err)
        else:
            ck.fail(f.name, "relations without coverage are not called uncovered")
        if any(says(ev, "derived") for ev in f.evs):
            calls_derived(f, ck, V, up, ups, lambda ev: says(ev, "derived"))
        else:
            ck.fail(f.name, "requirements that cover nothing are not called derived")
    f.flushed(ck, dedup=(el(F(TG, "errors")),))


FMTS = {"tracing": ("GnuError", "Markdown", "Json"), "requirements": ("Markdown", "Json", "Tags")}


def failures(ctx, ck):
    for fn, fs in FMTS.items():
        for x in fs:
            f = Fmt(ctx, fn, x, TG if fn == "tracing" else GR)
            f.failures(ck)
            f.library(ck)


def listing(ctx, ck):
    f = Fmt(ctx, "requirements", "Markdown", GR)
    A = el(F(GR, "artefacts"))
    er = el(F(val(A), "requirements"))
    f.problems(ck, F(val(A), "errors"), {A}, "input errors")
    labels(f, ck)
    r = val(er)
    one_requirement(f, ck, {A, er}, er, r)
    for side in ("covers", "depends"):
        c = el(F(r, side))
        if not f.produces(F(r, side)):
            ck.fail(f.name, "the %s references are never written" % side)
            continue
        f.shown(ck, "%s references" % side, {A, er, c}, YES, text(F(c, "id")))
        f.when(ck, "the title of a %s reference" % side, {(t("var", F(c, "title")), frozenset(("Some",))): (some_of(F(c, "title")),)})
        if not any(f.put(ev) and some_of(F(c, "title")) in ev.a[-1].subs for ev in f.evs):
            ck.fail(f.name, "the title of %s references is never written" % side)
    kinds = {F(el(F(r, "covers")), "id"): "cover", F(el(F(r, "depends")), "id"): "depend"}

    def step(m, ev):
        if not f.put(ev):
            return m
        m = m[0]
        c = ev.a[-1]
        said = [w for y in c.subs if is_c(y, "str") for w in ("cover", "depend") if w in str(y.a[1]).lower()]
        if len(set(said)) == 1:
            m = said[0]
        for x, w in kinds.items():
            if x in c.subs and m != w:
                return "a reference of the kind '%ss' is listed under '%s'" % (w, m + "s" if m != "-" else "no heading")
        return (m,)

    walk(ck, f.view, "%s: covers and depends references can be told apart" % f.name, ("-",), step)
    f.flushed(ck)


def tags(ctx, ck):
    f = Fmt(ctx, "requirements", "Tags", GR)
    A = el(F(GR, "artefacts"))
    er = el(F(val(A), "requirements"))
    r = val(er)
    lif, s, p = loc_parts(F(r, "location"))
    must = And(Var(lif, "Some"), Var(s, "Line", "LineAndColumn"))
    f.shown(ck, "ids", {A, er}, must, text(F(r, "id")))
    f.shown(ck, "files", {A, er}, must, text(F(F(r, "location"), "file")))
    f.shown(ck, "lines", {A, er}, must, text(p("Line", "0"), p("LineAndColumn", "0")))
    if not any(f.put(ev) and ev.a[-1].op == "cat" and any(is_c(x, "str") and "\t" in x.a[1] for x in ev.a[-1].a) and F(r, "id") in ev.a[-1].subs for ev in f.evs):
        ck.notes.append("tags: lines are not built in one piece, their layout is not checked")
    if not any(is_c(y, "str") and "\n" in str(y.a[1]) for ev in f.evs if f.put(ev) and not is_c(ev.a[-1]) for y in ev.a[-1].subs):
        ck.fail(f.name, "the entries are not separated into lines")
    f.flushed(ck)


def jsons(f):
    return [ev for ev in f.evs if f.put(ev) and any(y.op == "app" and y.a[0] == "json" for y in ev.a[-1].subs)]


def json_trace(ctx, ck):
    f = Fmt(ctx, "tracing", "Json", TG)
    json_once(f, ck, lambda c: whole(c, TG), "the traced graph")


def json_once(f, ck, ok, what):
    js = {id(ev.raw) for ev in jsons(f) if ok(ev.a[-1])}

    def step(m, ev):
        if id(ev.raw) in js:
            return m + 1
        if f.put(ev) and ev.k == "write" and f.is_out(ev.a[0]) and not (is_c(ev.a[-1], "str") and not ev.a[-1].a[1].strip()):
            return "%s: something else than the JSON text of %s is written" % (f.name, what)
        return m

    walk(ck, f.view, "%s: JSON text" % f.name, 0, step,
         lambda m, ret: None if m == 1 or f.err(ret) else "%s: %s is written %s" % (f.name, what, "not at all" if not m else "more than once"))


def json_listing(ctx, ck):
    f = Fmt(ctx, "requirements", "Json", GR)
    A = el(F(GR, "artefacts"))
    er = el(F(val(A), "requirements"))
    ee = el(F(val(A), "errors"))
    js = jsons(f)
    json_once(f, ck, lambda c: True, "the requirements")
    if js and all(whole(ev.a[-1], GR) for ev in js):
        return
    objs = set()
    for ev in js:
        objs |= {o for o in ev.a[-1].subs if o.op == "obj"}
    fl = Flow(f.view)
    sinks = set()
    for o in objs:
        sinks |= set(fl.sinks(o))
    for x, V, what in ((val(er), {A, er}, "requirements"), (ee, {A, ee}, "errors")):
        outs = [ev for ev in f.evs if ev.k in ("push", "insert") and ev.base in objs and ev.a[-1] is x]
        if not outs:
            ck.fail(f.name, "the JSON text holds no %s" % what)
            continue
        rule(ck, f.view, "%s: %s" % (f.name, what), V, lambda ev: ev.k in ("push", "insert") and ev.base in objs and ev.a[-1] is x, YES, exempt=f.err, dup_ok=False)
    for o in sinks:
        for ev in f.evs:
            if ev.base is o and ev.k in ("remove", "clear", "pop", "mut", "discard", "retained", "keep"):
                ck.fail(f.name, "entries are dropped before they are written (%s)" % ev.k, ev.loc)


def dispatch(ctx, ck):
    """which queries answer in which formats; everything else is refused"""
    for fn in ("tracing", "requirements"):
        for fm in ("Tags", "Markdown", "Json", "GnuError"):
            f = Fmt(ctx, fn, fm, TG if fn == "tracing" else GR)
            v = f.view
            oks = [r for _, r, _ in v.run.exits if not f.err(r)]
            if fm in FMTS[fn]:
                if not oks or not any(f.put(ev) for ev in f.evs):
                    ck.fail("formats", "the %s query does not support format %s any more" % (fn, fm))
            elif oks:
                ck.fail("formats", "the %s query succeeds with the unsupported format %s" % (fn, fm))
            is_json = bool(jsons(f))
            if fm in FMTS[fn] and is_json != (fm == "Json"):
                ck.fail("formats", "the %s query in format %s %s JSON" % (fn, fm, "writes" if is_json else "does not write"))
            ck.cover["format_combinations"] = ck.cover.get("format_combinations", 0) + 1
