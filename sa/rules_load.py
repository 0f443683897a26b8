"""Rules about loading: parse_from_config (files -> requirements and errors) and Controller::new (configuration -> graph)."""
from terms import *
from norm import el, F, els
from mon import *
from rules_trace import val, get, eqa, variant, some_of
from rules_ctrl import okv, name_of, exts, deep_variant

CFG = t("sym", "config")
BASE = t("sym", "base_dir")
PATHS = F(CFG, "paths")
PE = el(PATHS)
PARSERS = {"parsers::markdown::parse": "Markdown", "parsers::monoreq::parse": "MonoRequirement", "parsers::rust::parse": "Rust",
           "serde_json::from_reader": "Json", "serde_json::from_str": "Json", "serde_json::from_slice": "Json"}


def bases(x):
    return x.a[0] if x.op == "objref" else x


class Load:
    def __init__(self, ctx):
        self.ctx = ctx
        self.v = v = ctx.view("controller::parse_from_config")
        self.flow = Flow(v)
        self.problem = None
        self.files, self.reqs, self.errs = set(), set(), set()
        for r in v.run.retvals:
            r = v.N.norm(r)
            if not is_agg(r, "tuple") or len(r.a) != 6:
                self.problem = "parse_from_config does not return (files, requirements, errors) in a form the analysis can follow"
                return
            for s, x in zip((self.files, self.reqs, self.errs), r.a[3:]):
                s |= {bases(x)}
        self.calls = [ev for _, _, evs in v.edges for ev in evs if ev.k == "call"]
        self.globs = {ev.a[2] for ev in self.calls if str(ev.a[0]) in ("glob::glob", "glob::glob_with")}
        self.opens = {ev.a[2] for ev in self.calls if str(ev.a[0]) in ("std::fs::File::open", "std::fs::OpenOptions::open", "std::fs::read", "std::fs::read_to_string")}
        self.parsed = {}
        for ev in self.calls:
            p = PARSERS.get(str(ev.a[0]))
            if p:
                self.parsed[ev.a[2]] = (p, ev)
        self.entries = {el(okv(g)) for g in self.globs}
        self.found = {okv(g) for g in self.globs}
        # lists of directory entries
        self.gathered = set()
        for o in {ev.base for ev in self.all("push") if ev.base is not None and ev.base.op == "obj" and ev.a[1] in self.entries}:
            if all(e.a[1] in self.entries for e in self.flow.adds[o].values()):
                self.gathered.add(o)
        self.entries |= {el(o) for o in self.gathered}
        self.reqlists, self.errlists = {}, {}
        for x, (p, ev) in self.parsed.items():
            if p == "Json":
                self.reqlists[okv(x)] = x
            else:
                self.reqlists[F(x, "0")] = x
                self.errlists[F(x, "1")] = x
        self.ed = self.errdrains()

    def sinks(self, o):
        out = [o]
        if o.op == "obj":
            out = list(self.flow.sinks(o))
        return out

    def all(self, *ks):
        for _, _, evs in self.v.edges:
            for ev in evs:
                if ev.k in ks:
                    yield ev

    def errpush(self, ev, name=None):
        if ev.k in ("push", "insert") and (ev.base in self.errs or ev.base in self.ed):
            x = ev.a[-1]
            if variant(x) and short(x.a[1]) == "Error" and (name is None or x.a[2] == name):
                return x
        return None

    def drains(self):
        """lists that hold parsed requirements on their way to the result"""
        out = set()
        for o in self.reqs:
            out |= set(self.sinks(o))
        return {o for o in out if o.op == "obj"} - self.reqs - set(self.reqlists)

    def errdrains(self):
        out = set()
        for o in self.errs:
            out |= set(self.sinks(o))
        return {o for o in out if o.op == "obj"} - self.errs - set(self.errlists)

    # ---- every failure is reported and nothing that was read is lost
    def inputs(self, ck):
        v = self.v
        PV = t("var", F(CFG, "parser"))
        drains = self.drains()
        iterated = {ev.a[1] for ev in self.all("elem")}

        def trigger(ev):
            out = []
            if ev.k == "assume":
                a, x = ev.a
                if a is PV and x == frozenset(("Rust",)):
                    out.append((("paths",), "not every configured path is looked up", EMPTY))
                if a.op == "var" and len(x) == 1:
                    y = a.a[0]
                    tag = next(iter(x))
                    if tag == "Err":
                        if y in self.opens:
                            out.append((("fail", y), "a file that cannot be opened is not reported", ev.sites))
                        elif y in self.globs:
                            out.append((("fail", y), "an invalid pattern is not reported", ev.sites))
                        elif y in self.entries:
                            out.append((("fail", y), "a directory entry that cannot be read is not reported", ev.sites))
                        elif y in self.parsed:
                            out.append((("fail", y), "a file that cannot be parsed is not reported", ev.sites))
                    elif tag == "Ok":
                        if y in self.opens:
                            out.append((("parse", y), "a file that was opened is not parsed", ev.sites))
                        elif y in self.globs:
                            out.append((("iter", okv(y)), "not every file that matches a pattern is used", ev.sites))
                            out.append((("found", okv(y)), "a pattern that matches no file is not reported", ev.sites))
                        elif y in self.entries:
                            out.append((("entry", okv(y)), "a file that matches a pattern is not parsed", ev.sites))
                        elif y in self.parsed and okv(y) in self.reqlists:
                            out.append((("iter", okv(y)), "not every requirement of a file is kept", ev.sites - self.own(y)))
            elif ev.k == "elem":
                s = ev.a[1]
                if s is PATHS and self.rust(ev):
                    out.append((("glob", ev.a[0]), "a configured path is not looked up", frozenset((ev.a[0],))))
                elif s in self.found or s in self.gathered:
                    out.append((("look", ev.a[2]), "a file that matches a pattern is passed over", frozenset((ev.a[0],))))
                elif s.op == "obj" and s in self.listed():
                    out.append((("open", ev.a[2]), "a file that matches a pattern is not parsed", frozenset((ev.a[0],))))
                elif s in self.errlists or s in self.ed:
                    out.append((("err", ev.a[2]), "an error found in a file is not kept", frozenset((ev.a[0],))))
                elif s in self.reqlists or s in drains:
                    out.append((("req", ev.a[2]), "a requirement found in a file is not kept", frozenset((ev.a[0],))))
            elif ev.k == "call" and ev.a[2] in self.parsed:
                x = ev.a[2]
                if self.parsed[x][0] != "Json":
                    out.append((("iter", F(x, "0")), "not every requirement of a file is kept", ev.sites))
                    out.append((("errs", F(x, "1")), "not every error of a file is kept", ev.sites))
            elif ev.k == "push" and ev.base in self.listed() and ev.base in iterated:
                out.append((("iter", ev.base), "not every file that matches a pattern is parsed", EMPTY))
            elif ev.k == "push" and ev.base in self.gathered:
                out.append((("iter", ev.base), "not every file that matches a pattern is used", EMPTY))
            elif ev.k == "push" and ev.base in drains:
                out.append((("iter", ev.base), "not every requirement of a file is kept", EMPTY))
            elif ev.k == "push" and ev.base in self.ed:
                out.append((("iter", ev.base), "not every error is kept", EMPTY))
            return out

        def settle(ev, key):
            k = key[0]
            if k == "paths":
                return ev.k == "iterend" and ev.a[1] is PATHS or self.errpush(ev) is not None
            if k == "fail":
                x = self.errpush(ev)
                return x is not None and (contains(x, key[1]) or self.names(x, key[1]))
            if k == "parse":
                return ev.k == "call" and ev.a[2] in self.parsed and any(contains(a, okv(key[1])) for a in ev.a[1]) or self.uses(ev, okv(key[1]))
            if k == "iter":
                return ev.k == "iterend" and ev.a[1] is key[1] or ev.k == "clone" and ev.a[1] is key[1]
            if k == "found":
                if ev.k == "elem" and ev.a[1] is key[1]:
                    return True
                x = self.errpush(ev)
                return x is not None and contains(x, PE)
            if k == "look":
                return ev.k == "assume" and ev.a[0] is t("var", key[1]) or ev.k == "push" and ev.base in self.gathered and ev.a[1] is key[1] or \
                    self.errpush(ev) is not None and any(contains(x, key[1]) for x in ev.a[1:])
            if k == "entry":
                return ev.k == "push" and ev.base in self.listed() and ev.a[1] is key[1] or ev.k == "call" and ev.a[2] in self.opens and contains(ev.a[2], key[1])
            if k == "glob":
                return ev.k == "call" and ev.a[2] in self.globs
            if k == "open":
                return ev.k == "call" and ev.a[2] in self.opens and contains(ev.a[2], key[1])
            if k == "err":
                return ev.k in ("push", "insert") and (ev.base in self.errs or ev.base in self.ed) and ev.a[1] is key[1]
            if k == "errs":
                return ev.k == "iterend" and ev.a[1] is key[1]
            if k == "req":
                if ev.k == "push" and ev.a[1] is key[1] and (ev.base in drains):
                    return True
                if ev.k == "insert" and ev.base in self.reqs and ev.a[2] is key[1]:
                    return True
                x = self.errpush(ev, "DuplicateRequirement")
                return x is not None and key[1] in x.a[3:]
            return False

        def final(key, ret):
            if key[0] in ("errs",):
                return is_agg(ret, "tuple") and bases(ret.a[5]) is key[1]
            return False

        obligations(ck, v, "loading an artefact", trigger, settle, final)
        # every return follows from an attempt to read something, or reports an error
        def step(m, ev):
            if ev.k == "call" and (ev.a[2] in self.opens or ev.a[2] in self.globs) or self.errpush(ev) is not None:
                return True
            if ev.k == "iterend" and ev.a[1] is PATHS and any(v.lit(a, y) == (t("empty", PATHS), False) for a, y in ev.raw.facts.items()):
                return True
            return m

        walk(ck, v, "loading an artefact: something is read or reported", False, step,
             lambda m, ret: None if m else "an artefact is neither read nor is an error reported")

        # a parser of single files reads the one path there is, anything else is an error
        def one(a, x):
            a, x = v.lit(a, x)
            if a.op in ("eq", "lt", "le") and t("len", PATHS) in a.a:
                y = [z for z in a.a if z is not t("len", PATHS)]
                n = y[0].a[1] if y and is_c(y[0], "int") else None
                return (a.op, x, n, a.a[0] is t("len", PATHS)) in (("eq", True, 1, True), ("eq", True, 1, False), ("lt", True, 2, True), ("lt", False, 1, False), ("le", True, 1, True), ("le", False, 2, False))
            return False

        def step1(m, ev):  # (settled, wrong, paths taken, all taken)
            done, bad, n, end = m
            if self.errpush(ev) is not None:
                return (True, False, 0, False)
            if done:
                return m
            if ev.k == "elem" and ev.a[1] is PATHS:
                return (done, bad, min(n + 1, 2), end)
            if ev.k == "iterend" and ev.a[1] is PATHS:
                return (done, bad, n, True)
            if ev.k == "call" and ev.a[2] in self.opens:
                if self.rust(ev) or n == 1 and end or any(one(a, x) for a, x in ev.raw.facts.items()):
                    return (True, False, 0, False)
                return (False, True, n, end)
            return m

        walk(ck, v, "loading an artefact: the number of paths", (False, False, 0, False), step1,
             lambda m, ret: "an artefact with a parser of single files and several paths is read without an error" if m[1] else None)
        self.paths(ck)
        self.dispatch(ck)
        for ev in self.all("remove", "clear", "pop", "mut", "discard", "assign"):
            if lost(ev, self.errs | self.reqs | drains | self.listed() | self.gathered):
                ck.fail("loading an artefact", "something that was read is dropped again (%s)" % ev.k, ev.loc)

    def own(self, x):
        return frozenset((x.a[0],))

    def rust(self, ev):
        f = ev.raw.facts
        for a, x in f.items():
            n, y = self.v.lit(a, x)
            if n is t("var", F(CFG, "parser")):
                return "Rust" in y
        return True

    def uses(self, ev, x):
        return ev.k == "read" and contains(ev.a[0], x)

    def names(self, e, y):
        """the error names the file the failed operation was about"""
        a = [z for z in y.a[2:] if z.__class__ is T] if y.op == "ext" else []
        return any(contains(e, z) for z in a if z.size > 1)

    def listed(self):
        """containers of the paths found by patterns"""
        r = getattr(self, "_listed", None)
        if r is None:
            r = set()
            for ev in self.all("push", "insert"):
                if ev.base is not None and ev.base.op == "obj" and any(ev.a[1] is okv(e) for e in self.entries):
                    r.add(ev.base)
            opened = {x for o in self.opens for x in subterms(o)}
            r = {o for o in r if el(o) in opened} or r
            self._listed = r
        return r

    def paths(self, ck):
        """relative paths are meant relative to the base directory"""
        v = self.v
        n = 0
        first = (t("at", PATHS, C("int", 0)), PE)
        J = [app("Path::join", BASE, p) for p in first]
        for ev in self.calls:
            x = ev.a[2]
            if x in self.globs:
                n += 1
                p = ev.a[1][0]
                ab = None
                for a, y in ev.raw.facts.items():
                    m, y = v.lit(a, y)
                    if m is app("is_absolute", PE):
                        ab = y
                if p is PE:
                    if ab is not True:
                        ck.fail("paths", "a pattern that may be relative is not resolved against the base directory", ev.loc)
                elif contains(p, BASE) and contains(p, PE):
                    if not contains(p, app("Path::join", BASE, PE)) and ab is not False:
                        ck.fail("paths", "a pattern that may be absolute is put below the base directory", ev.loc)
                else:
                    ck.fail("paths", "a pattern that is looked up is not the configured one below the base directory: %s" % show(p)[:80], ev.loc)
            elif x in self.opens:
                n += 1
                p = ev.a[1][0]
                if any(contains(p, e) for e in self.entries) or any(contains(p, el(o)) for o in self.listed()):
                    continue
                if contains(p, BASE) and (contains(p, PE) or contains(p, first[0]) or contains(p, PATHS)):
                    continue
                ck.fail("paths", "the file that is opened is not the configured one below the base directory: %s" % show(p)[:80], ev.loc)
        ck.cover["obligations"] += n
        if not n:
            ck.fail("paths", "no file is opened at all")

    def dispatch(self, ck):
        """each file is read by the parser its artefact configures, and errors carry the file's path"""
        v = self.v
        PV = t("var", F(CFG, "parser"))
        seen = set()
        for x, (p, ev0) in self.parsed.items():
            for ev in self.calls:
                if ev.a[2] is not x:
                    continue
                got = None
                for a, y in ev.raw.facts.items():
                    m, y = v.lit(a, y)
                    if m is PV:
                        got = y if got is None else got & y
                seen.add(p)
                if got != frozenset((p,)):
                    ck.fail("parser", "the %s parser reads files of artefacts configured for %s" % (p, "any parser" if got is None else "/".join(sorted(got))), ev.loc)
                if p != "Json":
                    r, path = ev.a[1][0], ev.a[1][1]
                    o = [y for y in exts(r) if y in self.opens]
                    if len(o) != 1 or not any(z is path for z in o[0].a[2:]):
                        ck.fail("parser", "the path handed to the %s parser is not that of the file it reads" % p, ev.loc)
        for p in ("Markdown", "MonoRequirement", "Rust", "Json"):
            if p not in seen:
                ck.fail("parser", "artefacts configured for the %s parser are not read by it" % p)
        ck.cover["obligations"] += len(self.parsed)

    # ---- ids are unique within an artefact: first kept, later ones reported
    def duplicates(self, ck):
        v = self.v
        n = 0
        for ev in self.all("insert"):
            if ev.base in self.reqs:
                n += 1
                k, x = ev.a[1], ev.a[2]
                if k is not F(x, "id"):
                    ck.fail("duplicates", "a requirement is filed under %s instead of its id" % show(k)[:60], ev.loc)
                new = False
                for a, y in ev.raw.facts.items():
                    if a.op in ("has", "had") and y is False and bases(v.N.norm(a.a[0])) is ev.base and v.N.norm(a.a[1]) is k:
                        new = True
                if not new:
                    ck.fail("duplicates", "a requirement is filed although one with the same id may be there already", ev.loc)
        if not n:
            ck.fail("duplicates", "no requirement is ever filed")
        lists = set(self.reqlists) | self.drains()
        for ev in self.all("reorder", "placed", "backward"):
            if ev.base in lists or ev.tgt in lists:
                ck.fail("duplicates", "requirements are not filed in the order they were read in", ev.loc)
        for p in ("parsers::markdown::parse", "parsers::monoreq::parse"):
            pv = self.ctx.view(p)
            out = set()
            for r in pv.run.retvals:
                r = pv.N.norm(r)
                if is_agg(r, "tuple") and len(r.a) == 5:
                    out.add(bases(r.a[3]))
            for _, _, evs in pv.edges:
                for ev in evs:
                    if ev.k in ("reorder", "placed", "backward") and (ev.base in out or ev.tgt in out):
                        ck.fail("duplicates", "the requirements of a file are not kept in the order they were read in", ev.loc)

        def trigger(ev):
            if ev.k == "assume":
                a, y = ev.raw.a
                if a.op in ("has", "had") and y is True and bases(v.N.norm(a.a[0])) in self.reqs:
                    return [(("dup", v.N.norm(a.a[0]), v.N.norm(a.a[1])), "two requirements with the same id are not reported", frozenset(s for s in ev.sites))]
            return ()

        def settle(ev, key):
            x = self.errpush(ev, "DuplicateRequirement")
            if x is None or len(x.a) != 5:
                return False
            return x.a[3] is get(key[1], key[2]) and F(x.a[4], "id") is key[2]

        obligations(ck, v, "duplicate ids within an artefact", trigger, settle)
        for ev in self.all("push", "insert"):
            x = self.errpush(ev, "DuplicateRequirement")
            if x is not None:
                ok_ = False
                for a, y in ev.raw.facts.items():
                    if a.op in ("has", "had") and y is True and bases(v.N.norm(a.a[0])) in self.reqs and v.N.norm(a.a[1]) is F(x.a[4], "id"):
                        ok_ = True
                if not ok_:
                    ck.fail("duplicates", "a duplicate is reported although the id was not seen before", ev.loc)


# ------------------------------------------------------------------ Controller::new
AC = el(F(CFG, "artefacts"))
CRELS = F(CFG, "relations")
CREL = el(CRELS)
CL = el(F(CREL, "lower"))


class Conf:
    def __init__(self, ctx):
        self.ctx = ctx
        self.v = v = ctx.view("controller::Controller::new")
        self.flow = Flow(v)
        self.problem = None
        rf = ret_fields(v, "Controller")
        self.rf = rf
        if not rf:
            self.problem = "Controller::new does not build a Controller in a form the analysis can follow"
            return
        self.arts = set()
        self.rels = set()
        for g in rf["graph"]:
            if not variant(g) or short(g.a[1]) != "Graph":
                self.problem = "the controller's graph is not built in a form the analysis can follow"
                return
            d = self.fields(g)
            self.arts |= set(self.flow.sinks(bases(d["artefacts"]))) if bases(d["artefacts"]).op == "obj" else {bases(d["artefacts"])}
            self.rels |= set(self.flow.sinks(bases(d["relations"]))) if bases(d["relations"]).op == "obj" else {bases(d["relations"])}
        self.calls = [ev for _, _, evs in v.edges for ev in evs if ev.k == "call"]
        self.pfc = {ev.a[2]: ev for ev in self.calls if str(ev.a[0]) == "controller::parse_from_config"}

    def fields(self, x):
        names = self.v.prog.field_names("", x.a[1], x.a[2]) or [str(i) for i in range(len(x.a) - 3)]
        return dict(zip(names, x.a[3:]))

    def all(self, *ks):
        for _, _, evs in self.v.edges:
            for ev in evs:
                if ev.k in ks:
                    yield ev

    def facts(self, ev):
        out = {}
        for a, y in ev.raw.facts.items():
            n, y = self.v.lit(a, y)
            out[n] = y
        return out

    def known_tables(self):
        """tables whose keys are the configured artefacts"""
        r = getattr(self, "_known", None)
        if r is None:
            r = set()
            by = {}
            for ev in self.all("insert", "push"):
                if ev.base is not None and ev.base.op == "obj":
                    by.setdefault(ev.base, set()).add(ev.a[1])
            for o, ks in by.items():
                if F(AC, "id") in ks and ks <= {F(AC, "id"), CL, F(CREL, "upper")}:
                    r.add(o)
            self._known = r
        return r

    def known_atom(self, a):
        """which relation end an atom asks about: 'upper', 'lower' or None (True means: is a configured artefact)"""
        if a.op == "has" and bases(a.a[0]) in self.known_tables() or a.op == "in" and a.a[0] is F(AC, "id"):
            k = a.a[1]
        elif a.op == "eq" and F(AC, "id") in a.a:
            k = a.a[1] if a.a[0] is F(AC, "id") else a.a[0]
        else:
            return None
        return "upper" if k is F(CREL, "upper") else "lower" if k is CL else None

    def seen_before(self, raw):
        """the table asked is filled in the same pass (and not from a complete earlier pass)"""
        while raw.op == "not":
            raw = raw.a[0]
        if raw.op not in ("has", "had"):
            return True
        keys = {e.raw.a[1] for e in self.all("insert", "push") if e.raw.a[0] is raw.a[0] and e.a[1] is F(AC, "id")}
        return not keys or raw.a[1] in keys

    # ---- what is refused
    def validation(self, ck):
        v = self.v
        DUP = t("in", F(AC, "id"), F(AC, "id"))
        mark = {ev.a[0] for ev in self.all("elem") if ev.a[1] is CRELS}
        lows = {ev.a[0] for ev in self.all("elem") if ev.a[1] is F(CREL, "lower")}
        lsrc = F(CREL, "lower")
        # where relations are kept or dropped: whoever is left afterwards is known
        judged = {s for ev in self.all("keep", "push") if ev.base in self.rels for s in mark if s in ev.sites}

        # state: (dup seen, unknown seen ever, unknown in this relation, upper known, lowers: 0 not looked at / 1 looking / 2 all known)
        def step(m, ev):
            dup, bad, cur, up, low, inl = m
            if cur == "judged" and ev.k != "elem":
                return (True,) + m[1:] if ev.k == "assume" and ev.a[0] is DUP and ev.a[1] is True and self.seen_before(ev.raw.a[0]) else m
            if ev.k == "iterend" and ev.a[0] in judged:
                return (dup, bad, "judged", True, 2, True)
            if ev.k == "elem" and ev.a[1] is CRELS:
                if cur == "judged" and ev.a[0] not in judged:
                    return m
                return (dup, bad, False, False, 0, False)
            if cur == "judged":
                return m
            if ev.k == "elem" and ev.a[1] is lsrc:
                if inl is None:
                    low = -1
                return (dup, bad, cur, up, low, None)
            if ev.k == "iterend" and ev.a[1] is lsrc:
                if inl is None:
                    low = -1
                return (dup, bad, cur, up, 2 if low != -1 and not cur else low, True)
            if ev.k == "assume":
                a, x = ev.a
                if a is DUP and self.seen_before(ev.raw.a[0]):
                    return (True, bad, cur, up, low, inl) if x is True else m
                e = self.known_atom(a)
                if e and a.op != "eq":
                    if x is False:
                        return (dup, True, True, up, low, inl)
                    return (dup, bad, cur, up or e == "upper", low, inl if e != "lower" else True)
                if a.op == "empty" and a.a[0] is lsrc and x is True:
                    return (dup, bad, cur, up, 2, True)
            keep = ev.k == "keep" and ev.base in self.rels or ev.k == "push" and ev.base in self.rels and ev.a[1] is CREL
            if keep:
                if cur:
                    return "a relation with an unknown artefact is kept"
                if not up:
                    return "a relation is kept without checking that its upper artefact is configured"
                if low != 2:
                    return "a relation is kept without checking that its lower artefacts are configured"
            if ev.k == "discard" and ev.base in self.rels:
                if not cur:
                    return "a relation whose artefacts are all configured is dropped"
            return m

        def final(m, ret):
            dup, bad = m[:2]
            c = [y for y in subterms(ret) if variant(y) and short(y.a[1]) == "Controller"]
            if not c:
                return None
            ce = self.fields(c[0])["config_error"]
            if variant(ce, "None"):
                if dup:
                    return "an artefact that is configured twice is not a configuration error"
                if bad:
                    return "a relation with an unknown artefact is not a configuration error"
            elif variant(ce, "Some"):
                if not dup and not bad:
                    return "a valid configuration is refused"
            return None

        walk(ck, v, "validation of the configuration", (False, False, False, False, 0, False), step, final)
        if not any(ev.a[0] is DUP for ev in self.all("assume")):
            ck.fail("validation", "artefacts that are configured twice are not recognised")
        keeps = [ev for ev in self.all("keep", "push") if ev.base in self.rels]
        if not keeps and CRELS in self.rels:
            ck.fail("validation", "relations with unknown artefacts are not recognised")
        # every relation is judged
        rule(ck, v, "relation judged", {CREL},
             lambda ev: ev.k in ("keep", "discard") and ev.base in self.rels or ev.k == "push" and ev.base in self.rels and ev.a[1] is CREL,
             YES if any(ev.k == "keep" for ev in keeps) else NO, YES, strict=False)

    # ---- what an artefact is made of
    def artefacts(self, ck):
        v = self.v
        DUP = Atom(t("in", F(AC, "id"), F(AC, "id")))
        if len(self.pfc) != 1:
            ck.fail("artefacts", "artefacts are not parsed by one call")
            return
        X, pev = next(iter(self.pfc.items()))
        if pev.a[1][0] is not AC or pev.a[1][1] is not BASE:
            ck.fail("artefacts", "an artefact is parsed from (%s, %s)" % tuple(show(y)[:40] for y in pev.a[1]), pev.loc)

        def out(ev):
            if ev.k in ("insert", "push") and ev.base in self.arts:
                if ev.a[1] is not F(AC, "id"):
                    return "an artefact is filed under %s instead of its id" % show(ev.a[1])[:60]
                a = ev.a[-1]
                if not variant(a):
                    return "what is filed as an artefact is %s" % show(a)[:60]
                d = self.fields(a)
                f = self.facts(ev)
                for n, w in (("id", F(AC, "id")), ("files", F(X, "0")), ("requirements", F(X, "1")), ("errors", F(X, "2"))):
                    if d[n] is not w and not self.derived_from(d[n], w):
                        return "an artefact's %s are %s" % (n, show(d[n])[:60])
                r = self.option(f, "reference_with_title", d["reference_with_title"])
                if r:
                    return r
                return self.derived_opt(f, d["ignore_derived_requirements"]) or True
            return False

        rule(ck, v, "artefact in the graph", {AC}, out, Not(DUP), Not(DUP), dup_ok=False)
        for ev in self.all("remove", "clear", "pop", "mut", "discard", "assign"):
            if lost(ev, self.arts):
                ck.fail("artefacts", "artefacts are dropped again (%s)" % ev.k, ev.loc)

    def derived_from(self, x, w):
        return bases(x).op == "obj" and any(el(w) in [e.a[1] for e in self.flow.adds.get(o, {}).values()] or w in [e.a[1] for e in self.flow.adds.get(o, {}).values()] for o in self.flow.sinks(bases(x))) or \
            any(bases(self.v.N.norm(y)) is w for y in self.v.N.cloned.get(bases(x), ()))

    def option(self, f, name, got):
        o = F(AC, name)
        tag = f.get(t("var", o))
        if tag is None:
            if got.op == "fld" and contains(got, o):
                return None
            return "an artefact's %s does not follow its configuration" % name
        if tag == frozenset(("Some",)):
            if got is some_of(o):
                return None
            if is_c(got) and f.get(some_of(o)) is got.a[1]:
                return None
            return "an artefact's %s does not follow its configuration" % name
        if got is not FALSE:
            return "an artefact's %s is not off by default" % name
        return None

    def derived_opt(self, f, got):
        """default: roots (never on the lower side of a relation) ignore derived requirements"""
        o = F(AC, "ignore_derived_requirements")
        tag = f.get(t("var", o))
        if tag == frozenset(("Some",)):
            if got is some_of(o) or is_c(got) and f.get(some_of(o)) is got.a[1]:
                return None
            return "an artefact's ignore_derived_requirements does not follow its configuration"
        if tag is None:
            return "an artefact's ignore_derived_requirements does not follow its configuration"
        neg_ = False
        x = got
        while x.op == "not":
            x, neg_ = x.a[0], not neg_
        if x.op in ("get", "val") or x.op == "fld":
            tb = bases(x.a[0]) if x.op == "get" else None
            if tb is not None and tb.op == "obj" and x.a[1] is F(AC, "id"):
                return self.root_table(tb, neg_)
        low = {}
        for a, y in f.items():
            if a.op in ("has", "in") and a.a[1] is F(AC, "id"):
                low[a] = y
        verdict = None
        for a, y in low.items():
            if a.op == "in" and a.a[0] is CL:
                verdict = y
            elif a.op == "has" and bases(a.a[0]).op == "obj":
                ks = {e.a[1] for e in self.flow.adds.get(bases(a.a[0]), {}).values()}
                if ks == {CL}:
                    verdict = y
        if is_c(got):
            if verdict is not None:
                return None if got.a[1] is (not verdict) else "the default of ignore_derived_requirements is inverted"
            if any(contains(a, CREL) for a in f):
                return None
            if self.scans():
                return None  # judged by scan()
            return "the default of ignore_derived_requirements does not depend on the relations"
        if x.op in ("has", "in") and x.a[1] is F(AC, "id"):
            return None if neg_ else "the default of ignore_derived_requirements is inverted"
        return None

    def scans(self):
        """iterations over all relations that ask for each of them whether the artefact at hand is a lower one"""
        r = self.__dict__.get("_scans")
        if r is None:
            v = self.v
            r = self._scans = set()
            for ev in self.all("assume"):
                if self.is_low(ev) is not None:
                    r |= {s for s in ev.sites if any(v.nn(E) is CREL for E in v.N.elems.get(s, ()))}
        return r

    def is_low(self, ev):
        if ev.k != "assume":
            return None
        a, y = ev.a
        if a.op == "in" and a.a[0] is CL and a.a[1] is F(AC, "id") or a is eqa(CL, F(AC, "id")):
            return y
        return None

    def scan(self, ck):
        v = self.v
        sites = self.scans()
        if not sites:
            return
        const = lambda ev: (self.fields(ev.a[-1])["ignore_derived_requirements"] if ev.k in ("insert", "push") and ev.base in self.arts and variant(ev.a[-1]) else None)

        def made(ev, value):
            x = const(ev)
            return x is not None and is_c(x) and x.a[1] is value and self.facts(ev).get(t("var", F(AC, "ignore_derived_requirements"))) == frozenset(("None",)) and \
                not any(a.op == "has" and bases(a.a[0]).op == "obj" and a.a[1] is F(AC, "id") for a in self.facts(ev))

        def seen(ev):
            if self.is_low(ev) is True:
                return "low"
            if ev.k == "iterend" and ev.a[0] in sites:
                return "none"
            return None

        rule(ck, v, "an artefact whose derived requirements are ignored is no lower one", {AC}, lambda ev: made(ev, True), NO,
             And(Flag("none"), Not(Flag("low"))), strict=False, events=seen)
        rule(ck, v, "an artefact whose derived requirements are not ignored is a lower one", {AC}, lambda ev: made(ev, False), NO,
             Flag("low"), strict=False, events=seen)
        for s in sites:
            site_rule(ck, v, "asking for each relation", {s}, lambda ev: s in ev.sites and (
                self.is_low(ev) is not None or ev.k == "iterend" and v.nn(ev.raw.a[1]) is F(CREL, "lower")), whole_=False)

    def root_table(self, tb, neg_):
        v = self.v
        want = {}
        for ev in self.flow.adds.get(tb, {}).values():
            want.setdefault(ev.a[1], set()).add(ev.a[2])
        t_, f_ = (FALSE, TRUE) if neg_ else (TRUE, FALSE)
        if want.get(F(AC, "id")) != {t_} or want.get(CL) != {f_} or len(want) != 2:
            return "the default of ignore_derived_requirements is not 'never the lower side of a relation'"
        return None

    def roots(self, ck):
        """the table of roots is complete: every artefact starts as root, every lower artefact is no root"""
        v = self.v
        tbs = set()
        for ev in self.all("insert", "push"):
            if ev.base in self.arts and variant(ev.a[-1]):
                x = self.fields(ev.a[-1])["ignore_derived_requirements"]
                for y in subterms(x):
                    if y.op == "get" and bases(y.a[0]).op == "obj":
                        tbs.add(bases(y.a[0]))
                for a in ev.raw.facts:
                    for y in subterms(v.N.norm(a)):
                        if y.op in ("has", "get") and bases(y.a[0]).op == "obj" and y.a[1] is F(AC, "id"):
                            tbs.add(bases(y.a[0]))
        tbs -= self.arts
        for tb in tbs:
            keys = {ev.a[1] for ev in self.flow.adds.get(tb, {}).values()}
            if CL not in keys:
                continue
            hits = lambda ev: ev.k in ("insert", "push") and ev.base is tb and ev.a[1] is CL

            def absent(ev):
                # an artefact that is not in the table: nobody asks for it
                x, y = ev.raw.a
                while x.op == "not":
                    x, y = x.a[0], not y
                return y is False and x.op == "has" and bases(v.nn(x.a[0])) is tb and v.nn(x.a[1]) is CL and F(AC, "id") in keys

            rule(ck, v, "lower artefact is no root", {CREL, CL}, hits, YES, YES, strict=False, noop=absent)
            if F(AC, "id") in keys:
                rule(ck, v, "artefact starts as root", {AC}, lambda ev: ev.k in ("insert", "push") and ev.base is tb and ev.a[1] is F(AC, "id"), YES, YES, strict=False)

                def step(m, ev):
                    if ev.k == "assume" and absent(ev):
                        return 1
                    if ev.k in ("insert", "push") and ev.base is tb:
                        if ev.a[1] is CL:
                            return 1
                        if m and ev.a[1] is F(AC, "id"):
                            return "an artefact becomes a root again after its relations were looked at"
                    return m

                walk(ck, v, "order of the root table", 0, step)

            def step2(m, ev):
                if ev.k in ("insert", "push") and ev.base in self.arts:
                    return m | 1
                if ev.k in ("insert", "push") and ev.base is tb and m & 1:
                    return "roots are still being determined when artefacts are built"
                return m

            walk(ck, v, "roots are known before artefacts are built", 0, step2)

    # ---- titles
    def titles(self, ck):
        v = self.v
        for X in self.pfc:
            Q = el(F(X, "1"))
            r = val(Q)
            errs = {F(X, "2")}
            for ev in self.all("insert", "push"):
                if ev.base in self.arts and variant(ev.a[-1]):
                    b = bases(self.fields(ev.a[-1])["errors"])
                    errs |= set(self.flow.sinks(b)) if b.op == "obj" else {b}

            def out(ev):
                if ev.k in ("push", "insert") and ev.base in errs:
                    x = ev.a[1]
                    if variant(x, "RequirementWithoutTitle"):
                        return True if x.a[3] is r else "the requirement reported as untitled is %s" % show(x.a[3])[:60]
                    if variant(x) and short(x.a[1]) == "Error":
                        return "an unexpected error is added to an artefact: %s" % x.a[2]
                return False

            o = F(AC, "reference_with_title")
            DUP = Atom(t("in", F(AC, "id"), F(AC, "id")))
            on = And(Var(o, "Some"), Atom(some_of(o)))
            rule(ck, v, "RequirementWithoutTitle error", {AC, Q}, out, And(Not(DUP), on, Var(F(r, "title"), "None")), dup_ok=False)

    # ---- what is handed on
    def carried(self, ck):
        v = self.v
        rf = self.rf
        for n in ("base_dir",):
            if rf[n] != {BASE}:
                ck.fail("controller", "the controller's base directory is not the given one")
        for g in rf["graph"]:
            pass
        for x in rf["traced_graph"]:
            if not (x.op == "ext" and name_of(x) == "trace::trace" and x.a[2] in rf["graph"]):
                ck.fail("controller", "the traced graph is not the trace of the controller's graph")
        for ev in self.calls:
            if str(ev.a[0]) == "trace::trace":
                done_ = ev

        def step(m, ev):
            if ev.k == "call" and str(ev.a[0]) == "trace::trace":
                return 1
            if m and ev.k in ("insert", "push", "keep", "discard", "remove") and (ev.base in self.arts or ev.base in self.rels):
                return "the graph changes after it was traced"
            return m

        walk(ck, v, "the graph is traced when it is complete", 0, step)
        for n in ("jobs", "default_jobs"):
            o = F(CFG, n)

            def final(m, ret, n=n, o=o):
                c = [y for y in subterms(ret) if variant(y) and short(y.a[1]) == "Controller"]
                if not c:
                    return None
                x = self.fields(c[0])[n]
                m = m[0]
                if m == "Some":
                    if x is not some_of(o) and not any(bases(v.N.norm(y)) is some_of(o) for y in v.N.cloned.get(bases(x), ())):
                        return "the controller's %s are not the configured ones" % n
                elif m == "None":
                    if bases(x).op == "obj" and not self.flow.adds.get(bases(x)):
                        return None
                    return "the controller has %s although none are configured" % n
                elif x is not o:
                    return "the controller's %s are not the configured ones" % n
                return None

            def step(m, ev, o=o):
                if ev.k == "assume" and ev.a[0] is t("var", o) and len(ev.a[1]) == 1:
                    return (next(iter(ev.a[1])),)
                return m

            walk(ck, v, "the configured %s are carried over" % n, ("",), step, final)
