"""Rules about the Rust source parser: the file, the item callbacks and the coverage marks."""
from terms import *
from norm import F
from mon import *

SELF, NODE, PATH, READER = t("sym", "self"), t("sym", "node"), t("sym", "path"), t("sym", "reader")
DEAD = ("dead",)
MARK = "requirement_covered"

# functions whose meaning the rules know; a term built from anything else is not judged
KNOWN = {
    "proc_macro2::Span::start", "proc_macro2::Span::end", "proc_macro2::Ident::span", "proc_macro2::TokenTree::span",
    "syn::spanned::Spanned::span", "syn::Error::span", "syn::LitStr::value", "syn::lit::value::syn::Lit::new", "join",
    "quote::ToTokens::to_token_stream", "syn::parse_file", "proc_macro2::Literal::span", "replace", "trim", "proc_macro2::Span::call_site",
}
SPANS = ("proc_macro2::Ident::span", "proc_macro2::TokenTree::span", "syn::spanned::Spanned::span", "syn::Error::span", "proc_macro2::Literal::span")

# item kinds that hold marks: callback -> where the item's name is found
ITEMS = {
    "visit_item_fn": ("sig", "ident"),
    "visit_impl_item_method": ("sig", "ident"),
    "visit_trait_item_method": ("sig", "ident"),
    "visit_item_trait": ("ident",),
    "visit_item_mod": ("ident",),
    "visit_item_impl": None,
}


def strange(x):
    """built from something whose meaning is not known here"""
    if x.__class__ is not T:
        return False
    for y in subterms(x):
        if y.op == "app" and y.a[0] not in KNOWN:
            return True
        if y.op in ("ext", "phi", "widen", "outp", "fresh", "sub", "mutated"):
            return True
    return False


def struct(view, x):
    if is_agg(x, "adt"):
        return dict(zip(view.prog.field_names(view.run.crate, x.a[1], x.a[2]), x.a[3:]))
    return {}


def adt(x, name):
    return is_agg(x, "adt") and short(x.a[1]) == name


def span_of(x):
    """X of start(span(X))"""
    if x.op == "app" and x.a[0] == "proc_macro2::Span::start" and x.a[1].op == "app" and x.a[1].a[0] in SPANS:
        return x.a[1].a[1]
    return None


def bad_loc(view, x, path, of=None):
    """what is wrong with a location (None: nothing, or not known)"""
    if not adt(x, "Location"):
        return None
    f = struct(view, x)
    p = f.get("file")
    if p is not None and p is not path and not strange(p):
        return "the file of a location is %s" % show(p)
    pos = f.get("location_in_file")
    if pos is None or not is_agg(pos, "adt"):
        return None
    if pos.a[2] == "None":
        return "a location has no line"
    q = pos.a[3]
    if not is_agg(q, "adt"):
        return None
    line = q.a[3]
    if strange(line):
        return None
    if not (line.op == "fld" and line.a[1] == "line"):
        return "the line of a location is %s" % show(line)
    s = span_of(line.a[0])
    if s is None:
        return "the line of a location is %s, not the line something starts at" % show(line)
    if len(q.a) > 4:
        col = q.a[4]
        if not strange(col) and col is not F(line.a[0], "column"):
            return "the column of a location is %s while its line is %s" % (show(col), show(line))
    if of is not None and not of(s):
        return "the location is that of %s" % show(s)
    return None


def locs_in(x):
    return [y for y in subterms(x) if adt(y, "Location")] if x.__class__ is T else []


class Rust:
    """all rules of the Rust parser; bad findings are kept per tag and reported by `report`"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.problem = None
        self.parts = {"text": [], "loc": []}
        self.cover = {"text": Check(), "loc": Check()}
        self.file()
        self.items()
        self.macro()

    def report(self, ck, tag):
        ck.merge(self.cover[tag])

    # ------------------------------------------------------------ the file
    def file(self):
        v = self.ctx.view("parsers::rust::parse")
        ck, ckl = self.cover["text"], self.cover["loc"]
        rets = []

        def step(m, ev):
            m = dict(m)
            if ev.k == "ioerr":
                m["err"] = "read"
            elif ev.k == "assume" and ev.a[0].op == "var":
                x = ev.a[0].a[0]
                if x.op == "app" and x.a[0] == "syn::parse_file":
                    m["parse"] = "/".join(sorted(ev.a[1]))
            elif ev.k == "call" and ev.a[0].endswith("::visit_file"):
                if m.get("visited"):
                    return "the file is walked twice"
                a = ev.a[1]
                if len(a) > 1 and not strange_file(a[1]):
                    return "%s is walked instead of the parsed file" % show(a[1])
                m["visited"] = ev.a[2]
            elif ev.k == "push" and is_agg(ev.a[1], "adt") and short(ev.a[1].a[1]) == "Error":
                m["rep"] = m.get("rep", ()) + (ev.a[1].a[2],)
                m["objs"] = m.get("objs", frozenset()) | {ev.base}
            return frozenset(m.items())

        def strange_file(x):
            return x.op == "fld" and x.a[1] == "0" or strange(x)

        def final(m, ret):
            m = dict(m)
            rets.append(m)
            if m.get("err") == "read" and "Io" not in m.get("rep", ()):
                return "a file that cannot be read is not reported"
            if m.get("parse") == "Err" and "Format" not in m.get("rep", ()):
                return "a file that is not valid Rust is not reported"
            if m.get("parse") == "Ok" and not m.get("visited"):
                return "a parsed file is not walked"
            if ret is not None and is_agg(ret) and ret.a[0] == "tuple":
                rs, es = fields(ret)[:2]
                if m.get("visited"):
                    for i, (x, want) in enumerate(((rs, "requirements"), (es, "errors"))):
                        if x.op == "obj":
                            # the walk may have filled it through a reference
                            if not contains(m["visited"], x):
                                return "what the walk of the file found is not returned"
                        elif x.op == "fld" and x.a[0].op == "outp" and x.a[1] != want and x.a[1] in ("requirements", "errors", "scope", "locations"):
                            return "%s is returned for the %s" % (x.a[1], want)
                elif m.get("rep") and es.op == "obj" and es not in m["objs"]:
                    return "the reported error is not returned"
            return None

        walk(ck, v, "a readable file is parsed and walked, any failure is reported", frozenset(), step, final)

        def lstep(m, ev):
            if ev.k == "push":
                for x in locs_in(ev.a[1]):
                    b = bad_loc(v, x, PATH)
                    if b:
                        return "error of the file: " + b
                if adt(ev.a[1], "Error") and ev.a[1].a[2] == "Io":
                    p = ev.a[1].a[3]
                    if p is not PATH and not strange(p):
                        return "a read error names %s as its file" % show(p)
            if ev.k == "call" and ev.a[0].endswith("::visit_file"):
                f = struct(v, ev.a[1][0])
                if "path" in f and f["path"] is not PATH and not strange(f["path"]):
                    return "the walk is given %s as the file's path" % show(f["path"])
            return m

        walk(ckl, v, "errors of the file carry its path and the position of the syntax error", 0, lstep)

    # ------------------------------------------------------------ items
    def items(self):
        ck, ckl = self.cover["text"], self.cover["loc"]
        for name, where in sorted(ITEMS.items()):
            p = self.ctx.visits.get(name)
            if p is None:
                ck.fail("items", "there is no callback %s: marks inside such items are not given to them" % name)
                continue
            self.item(ck, ckl, name, where, self.ctx.view(p))

    def item(self, ck, ckl, name, where, v):
        def names(x):
            if where is not None:
                want = F(NODE, *where)
                return x.op == "disp" and x.a[0] is want
            return False

        def impl_ok(x, lits):
            want = [F(NODE, "self_ty")]
            tr = lits.get(t("var", F(NODE, "trait_")))
            if tr == frozenset({"Some"}):
                want.append(F(F(t("dc", F(NODE, "trait_"), "Some"), "0"), "1"))
            return all(contains(x, w) for w in want)

        def frame(x, lits):
            """is x (something pushed on a stack) the item's name / a location; None: not known"""
            if is_agg(x, "tuple") or is_agg(x, "adt") and not adt(x, "Location"):
                return [y for f in fields(x) for y in frame(f, lits)]
            if adt(x, "Location"):
                return ["loc"]
            if strange(x) and not (where is None and x.op in ("cat", "disp")):
                return ["?"]
            if where is None:
                return ["name" if impl_ok(x, lits) else "wrong"]
            return ["name" if names(x) else "wrong"]

        def selfish(x):
            return x is SELF or x.op == "fld" and selfish(x.a[0])

        def step(m, ev):
            if m is DEAD:
                return None
            stacks, lits, done = m
            d = dict(stacks)
            if ev.k == "assume":
                l = dict(lits)
                l[ev.a[0]] = ev.a[1]
                a = ev.a[0]
                if a.op == "empty" and ev.a[1] is True and d.get(a.a[0]):
                    return DEAD  # what was just entered is there
                return stacks, frozenset(l.items()), done
            if ev.k == "push" and selfish(ev.tgt):
                d[ev.tgt] = d.get(ev.tgt, ()) + tuple(frame(ev.a[1], dict(lits)))
                if "wrong" in d[ev.tgt]:
                    return "an item is entered under %s, not its own name" % show(ev.a[1])
            elif ev.k == "pop" and selfish(ev.tgt):
                if not d.get(ev.tgt):
                    return "leaving the item removes an enclosing one from %s" % show(ev.tgt)
                d[ev.tgt] = ()
            elif ev.k in ("placed", "reorder") and selfish(ev.tgt):
                return "an item is not entered innermost on %s" % show(ev.tgt)
            elif ev.k in ("clear", "remove", "write", "keep", "mut") and selfish(ev.tgt if ev.tgt.__class__ is T else SELF):
                d["?"] = ("?",)
            elif ev.k == "call" and ev.a[0].startswith("syn::visit::visit_"):
                if ev.a[0].rsplit("::", 1)[-1] == name:
                    if done:
                        return "the content of the item is walked twice"
                    if ev.a[1][1] is not NODE and not strange(ev.a[1][1]):
                        return "%s is walked instead of the item" % show(ev.a[1][1])
                    have = [y for s in d.values() for y in s]
                    if "?" not in have:
                        if "name" not in have:
                            return "the content of the item is walked without having entered the item"
                        if "loc" not in have:
                            return "the content of the item is walked without having recorded where the item is"
                    return stacks, lits, True
                return None
            else:
                return None
            return frozenset(d.items()), lits, done

        def final(m, ret):
            if m is DEAD:
                return None
            stacks, lits, done = m
            if not done:
                return "the content of the item is not walked, marks in it are lost"
            for s, f in stacks:
                if f and s != "?" and "?" not in dict(stacks):
                    return "the item is still on %s after it has been left" % show(s)
            return None

        walk(ck, v, "%s enters the item, walks its content once and leaves it" % name, (frozenset(), frozenset(), False), step, final)

        def lstep(m, ev):
            if ev.k == "push":
                for x in locs_in(ev.a[1]):
                    want = F(NODE, *where) if where else F(NODE, "self_ty")
                    b = bad_loc(v, x, F(SELF, "path"), lambda s: s is want or s.op == "fld" and s is not NODE and contains(s, NODE) and contains(want, s))
                    if b:
                        return "item: " + b
            return m

        walk(ckl, v, "%s records the position of the item's name" % name, 0, lstep)

    # ------------------------------------------------------------ marks
    def macro(self):
        ck, ckl = self.cover["text"], self.cover["loc"]
        p = self.ctx.visits.get("visit_expr_macro")
        if p is None:
            ck.fail("marks", "there is no callback for macro invocations: no mark is read")
            return
        v = self.ctx.view(p)
        MP = F(NODE, "mac", "path")
        TOK = F(NODE, "mac", "tokens")
        REQS, ERRS = F(SELF, "requirements"), F(SELF, "errors")
        toks = set()
        for _, _, evs in v.edges:
            for ev in evs:
                if ev.k == "push" and ev.a[1].__class__ is T and ev.a[1] is t("el", TOK):
                    toks.add(ev.base)

        def token(x):
            """number of the token x, '?' for an unknown one, None for no token"""
            if x.op == "at" and base_of(x.a[0]) in toks or x.op == "at" and x.a[0] is TOK:
                return x.a[1].a[1] if is_c(x.a[1]) else "?"
            if contains(x, TOK) or any(contains(x, o) for o in toks):
                return "?"
            return None

        def base_of(x):
            return x.a[0] if x.op == "objref" else x

        def text(x):
            """(kind, token number) of a text taken from a token: 'ident', 'str'; None: anything else"""
            if x.op == "disp" and x.a[0].op == "fld" and x.a[0].a[0].op == "dc" and x.a[0].a[0].a[1] == "Ident":
                return "ident", token(x.a[0].a[0].a[0])
            if x.op == "app" and x.a[0] == "syn::LitStr::value":
                s = [y for y in subterms(x) if y.op == "at"]
                return "str", token(s[0]) if len(s) == 1 else "?"
            return None

        def is_ref(x):
            return adt(x, "Reference")

        def fullrefs(x):
            return [y for y in subterms(x) if is_ref(y)] if x.__class__ is T else []

        ID = None
        counts = {}

        def count(lits):
            for a, val in lits.items():
                if a.op == "eq" and val is True and is_c(a.a[0], "int") and a.a[1].op == "len" and base_of(a.a[1].a[0]) in toks:
                    return a.a[0].a[1]
            return None

        def known(lits, *names):
            return all(lits.get(k) == w for k, w in names)

        def is_scope(x):
            return x.op == "app" and x.a[0] == "join" and x.a[1].op == "fld" and x.a[1].a[0] is SELF

        def tokvar(lits, i):
            for a, val in lits.items():
                if a.op == "var" and a.a[0].op == "at" and token(a.a[0]) == i:
                    return val
            return None

        def strlit(lits, i):
            for a, val in lits.items():
                if a.op == "var" and a.a[0].op == "app" and a.a[0].a[0].endswith("Lit::new"):
                    if any(y.op == "at" and token(y) == i for y in subterms(a.a[0])):
                        return val == frozenset({"Str"})
            return None

        good = set()
        vague = set()

        def judge_ref(x, lits):
            f = struct(v, x)
            i, ti = f.get("id"), f.get("title")
            k = text(i)
            n = count(lits)
            if k is None:
                if not strange(i):
                    return "the id of a mark becomes %s" % show(i)
                vague.add(x)
            elif k[1] not in (0, "?"):
                return "the id of a mark is taken from its argument token %s" % (k[1],)
            if k is None or k[1] == "?":
                vague.add(x)
            if is_agg(ti, "adt") and ti.a[2] == "None":
                if n is not None and n >= 3:
                    return "the title of a mark is dropped"
                if k is not None:
                    good.add((k[0], None))
            elif is_agg(ti, "adt") and ti.a[2] == "Some":
                tt = text(ti.a[3])
                if tt is None:
                    if not strange(ti.a[3]):
                        return "the title of a mark becomes %s" % show(ti.a[3])
                    vague.add(x)
                elif tt[0] != "str" or tt[1] not in (2, "?"):
                    return "the title of a mark is %s" % show(ti.a[3])
                if k is not None:
                    good.add((k[0], "str"))
            else:
                vague.add(x)
            return None

        # state: lits, refs gathered in local lists, attached count, error count, searched sites
        def step(m, ev):
            lits, local, att, err, seen = m
            k = ev.k
            if k == "assume":
                l = dict(lits)
                l[ev.a[0]] = ev.a[1]
                return frozenset(l.items()), local, att, err, seen
            if k == "elem":
                l = [(a, b) for a, b in lits if not (a.__class__ is T and any(contains(a, y) for y in ev.binds))]
                return frozenset(l), local, att, err, seen
            if k == "iterend":
                return lits, local, att, err, seen | {ev.a[1]}
            if k not in ("push", "insert", "mut", "write", "strpush", "call"):
                return None
            l = dict(lits)
            if k == "push" and is_ref(ev.a[1]):
                b = judge_ref(ev.a[1], l)
                if b:
                    return b
                tgt = ev.tgt
                if tgt.op == "fld" and contains(tgt, REQS):
                    if tgt.a[1] != "covers":
                        return "a mark is recorded among the %s of its requirement" % tgt.a[1]
                    r = tgt.a[0]
                    same = None
                    for a, val in lits:
                        if a.op == "eq" and contains(a, F(r, "id")):
                            same = val if same is not False else same
                            o = a.a[0] if a.a[1] is F(r, "id") else a.a[1]
                            if not is_scope(o) and not strange(o):
                                return "the requirement a mark belongs to is looked up by %s" % show(o)
                    if not same and not any(strange(a) and contains(a, r) for a, _ in lits if a.__class__ is T):
                        return "a mark is added to a requirement that need not be that of the item it is in"
                    return lits, local, att + 1, err, seen
                if tgt.op == "obj" or tgt.op == "objref":
                    return lits, local | {(ev.base, ev.a[1])}, att, err, seen
                return lits, local, att + 1, err, seen
            if k in ("push", "insert") and ev.tgt is REQS or k == "push" and adt(ev.a[1], "Requirement"):
                x = ev.a[1]
                if not adt(x, "Requirement"):
                    return lits, local, att + 1, err, seen
                f = struct(v, x)
                rid, loc, cov = f.get("id"), f.get("location"), f.get("covers")
                if not is_scope(rid):
                    if not strange(rid) and not any(y.op == "obj" for y in subterms(rid)):
                        return "the requirement of a mark is named %s instead of the path of its item" % show(rid)
                elif rid.a[2] is not C("str", "::"):
                    return "the path of an item is joined by %s" % show(rid.a[2])
                mine = [r for o, r in local if o is base_of(cov)]
                if cov.op in ("obj", "objref") and not mine:
                    return "the requirement of a mark does not cover it"
                for o in ("depends", "tags", "attributes"):
                    if any(b is base_of(f[o]) for b, _ in local):
                        return "a mark is recorded among the %s of its requirement" % o
                ti = f.get("title")
                if is_agg(ti, "adt") and ti.a[2] == "Some" and not strange(ti):
                    return "the requirement of a mark is given a title"
                looked = {s for s in seen if s is REQS or contains(s, REQS)}
                facts = [a for a, _ in lits if a.__class__ is T and contains(a, REQS)]
                weak = all(narrow(a) for a in facts)
                if not looked and weak:
                    return "a requirement is created for a mark without having looked for one among all requirements found so far"
                return lits, local, att + 1, err, seen
            if k == "push" and (ev.tgt is ERRS or adt(ev.a[1], "Error")):
                return lits, local, att, err + 1, seen
            if k != "call" and any(y for a in ev.a[1:] for y in (fullrefs(a) if a.__class__ is T else [])):
                return lits, local, att + 1, err, seen
            if k == "call" and any(fullrefs(a) for a in ev.a[1] if a.__class__ is T):
                return lits, local, att + 1, err, seen
            if k == "mut" and ev.tgt is not None and contains(ev.tgt, REQS):
                return lits, local, att, err, seen | {REQS}
            return None

        def narrow(a):
            """a fact about one fixed requirement only"""
            for y in subterms(a):
                if y.op in ("el", "has", "in", "get", "find"):
                    return False
            return not strange(a)

        def mark(l):
            """True/False/None: the invocation is a mark"""
            r = None
            for a, val in l.items():
                if a.__class__ is not T or not contains(a, NODE) and a.op != "eq":
                    continue
                if contains(a, MP):
                    if any(is_c(y, "str") and y.a[1] == MARK for y in subterms(a)):
                        if val is True:
                            r = True if r is None else r
                        elif val is False:
                            return False
                    elif val is False and a.op == "eq" and any(y.op == "len" for y in a.a):
                        return False
                    elif strange(a):
                        return None if val is not True else r
            return r

        recognised = []

        def final(m, ret):
            lits, local, att, err, seen = m
            l = dict(lits)
            is_m = mark(l)
            if is_m is True:
                recognised.append(1)
                if not att and not err:
                    return "a mark is dropped silently"
                if att > 1:
                    return "a mark is recorded twice"
                if att and err:
                    return "a mark that is recorded is reported as an error as well"
                if err:
                    n = count(l)
                    inside = l.get(t("empty", F(SELF, "locations"))) is not True and l.get(t("empty", F(SELF, "scope"))) is not True
                    v0 = tokvar(l, 0)
                    if inside and n == 1 and (v0 == frozenset({"Ident"}) or strlit(l, 0)):
                        return "a mark with an id is reported as malformed"
                    if inside and n == 3 and v0 == frozenset({"Ident"}) and strlit(l, 2):
                        return "a mark with an id and a title is reported as malformed"
            elif is_m is False:
                if att or err:
                    return "a macro invocation that is no mark is treated as one"
            return None

        walk(ck, v, "every mark is recorded once for the item it is in, or reported", (frozenset(), frozenset(), 0, 0, frozenset()), step, final)
        if not recognised and not vague:
            names = set()
            for _, _, evs in v.edges:
                for ev in evs:
                    if ev.k == "assume" and contains(ev.a[0], NODE):
                        if any(is_c(y, "str") and y.a[1] == MARK for y in subterms(ev.a[0])):
                            names.add(1)
            ck.fail("marks", "no invocation of %s! is recognised as a mark" % MARK) if not names else ck.notes.append("marks: recognition not understood")
        if not vague:
            for want, what in ((("ident", None), "an id"), (("str", None), "an id in quotes"), (("ident", "str"), "an id and a title")):
                if want not in good:
                    ck.fail("marks", "marks with %s are not recorded" % what)

        def lstep(m, ev):
            if ev.k not in ("push", "insert"):
                return m
            x = ev.a[1]
            for y in fullrefs(x):
                def of(s):
                    return contains(s, MP) or s is NODE or s is F(NODE, "mac")
                b = bad_loc(v, struct(v, y).get("location"), F(SELF, "path"), of)
                if b:
                    return "reference of a mark: " + b
            if adt(x, "Error"):
                for y in locs_in(x):
                    b = bad_loc(v, y, F(SELF, "path"))
                    if b:
                        return "error of a mark: " + b
            if adt(x, "Requirement"):
                l = struct(v, x).get("location")
                if l.op == "last" and l.a[0].op == "fld" and l.a[0].a[0] is SELF:
                    return m
                if adt(l, "Location"):
                    return "the requirement of a mark is located at %s instead of its item" % show(l)
                if l.op == "at" or l.op == "app" and l.a[0] in ("first", "at"):
                    return "the requirement of a mark is located at an outer item (%s)" % show(l)
            return m

        walk(ckl, v, "marks, their errors and their requirements carry the position they were found at", 0, lstep)
