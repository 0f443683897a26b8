"""Rules about the value types themselves: identifiers, locations, and what is displayed and serialised of them."""
from terms import *
from norm import el, F
from mon import *
from rules_fmt import LOSSY, whole
import prog as pm
import rx

SELF = t("sym", "self")
OTHER = t("sym", "other")


def impl(ctx, path, names, facts=None, tag=""):
    """the view of any function of the crate, not only of the usual entry points"""
    import run

    old = run.ENTRIES.get(path)
    run.ENTRIES[path] = names
    try:
        return ctx.view(path, facts=facts, tag=tag)
    finally:
        if old is None:
            del run.ENTRIES[path]


def methods(ctx, typ, trait, method):
    """paths of the implementations of trait for typ (several when the trait has parameters)"""
    out = []
    for p in ctx.prog.by_path:
        s = pm.strip_generics(p) if not p.startswith("<") else p
        if "{closure" in p:
            continue
        if p.startswith("<") and p.endswith(">::" + method):
            body = p[1 : -len(">::" + method)]
            ty, _, tr = body.partition(" as ")
            if ty.split("<")[0] == typ and (tr == trait or tr.startswith(trait + "<")):
                out.append(p)
        elif s.endswith("::" + method) and "<impl %s for %s>" % (trait, typ) in p:
            out.append(p)
        elif p.endswith("::" + method) and "<impl %s for %s<" % (trait, typ) in p:
            out.append(p)
    return out


def where(ctx, path):
    b = ctx.prog.by_path[path]
    try:
        return (path, b.file, b.line)
    except AttributeError:
        return (path, "", 0)


def plain(x):
    """peel what does not change a text"""
    while x.__class__ is T and x.op == "app" and len(x.a) == 2 and x.a[1].__class__ is T and short(x.a[0]) in ("disp", "as_display", "cat", "to_owned"):
        x = x.a[1]
    return x


def same_text(x, y):
    x = plain(x)
    return x is y or x is t("fld", y, "0")


def fails(r):
    return r is not None and is_agg(r, "adt") and r.a[2] == "Err"


def okval(r):
    return r.a[3] if r is not None and is_agg(r, "adt") and r.a[2] == "Ok" and len(r.a) > 3 else r


# ------------------------------------------------------------------ identifiers
def compared(ctx, ck, typ):
    """ids are compared by their whole text"""
    found = 0
    for trait, method in (("std::cmp::PartialEq", "eq"), ("std::cmp::PartialEq", "ne"), ("std::cmp::Ord", "cmp"), ("std::cmp::PartialOrd", "partial_cmp"),
                          ("std::cmp::PartialOrd", "lt"), ("std::cmp::PartialOrd", "le"), ("std::cmp::PartialOrd", "gt"), ("std::cmp::PartialOrd", "ge")):
        for p in methods(ctx, typ, trait, method):
            found += 1
            v = impl(ctx, p, ("self", "other"))

            def exact(x):
                nm = x.op
                if nm in ("app", "ext"):
                    nm = short(str(x.a[0] if nm == "app" else x.a[1]))
                if nm in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge"):
                    a = [y for y in x.a if y.__class__ is T]
                    if len(a) >= 2 and len([y for y in a if same_text(y, SELF)]) == 1 and len([y for y in a if same_text(y, OTHER)]) == 1:
                        return True
                return False

            def exactly(x):
                return any(exact(y) for y in subterms(x))

            def step(s, ev):
                if ev.k == "assume" and ev.a[0].__class__ is T and exactly(ev.a[0]):
                    return True
                return None

            def final(s, ret):
                if s or ret is None or exactly(ret):
                    return None
                return "%s of %s does not depend on the whole texts: %s" % (method, short(typ), show(ret)[:160])

            walk(ck, v, "ids are compared as exact text (%s::%s)" % (short(typ), method), False, step, final)
            odd = set()
            for x in list(v.run.retvals) + [ev.a[0] for _, _, es in v.edges for ev in es if ev.k == "assume"]:
                if x.__class__ is not T:
                    continue
                for y in subterms(v.N.norm(x)):
                    if y.op in ("app", "ext") and any(z is SELF or z is OTHER for z in subterms(y)):
                        nm = short(str(y.a[0] if y.op == "app" else y.a[1]))
                        if nm in FOLDING:
                            odd.add(nm)
            if odd and method in ("eq", "ne", "cmp", "partial_cmp"):
                ck.fail("ids are compared as exact text", "%s of %s compares %s of the texts" % (method, short(typ), ", ".join(sorted(odd))), where(ctx, p))
    return found


FOLDING = {"eq_ignore_case", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "eq_ignore_ascii_case", "trim", "trim_start", "trim_end",
           "trim_matches", "trim_end_matches", "trim_start_matches", "replace", "replacen", "make_ascii_lowercase", "make_ascii_uppercase"}


def shown(ctx, ck, typ):
    """Display writes the whole id, once, and nothing else"""
    ps = methods(ctx, typ, "std::fmt::Display", "fmt")
    for p in ps:
        v = impl(ctx, p, ("self", "out"))

        def step(s, ev):
            if ev.k == "write":
                c = plain(ev.a[1])
                if s is None or s:
                    return "more than the text of the id is displayed: %s" % show(ev.a[1])[:120]
                if not same_text(c, SELF):
                    return "%s is displayed instead of the text of the id" % show(ev.a[1])[:120]
                return True
            return None

        def final(s, ret):
            if s or fails(ret):
                return None
            if ret is not None and ret.op == "app" and any(same_text(y, SELF) for y in ret.a if y.__class__ is T):
                return None
            return "the id is not displayed"

        walk(ck, v, "ids are displayed as exact text (%s)" % short(typ), False, step, final)
    return len(ps)


def converted(ctx, ck, typ):
    """From, Clone, Serialize and Deserialize keep the text"""
    n = 0
    for p in methods(ctx, typ, "std::convert::From", "from"):
        n += 1
        v = impl(ctx, p, ("other",))

        def final(s, ret):
            if ret is not None and not same_text(inner(ret), OTHER):
                return "%s is made of %s instead of the text given" % (short(typ), show(ret)[:120])

        walk(ck, v, "ids keep the text they are made from (%s)" % short(typ), True, lambda s, ev: None, final)
    for p in methods(ctx, typ, "std::clone::Clone", "clone"):
        n += 1
        v = impl(ctx, p, ("self",))

        def final(s, ret):
            if ret is not None and not same_text(inner(ret), SELF):
                return "a copy of %s is %s" % (short(typ), show(ret)[:120])

        walk(ck, v, "ids keep their text when copied (%s)" % short(typ), True, lambda s, ev: None, final)
    for p in methods(ctx, typ, "serde::Serialize", "serialize"):
        n += 1
        v = impl(ctx, p, ("self", "ser"))

        def final(s, ret):
            if fails(ret) or ret is None:
                return None
            if not whole(ret, SELF, False) and not whole(ret, t("fld", SELF, "0"), False):
                return "%s is serialised as %s" % (short(typ), show(ret)[:120])

        walk(ck, v, "ids are serialised as exact text (%s)" % short(typ), True, lambda s, ev: None, final)
    for p in ctx.prog.by_path:
        if "<impl serde::Deserialize<'de> for %s>" % typ in p and p.endswith("visit_newtype_struct"):
            n += 1
            v = impl(ctx, p, ("self", "other"))

            def final(s, ret):
                if fails(ret) or ret is None:
                    return None
                x = inner(okval(ret))
                if not (x.op == "fld" and x.a[0].op == "dc" and x.a[0].a[1] == "Ok" and x.a[0].a[0].op in ("app", "ext")
                        and short(str(x.a[0].a[0].a[0] if x.a[0].a[0].op == "app" else x.a[0].a[0].a[1])).startswith("deserialize")):
                    return "%s is read as %s" % (short(typ), show(ret)[:120])

            walk(ck, v, "ids are deserialised as exact text (%s)" % short(typ), True, lambda s, ev: None, final)
    return n


def inner(x):
    """the only field of a newtype value"""
    while is_agg(x, "adt") and len(x.a) == 4:
        x = x.a[3]
    return x


def ids(ctx, ck):
    for typ in ("models::RequirementId", "models::ArtefactId"):
        if not any(p.endswith(typ) for p in ctx.prog.adts):
            ck.notes.append("not decided: there is no type %s" % typ)
            continue
        n = compared(ctx, ck, typ)
        n += shown(ctx, ck, typ)
        n += converted(ctx, ck, typ)
        ck.cover["implementations of %s" % short(typ)] = n


# ------------------------------------------------------------------ locations
REF = r"^(.+?)(?::(\d+))?(?::(\d+))?$"
MEMO = {}


def group(p, i):
    """number of a capture group of pattern p"""
    if isinstance(i, int):
        return i
    n, j, cls = 0, 0, False
    while j < len(p):
        c = p[j]
        if c == "\\":
            j += 1
        elif cls:
            cls = c != "]"
        elif c == "[":
            cls = True
            if p[j + 1 : j + 2] == "]" or p[j + 1 : j + 3] == "^]":
                j += 1 + (p[j + 1] == "^")
        elif c == "(":
            if p[j + 1 : j + 2] != "?":
                n += 1
            else:
                for o in ("?P<", "?<"):
                    if p.startswith(o, j + 1) and p[j + 1 + len(o)] not in "=!":
                        n += 1
                        if p[j + 1 + len(o) :].split(">")[0] == i:
                            return n
                        break
        j += 1
    return None


def is_group(p, i, want):
    k = (p, i, want)
    if k not in MEMO:
        g = group(p, i)
        MEMO[k] = "" if g is None else rx.equivalent(p, REF, group=(g, want))
    return MEMO[k]


def pattern(x):
    """pattern text of caps(Regex(p), s)"""
    for y in x.a:
        if y.__class__ is T:
            for z in subterms(y):
                if is_c(z, "str"):
                    return z.a[1]
    return None


def location_parse(ctx, ck):
    v = ctx.view("models::Location::parse")
    S = t("sym", "s")
    name = "a location text is split at its trailing numbers"
    pats = set()
    unknown = []

    def part(x):
        """(pattern, group) if x is a captured part of the text"""
        x = plain(x)
        if x.op == "cap" and x.a[0].op == "caps" and x.a[0].a[-1] is S:
            i = x.a[1]
            return pattern(x.a[0]), i.a[1] if i.__class__ is T else i
        return None

    def number(x):
        """part of the text x was parsed from"""
        if x.op == "fld" and x.a[0].op == "dc" and x.a[0].a[1] in ("Ok", "Some"):
            x = x.a[0].a[0]
        if x.op in ("app", "ext", "parse"):
            for y in x.a:
                if y.__class__ is T and part(y):
                    return part(y)
        return None

    def which(pg, want):
        """True / message / None"""
        r = is_group(pg[0], pg[1], want)
        if r is True:
            return True
        if r is None:
            unknown.append(pg)
            return True
        return "for the text %r, %s of %r is not the %s" % (r, pg[1], pg[0], ("", "file", "line", "column")[want])

    for _, _, es in v.edges:
        for ev in es:
            if ev.k == "assume" and ev.a[0].__class__ is T and ev.a[0].op == "match" and ev.a[0].a[-1] is S:
                pats.add(pattern(ev.a[0]))
    if not pats:
        ck.notes.append("not decided: Location::parse does not match its text with a regular expression")
        return
    for p in sorted(x for x in pats if x):
        r = rx.equivalent(re_nogroups(p), re_nogroups(REF)) if p else None
        if r is None:
            unknown.append(p)
        elif r is not True:
            ck.fail(name, "the text %r is %s a location by %r" % (r, "not" if True else "", p), where(ctx, "models::Location::parse"))
    ck.cover["location_patterns_compared"] = len(pats)

    def step(s, ev):
        m, line, col, bad = s
        if ev.k != "assume" or ev.a[0].__class__ is not T:
            return None
        a, val_ = ev.a
        if a.op == "match" and a.a[-1] is S:
            return (val_, line, col, bad)
        if a.op == "capset" and a.a[0].op == "caps" and a.a[0].a[-1] is S:
            i = a.a[1].a[1] if a.a[1].__class__ is T else a.a[1]
            p = pattern(a.a[0])
            if is_group(p, i, 2) is True:
                return (m, val_, col, bad)
            if is_group(p, i, 3) is True:
                return (m, line, val_, bad)
        if a.op == "var" and number(t("fld", t("dc", a.a[0], "Ok"), "0")) and val_ <= {"Err", "None"}:
            return (m, line, col, True)
        return None

    def final(s, ret):
        m, line, col, bad = s
        if ret is None:
            return None
        if fails(ret):
            if m is False or bad:
                return None
            return "a valid location text is refused"
        x = okval(ret)
        if not (is_agg(x, "adt") and short(x.a[1]) == "Location"):
            unknown.append(show(ret)[:80])
            return None
        if m is False:
            return "a text without a file part is taken as a location"
        if bad:
            return "a number that is out of range is dropped"
        f = dict(zip(v.prog.field_names(v.run.crate, x.a[1], x.a[2]), x.a[3:]))
        file, lif = f.get("file"), f.get("location_in_file")
        pg = part(file)
        if pg is None:
            return "the file of the location is %s, which is not a part of the text" % show(file)[:100]
        r = which(pg, 1)
        if r is not True:
            return r
        if not is_agg(lif, "adt"):
            unknown.append(show(lif)[:80])
            return None
        if lif.a[2] == "None":
            return "a line number is dropped" if line is not False else None
        y = lif.a[3]
        if not is_agg(y, "adt") or y.a[2] not in ("Line", "LineAndColumn"):
            return "the position becomes %s" % show(y)[:100]
        for want, z in zip((2, 3), y.a[3:]):
            pg = number(z)
            if pg is None:
                return "the %s is %s, which is not read from the text" % (("line", "column")[want - 2], show(z)[:100])
            r = which(pg, want)
            if r is not True:
                return r
        if y.a[2] == "Line" and col is not False:
            return "a column number is dropped"
        return None

    walk(ck, v, name, (None, None, None, False), step, final)
    for u in unknown:
        ck.notes.append("not decided: " + str(u)[:120])


def re_nogroups(p):
    """the same pattern without capture groups"""
    out, j, cls = "", 0, False
    while j < len(p):
        c = p[j]
        if c == "\\":
            out += p[j : j + 2]
            j += 2
            continue
        if cls:
            cls = c != "]"
        elif c == "[":
            cls = True
        elif c == "(":
            if p[j + 1 : j + 2] != "?":
                out += "(?:"
                j += 1
                continue
            for o in ("?P<", "?<"):
                if p.startswith(o, j + 1) and p[j + 1 + len(o)] not in "=!":
                    out += "(?:"
                    j = p.index(">", j) + 1
                    break
            else:
                out += c
                j += 1
            continue
        out += c
        j += 1
    return out


def location_shown(ctx, ck):
    """file[:line[:column]]"""
    name = "a location is displayed as file:line:column"
    lif = F(SELF, "location_in_file")
    s = t("fld", t("dc", lif, "Some"), "0")

    def of(x, V, i):
        return t("fld", t("dc", x, V), i)

    def expect(parts):
        return parts

    def pieces(x):
        x = x if x.__class__ is T else C("str", str(x))
        if x.op == "app" and short(x.a[0]) in ("disp", "as_display") or x.op == "disp":
            return pieces([y for y in x.a if y.__class__ is T][-1])
        if x.op == "cat" or x.op == "app" and x.a[0] == "cat":
            out = []
            for y in x.a[0 if x.op == "cat" else 1 :]:
                out += pieces(y)
            return out
        if is_c(x, "str"):
            return [x.a[1]] if x.a[1] else []
        return [x]

    def flat(ps):
        out = []
        for x in ps:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        return tuple(out)

    # every shape of location, as (facts, expected pieces)
    def check(typ, shapes):
        for p in methods(ctx, typ, "std::fmt::Display", "fmt"):
            for tag, facts, want in shapes:
                v = impl(ctx, p, ("self", "out"), facts=facts, tag=tag)

                def step(st, ev):
                    if ev.k == "write":
                        return st + tuple(pieces(ev.a[1]))
                    if ev.k in ("elem", "unknown"):
                        return st + ("?",)
                    return None

                def final(st, ret):
                    if fails(ret):
                        return None
                    got = flat(st)
                    if any(got == flat(w) for w in want):
                        return None
                    return "%s (%s) is displayed as %s" % (short(typ), tag, " ".join(x if isinstance(x, str) else show(x) for x in got)[:120] or "nothing")

                walk(ck, v, name, (), step, final)

    fl = F(SELF, "file")
    sv = t("var", lif)
    vs = lambda x, V: {t("var", x): frozenset((V,))}
    check("models::LocationInFile", [
        ("Line", vs(SELF, "Line"), [(of(SELF, "Line", "0"),)]),
        ("LineAndColumn", vs(SELF, "LineAndColumn"), [(of(SELF, "LineAndColumn", "0"), ":", of(SELF, "LineAndColumn", "1"))]),
        ("String", vs(SELF, "String"), [(of(SELF, "String", "0"),)]),
    ])
    two = lambda V: {sv: frozenset(("Some",)), t("var", s): frozenset((V,))}
    check("models::Location", [
        ("no position", {sv: frozenset(("None",))}, [(fl,)]),
        ("Line", two("Line"), [(fl, ":", s), (fl, ":", of(s, "Line", "0"))]),
        ("LineAndColumn", two("LineAndColumn"), [(fl, ":", s), (fl, ":", of(s, "LineAndColumn", "0"), ":", of(s, "LineAndColumn", "1"))]),
        ("String", two("String"), [(fl, ":", s), (fl, ":", of(s, "String", "0"))]),
    ])


# ------------------------------------------------------------------ fields
def parts(ctx, typ):
    """(variant or None, [fields]) of a type"""
    a = ctx.prog.adts.get(typ)
    if a is None:
        return
    for vr in a["variants"]:
        nm = vr["name"]
        fs = ctx.prog.field_names("", typ, nm)
        yield (nm if a["kind"] == "Enum" else None), fs


def fld_of(V, f):
    return t("fld", SELF if V is None else t("dc", SELF, V), f)


def gone(lits, x):
    """x is known to hold nothing"""
    for a, v in lits:
        if a.op == "var" and a.a[0] is x and v == frozenset(("None",)):
            return True
        if a.op in ("empty", "isempty") and a.a[0] is x and v is True:
            return True
        if a.op == "nonempty" and a.a[0] is x and v is False:
            return True
    return False


def displayed(ctx, ck, typ, skip=()):
    """every part of the value is in its displayed text"""
    name = "every part of %s is displayed" % short(typ)
    ps = methods(ctx, typ, "std::fmt::Display", "fmt")
    if not ps:
        ck.notes.append("not decided: %s is not displayed" % typ)
    for p in ps:
        for V, fs in parts(ctx, typ):
            facts = {t("var", SELF): frozenset((V,))} if V else None
            v = impl(ctx, p, ("self", "out"), facts=facts, tag=V or "")
            want = {f: fld_of(V, f) for f in fs if f not in skip and (V, f) not in skip}
            el_of = {f: el(x) for f, x in want.items()}
            # lists: what their elements are put into, and the loops that visit them
            into, sites, direct = {}, {}, set()
            for _, _, es in v.edges:
                for ev in es:
                    if ev.k == "elem" and ev.a[1].__class__ is T:
                        for f, x in want.items():
                            if ev.a[1] is x:
                                sites.setdefault(f, set()).add(ev.a[0])
                    if ev.k in ("write", "push", "insert", "strpush") and ev.a[-1].__class__ is T:
                        for f, x in el_of.items():
                            if whole(ev.a[-1], x):
                                o = base(ev.a[0]) if ev.a[0].__class__ is T else None
                                if o is not None and o.op == "obj":
                                    into.setdefault(f, set()).add(o)
                                else:
                                    direct.add(f)
            for f in set(into) | direct:

                def out(ev, f=f):
                    return ev.k in ("write", "push", "insert", "strpush") and ev.a[-1].__class__ is T and whole(ev.a[-1], el_of[f])

                if sites.get(f):
                    site_rule(ck, v, name, sites[f], out, exempt=lambda ret, evs: fails(ret))

            def step(s, ev):
                seen, lits = s
                got = set()
                if ev.k in ("write", "strpush"):
                    c = ev.a[-1]
                    if c.__class__ is not T:
                        return None
                    got = {f for f, x in want.items() if whole(c, x)}
                    got |= {f for f, os in into.items() if any(base(y) in os for y in subterms(c))}
                elif ev.k == "iterend":
                    got = {f for f in direct if any(y is want[f] for y in ev.a if y.__class__ is T)}
                elif ev.k == "assume" and ev.a[0].__class__ is T and ev.a[0].op in ("var", "empty", "isempty", "nonempty"):
                    return (seen, lits | {(ev.a[0], ev.a[1])})
                return (seen | got, lits) if got - seen else None

            def final(s, ret):
                if fails(ret):
                    return None
                seen, lits = s
                miss = [f for f, x in want.items() if f not in seen and not gone(lits, x)]
                if ret is not None:
                    miss = [f for f in miss if not (ret.op in ("app", "ext") and whole(ret, want[f]))]
                if miss:
                    return "%s is displayed without its %s" % (short(typ) + ("::" + V if V else ""), ", ".join(miss))

            walk(ck, v, name, (frozenset(), frozenset()), step, final)


def serialised(ctx, ck, typ):
    """every field of the value is handed to the serialiser on every successful path"""
    name = "every part of %s is serialised" % short(typ)
    ps = methods(ctx, typ, "serde::Serialize", "serialize")
    if not ps:
        ck.notes.append("not decided: %s has no Serialize implementation" % typ)
    for p in ps:
        for V, fs in parts(ctx, typ):
            facts = {t("var", SELF): frozenset((V,))} if V else None
            v = impl(ctx, p, ("self", "ser"), facts=facts, tag=V or "")
            want = {f: fld_of(V, f) for f in fs}
            names = set(fs)

            def given(x):
                """fields among the arguments of serialiser calls inside x, and key/field mix-ups"""
                got = set()
                for y in x if isinstance(x, tuple) else subterms(x):
                    args = [z for z in (y if isinstance(y, tuple) else y.a if y.op in ("app", "ext") else ()) if z.__class__ is T]
                    lit = [z.a[1] for z in args if is_c(z, "str")]
                    for f, w in want.items():
                        if any(holds(ctx, z, w) for z in args):
                            k = lit[-1] if lit else f
                            if k in names and k != f:
                                return "the field %s of %s is serialised as %s" % (f, short(typ), k)
                            got.add(f)
                return got

            def step(s, ev):
                seen, lits = s
                if ev.k == "call" and "erialize" in str(ev.a[0]):
                    g = given((ev.a[1],))
                    if isinstance(g, str):
                        return g
                    return (seen | g, lits) if g - seen else None
                if ev.k == "assume" and ev.a[0].__class__ is T and ev.a[0].op in ("var", "empty", "isempty", "nonempty"):
                    g = given(ev.a[0])
                    if isinstance(g, str):
                        return g
                    return (seen | g, lits | {(ev.a[0], ev.a[1])})
                return None

            def final(s, ret):
                if ret is None or fails(ret):
                    return None
                seen, lits = s
                g = given(ret)
                if isinstance(g, str):
                    return g
                miss = [f for f in fs if f not in seen and f not in g and not gone(lits, want[f])]
                if miss:
                    return "%s is serialised without its %s" % (short(typ) + ("::" + V if V else ""), ", ".join(miss))

            walk(ck, v, name, (frozenset(), frozenset()), step, final)


def holds(ctx, z, w):
    """z hands on the whole of w"""
    if z is w:
        return True
    if z.__class__ is T and z.op in ("app", "ext", "agg", "map"):
        return whole(z, w)
    return False


SER = ("models::Requirement", "models::Reference", "models::Location", "models::LocationInFile", "models::Error", "models::Relation",
       "formatters::serialize::Requirements", "formatters::serialize::Errors")
SER_TRACE = ("models::Coverage", "models::TracedRelation", "models::TracedGraph", "models::Artefact", "formatters::serialize::Trace")


def json_types(ctx, ck):
    for x in SER + SER_TRACE:
        serialised(ctx, ck, x)


def error_text(ctx, ck):
    displayed(ctx, ck, "models::Error")
    displayed(ctx, ck, "models::Relation")


def controller_text(ctx, ck):
    displayed(ctx, ck, "controller::ControllerError")
