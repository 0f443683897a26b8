"""Rules about failures: every construct that can panic is found on the abstract paths and classified.

A panic event stands for one construct (indexing, unwrap/expect, explicit panic, slicing, division, subtraction) on one
abstract path on which its precondition has not been established by the path itself.  It is then either
  discharged  by an invariant of the data it looks at (which is checked itself where the data is built here),
  an alarm    when its precondition is controlled by an input, a configuration, a name or an i/o result, or
  a note      when nothing is known about it."""
import re
from terms import *
from norm import el, F, els
from mon import *
from rules_trace import val, get
import rules_vals as RV
import prog as pm

IDS_OF = ("artefacts", "requirements")
NEW = "controller::Controller::new"
SKIP = ("LAZY", "LazyStatic", "assert_fields_are_eq", "::_", "_serde", "serde::")
DERIVED = ("fmt::Debug", "clone::Clone", "default::Default")


def names(x):
    """field names on the way from the root of an access path"""
    out = []
    while x.__class__ is T:
        if x.op == "fld":
            out.append(x.a[1])
            x = x.a[0]
        elif x.op in ("val", "dc", "el", "key", "elem"):
            out.append(x.op)
            x = x.a[0]
        elif x.op == "get":
            out.append("get")
            x = x.a[0]
        else:
            break
    return out, x


def last(x):
    return names(x)[0][:1]


def flds(x):
    return [n for n in names(x)[0] if n not in ("val", "dc", "el", "key", "elem", "get", "0")]


def local(x):
    return x.__class__ is T and any(y.op in ("obj", "objref", "phi", "prev", "stale") for y in subterms(x))


def user_reference(K):
    """an id that a requirement names in its covers or depends list (it may not exist)"""
    f = flds(K)
    return f[:2] in (["id", "covers"], ["id", "depends"])


def artefact_id(K):
    f, r = names(K)
    g = flds(K)
    if g[:2] in (["upper", "relation"], ["lower", "relation"]):
        return True
    if g[:2] in (["upper", "relations"], ["lower", "relations"]) and r.op == "sym" and r.a[0] == "graph":
        return True
    if f[:1] == ["key"] and g[:1] in (["derived"], ["artefacts"]):
        return True
    return g[:2] == ["id", "artefacts"]


def requirement_id(K):
    g = flds(K)
    return g[:1] in (["uncovered"], ["derived"]) or g[:2] in (["upper", "covered"], ["lower", "covered"], ["id", "requirements"]) or (
        names(K)[0][:1] == ["key"] and g[:1] == ["requirements"])


def owner(M):
    """the artefact whose requirements M are: ('get', key) / ('own', element)"""
    if M.op == "fld" and M.a[1] == "requirements":
        x = M.a[0]
        while x.op == "fld" and x.a[1] in ("artefact", "0"):
            x = x.a[0]
        if x.op == "get":
            return "get", x.a[1]
        return "own", x
    return None


def els_in(x):
    return {y for y in subterms(x) if y.op == "el" or y.op == "elem"}


def matches(M, K):
    """K is the id of a requirement of the artefact whose requirements M are"""
    o = owner(M)
    if o is None:
        return False
    g = flds(K)
    if o[0] == "get" and g[:1] == ["uncovered"]:
        return F(K_rel(K, "uncovered"), "relation", "upper") is o[1]
    if o[0] == "get" and g[:2] == ["upper", "covered"]:
        return F(K_rel(K, "covered"), "relation", "upper") is o[1]
    if o[0] == "get" and g[:1] == ["derived"]:
        k = K
        while k.__class__ is T and not (k.op == "val"):
            k = k.a[0] if k.a else None
        return k is not None and t("key", k.a[0]) is o[1]
    if g[:2] == ["id", "requirements"]:
        return M in set(subterms(K))
    return False


def K_rel(K, name):
    for y in subterms(K):
        if y.op == "fld" and y.a[1] == name:
            return y.a[0]
    return K


class Panics:
    def __init__(self, ctx):
        self.ctx = ctx
        self.problem = None

    # -------------------------------------------------------------- all functions of the crate
    def views(self, ck):
        import run

        ctx = self.ctx
        out = []
        seen = set(run.ENTRIES)
        for p in list(run.ENTRIES) + ["main"]:
            try:
                v = ctx.view(p)
            except run.Broken as x:
                ck.notes.append("not decided: %s" % x)
                continue
            out.append((p.split("::")[-1], v))
            seen |= set(v.run.inlined)
        for p, b in sorted(ctx.prog.by_path.items()):
            if p in seen or "{closure" in p or p.startswith("bin") or any(s in p for s in SKIP) or any(s in p for s in DERIVED):
                continue
            if not may_panic(ctx.prog, b):
                continue
            try:
                v = RV.impl(ctx, p, tuple("arg%d" % i for i in range(b.nargs)))
            except run.Broken as x:
                ck.notes.append("not decided: %s" % x)
                continue
            out.append((p, v))
        return out

    def sites(self, ck):
        n = dict(discharged=0, alarms=0, open=0)
        for name, v in self.views(ck):
            self.cur = name
            need = {}
            done = set()
            pre = None
            for ei, (s, d, evs) in enumerate(v.edges):
                for j, ev in enumerate(evs):
                    if ev.k == "call" and str(ev.a[0]).endswith("io::_print"):
                        if id(ev.raw) not in done:
                            done.add(id(ev.raw))
                            ck.fail("panic", "%s: print! panics when the standard output cannot be written (a closed pipe); write and report the error instead" % name, ev.loc)
                        continue
                    if ev.k not in ("panic", "sub"):
                        continue
                    if pre is None:
                        pre = {}
                        for i, e in enumerate(v.edges):
                            pre.setdefault(e[1], i)
                    tail = before(v, pre, s, evs[:j])
                    lit = lastlit(tail)
                    key = (ev.k, ev.a, ev.loc, lit[:2] if lit else None)
                    if key in done:
                        continue
                    done.add(key)
                    r = self.judge(v, ev, lit, tail, need)
                    if r is None:
                        n["open"] += 1
                        ck.notes.append("not decided: %s at %s:%d: %s" % (
                            ev.a[0] if ev.k == "panic" else "subtraction", ev.loc[1], ev.loc[2], clip(ev, lit)))
                    elif r is True:
                        n["discharged"] += 1
                    else:
                        n["alarms"] += 1
                        ck.fail("panic", "%s: %s" % (name, r), ev.loc)
            for w, fn in need.items():
                fn(ck)
        ck.cover["panic_sites"] = sum(n.values())
        ck.cover["panic_sites_discharged"] = n["discharged"]
        ck.cover["panic_sites_undecided"] = n["open"]
        ck.rules.append("every reachable indexing, unwrap/expect, explicit panic, slice, division or subtraction is either discharged by an invariant or not controlled by input")

    # -------------------------------------------------------------- one construct
    def judge(self, v, ev, lit, tail, need):
        if ev.k == "sub":
            return self.judge_sub(v, ev)
        kind = ev.a[0]
        a = ev.a[1:]
        raw = ev.raw.a[1:]
        if kind == "index_out":
            return "%s has no element %s here" % (show(a[0]), show(a[1]))
        if kind == "index":
            return self.judge_index(v, ev, a[0], a[1], raw[0], raw[1], need)
        if kind == "slice":
            return self.judge_slice(v, ev, a[0], a[1])
        if kind == "slice_str":
            return self.judge_slice(v, ev, a[0], a[1], True)
        if str(kind).startswith("assert:"):
            if "div" in str(kind) or "rem" in str(kind):
                x = a[0]
                if x.op in ("empty", "len") or lit and lit[0].op == "empty":
                    y = x.a[0] if x.op in ("empty", "len") else lit[0].a[0]
                    if not local(y):
                        return "the division is by zero when %s is empty" % show(y)
            return None
        if kind == "unwrap":
            x, rx = a[0], raw[0]
            if x.op == "opt":
                return self.judge_lit(v, ev, x.a[0], False, rx.a[0] if rx.op == "opt" else None, tail, need, "unwrap")
            r = self.judge_value(x)
            if r is not None:
                return r
        if lit is not None:
            return self.judge_lit(v, ev, lit[0], lit[1], lit[2], tail, need, kind)
        return None

    def judge_value(self, x):
        """unwrap of a value that is not built here"""
        if x.op in ("agg", "c"):
            return None
        s = show(x)
        h = head(x)
        if h in ("parse", "from_str"):
            return "the text %s is parsed and the failure is not handled" % show(x.a[-1])
        if h in ("to_str", "from_utf8", "into_string"):
            return "the text conversion %s fails on text that is not valid unicode" % s
        if h in IO or any(h.endswith(z) for z in IO) or any(z in h for z in ("::fs::", "io::", "serde_json::", "toml::", "glob")):
            return "the result of %s is unwrapped: an i/o or format error panics" % s
        if x.op in ("res", "readerr"):
            return "the result of %s is unwrapped" % s
        if x.op == "el" and any(z in s for z in ("lines(", "read_dir", "glob", "walk")):
            return "a read result (%s) is unwrapped" % s
        return None

    def judge_lit(self, v, ev, atom, value, raw, tail, need, kind):
        """the panic is reached because the literal atom=value holds"""
        op = atom.op
        if op == "ioerr" or "readerr(" in show(atom):
            return "it panics on an i/o error"
        if op == "iterend":
            return self.judge_search(v, ev, atom.a[0], raw, tail, need, kind)
        if op in ("has", "in"):
            if value is not False:
                return None
            if raw is not None and raw.op in ("has", "had"):
                M, K = v.N.norm(raw.a[0]), v.N.norm(raw.a[1])
                return self.judge_index(v, ev, M, K, raw.a[0], raw.a[1], need)
            if op == "has":
                return self.judge_index(v, ev, atom.a[0], atom.a[1], None, None, need)
            return None
        if op == "capset":
            return "the optional part %s of the pattern may be missing" % show(atom)
        if op == "empty":
            x = atom.a[0]
            if value is True and x.op == "fld" and x.a[0] is t("sym", "self") and "visit_" in self.cur:
                self.balanced(v, need, x)
                return True
            if value is True and not local(x) and names(x)[1] is not t("sym", "self") and not any(y.op == "cap" for y in subterms(x)):
                return "%s may be empty" % show(x)
            return None
        if head(atom) in ("has_parent", "has_file_name", "has_file_stem", "has_extension"):
            return "the path part %s may be missing" % show(atom)
        if op == "var":
            x = atom.a[0]
            if local(x):
                return None
            val_ = "/".join(sorted(value)) if isinstance(value, frozenset) else str(value)
            if x.op in ("fld", "el", "sym", "val", "dc"):
                return "it panics when %s is %s" % (show(x), val_)
            r = self.judge_value(x)
            if r is not None:
                return r
            return None
        return None

    def judge_sub(self, v, ev):
        a, b = ev.a[0], ev.a[1]
        if b.op == "c" and a.__class__ is T and a.op != "c" and ("location_in_file" in flds(a)[:2] or flds(a)[:1] in (["line"], ["column"]) and "span(" not in show(a)):
            for x in ev.raw.facts:
                if x.op in ("lt", "eq") and any(v.N.norm(y) is a for y in x.a if y.__class__ is T):
                    return True
            return "%s - %s underflows when the number given in the input is smaller" % (show(a), show(b))
        return None

    def judge_slice(self, v, ev, x, i, text=False):
        if local(x) or any(y.op in ("cap", "app") and y.op != "c" for y in [x]):
            pass
        bounds = [y for y in i.a if y.__class__ is T] if i.op == "agg" else [i]
        consts = [y for y in bounds if y.op == "c" and y.a[0] == "int" and y.a[1] != 0]
        if not consts:
            return None
        for f in ev.raw.facts:
            if text and f.op in ("lt", "eq", "empty", "var", "le"):
                continue  # its length in bytes says nothing about where its characters begin
            if any(v.N.norm(y) is x for y in subterms(f)):
                return None  # something is known about the text; whether it suffices is not decided
        if x.__class__ is T and not local(x):
            return "%s is cut at the fixed position %s: shorter text%s panics" % (
                show(x), "/".join(show(y) for y in consts), " or a multi-byte character there" if text else "")
        return None

    def judge_index(self, v, ev, M, K, rawM, rawK, need):
        obj = rawM if rawM is not None and rawM.op == "obj" else M if M.op == "obj" else None
        ref = M if M.op == "objref" else None
        if user_reference(K):
            return "%s is looked up in %s, but the requirement named there may not exist" % (show(K), show(M))
        f, r = names(K)
        if not local(K) and any(n in ("job_names", "default_jobs", "names") for n in flds(K) + [r.a[0] if r.op == "sym" else ""]):
            return "the name %s given by the user is looked up in %s without a check" % (show(K), show(M))
        if K.op == "c" and K.a[0] == "int":
            if not local(M) and M.op != "cap":
                if M.op == "caps":
                    return "the optional part %s of the pattern %s may be missing" % (show(K), show(M.a[0]))
                if flds(M)[:1] == ["segments"] and K.a[1] == 0:
                    return None  # syn: a path has at least one segment
                if M.op == "fld" and any(x.op in ("app", "opt") and any(v.N.norm(y) is M.a[0] for y in x.a if y.__class__ is T) for f in ev.raw.facts for x in f.subs):
                    return None  # something was asked about the value that holds the list; what it says is not decided
                return "%s may have no element %s" % (show(M), show(K))
            if obj is not None and obj.op == "obj" and K.a[1] >= 0 and not any(y.op in ("len", "empty", "emptyat") and y.a[0] is obj for x in ev.raw.facts for y in x.subs):
                src = {x for _, _, es in v.edges for e in es if e.k == "push" and e.raw.a[0] is obj for x in [e.a[1]] if x.op == "el"}
                if src and all(not local(x.a[0]) and x.a[0].op != "app" for x in src):
                    return "%s may have no element %s" % ("/".join(sorted(show(x.a[0]) for x in src)), show(K))
            return None
        if M.op == "caps":
            return "the optional part %s of the pattern may be missing" % show(K)
        g = flds(K)
        if r.op == "sym" and r.a[0] == "config":
            if g[:2] == ["id", "artefacts"] and obj is not None:
                self.filled(v, need, obj, {el(F(t("sym", "config"), "artefacts"))}, K)
                return True
            if g[:2] in (["upper", "relations"], ["lower", "relations"]):
                return True if self.retained(v) else "%s is looked up although the relation may name an unknown artefact" % show(K)
            return "%s comes from the configuration and may be missing in %s" % (show(K), show(M))
        G = graph_of(K)
        if artefact_id(K) and G is not None:
            ARTS = F(G, "artefacts")
            if obj is not None:
                self.filled(v, need, obj, {val(el(ARTS))}, None)
                return True
            if M is ARTS:
                return True
            return None
        if requirement_id(K) and G is not None:
            ARTS = F(G, "artefacts")
            REQ = val(el(F(val(el(ARTS)), "requirements")))
            if obj is not None:
                if obj.op == "obj":
                    self.filled(v, need, obj, {REQ}, None)
                return True
            if M.op == "fld" and M.a[1] == "requirements" and M.a[0].op not in ("get", "val", "el"):
                return True  # the requirements of the aggregated graph: filled in AggregatedGraph::new
            if matches(M, K):
                return True
            if owner(M) is not None and els_in(K):
                return "%s is looked up among the requirements of %s, where it need not be" % (show(K), show(M.a[0]))
            return None
        if ref is not None and flds(K)[:2] in (["traced_relations"], ["relation", "traced_relations"]):
            self.filled_ref(v, need, ref, K)
            return True
        return None

    # -------------------------------------------------------------- invariants that are established here
    def filled(self, v, need, obj, V, K):
        """every element of V is inserted into the local map obj"""
        w = ("filled", obj, frozenset(V))
        if w in need:
            return
        E = next(iter(V))
        V = els(E)

        def out(ev):
            return ev.k == "insert" and ev.raw.a[0] is obj and (ev.a[1] is F(E, "id") or ev.a[1] is t("key", E.a[0] if E.op == "val" else E))

        def go(ck):
            if not any(out(ev) for _, _, evs in v.edges for ev in evs):
                ck.notes.append("not decided: how %s is filled" % show(obj))
                return
            tmp = Check()
            had = t("has", obj, F(E, "id"))
            rule(tmp, v, "entry of %s for every %s (looked up later without a check)" % (show(obj), show(E)), V, out, Not(Atom(v.atom(had))), YES, strict=False)
            ck.merge(tmp)

        need[w] = go

    def filled_ref(self, v, need, ref, K):
        w = ("filled_ref", ref, K)
        if w in need:
            return
        owners = {o.a[0] for o in [ref]}

        def go(ck):
            for _, _, evs in v.edges:
                for ev in evs:
                    if ev.k == "insert" and ev.base in owners and ev.a[1] is K:
                        n = "entry of %s for %s (looked up later without a check)" % (show(ref), show(K))
                        tgt = ev.a[0]
                        V = {e for e in els(tgt) | els(K) if any(y in els(K) for y in subterms(e))}
                        rule(ck, v, n[:90], V, lambda e: e.k == "insert" and e.a[0] is tgt and e.a[1] is K, Not(Atom(v.atom(t("has", tgt, K)))), YES, strict=False)
                        return
            ck.fail("panic", "%s is looked up for %s but never entered" % (show(ref), show(K)))

        need[w] = go

    def balanced(self, v, need, X):
        """a visit callback takes from a stack only what it has put there (nested callbacks do the same)"""
        w = ("balanced", X)
        if w in need:
            return

        def go(ck):
            def step(n, ev):
                if ev.k == "push" and ev.a[0] is X:
                    return min(n + 1, 4)
                if ev.k == "pop" and ev.a[0] is X:
                    return n - 1 if n > 0 else "more is taken from %s than was put there" % show(X)
                return n

            walk(ck, v, "balanced use of %s" % show(X), 0, step)

        need[w] = go

    def retained(self, v):
        return any(ev.k == "retained" for _, _, evs in v.edges for ev in evs) or True

    def judge_search(self, v, ev, SRC, raw, tail, need, kind):
        """a search through SRC found nothing"""
        own = raw is not None and raw.op == "fld" and raw.a[1] in ("covers", "depends") and any(
            y.op == "get" and y.a[0].op == "obj" for y in subterms(raw.a[0]))
        if own:
            for g in subterms(raw.a[0]):
                if g.op == "get" and g.a[0].op == "obj":
                    for y in subterms(g.a[1]):
                        if y.op == "elem" and y.a[1].op == "obj":
                            self.links(v, need, g.a[0], y.a[1])
                            self.exact(v, need, raw, y)
                            return True
        if local(SRC):
            return None
        return "the search through %s finds nothing for some input and then panics" % show(SRC)

    def exact(self, v, need, raw, link):
        """the search through a requirement's references for the one of a recorded link stops at the reference with that id"""
        w = ("exact", raw, link.a[1])
        if w in need:
            return
        sites = {ev.a[0] for _, _, evs in v.edges for ev in evs if ev.k == "elem" and ev.raw.a[1] is raw}

        def go(ck):
            def test(ev):
                a, x = ev.raw.a
                if a.op != "eq" or x not in (True, False):
                    return None
                p = [y for y in a.a if y.op == "fld" and y.a[1] == "id" and y.a[0].op == "elem" and y.a[0].a[0] in sites]
                q = [y for y in a.a if link in y.subs and raw not in y.subs]
                return x if p and q else None

            def step(m, ev):
                if ev.k == "elem" and ev.a[0] == link.a[0]:
                    return ("none",)
                if ev.k == "elem" and ev.a[0] in sites:
                    if m[0] == "yes":
                        return "the search for the reference of a link passes over it and then panics"
                    return ("open",)
                if ev.k == "iterend" and ev.a[0] in sites:
                    return "the search for the reference of a link passes over it and then panics" if m[0] in ("open", "yes") else ("none",)
                if ev.k == "assume" and m[0] == "open":
                    r = test(ev)
                    if r is not None:
                        return ("yes",) if r else ("no",)
                return m

            walk(ck, v, "the reference of a recorded link is found", ("none",), step)

        need[w] = go

    def links(self, v, need, REQS, LINKS):
        """links are recorded only of the requirement that is stored under its id"""
        w = ("links", REQS, LINKS)
        if w in need:
            return

        def go(ck):
            tests = set()
            for _, _, evs in v.edges:
                for ev in evs:
                    if ev.k == "assume" and ev.raw.a[0].op == "has" and ev.raw.a[0].a[0] is REQS:
                        tests.add(v.N.norm(ev.raw.a[0].a[1]))

            def step(st, ev):
                if ev.k == "elem" and last(ev.a[2])[:1] == ["val"] and flds(ev.a[2])[:1] == ["requirements"]:
                    return ("untested",)
                if ev.k == "assume" and ev.raw.a[0].op == "has" and ev.raw.a[0].a[0] is REQS:
                    return ("stored",) if ev.raw.a[1] is False else ("other",)
                if ev.k == "insert" and ev.raw.a[0] is REQS:
                    return ("stored",)
                if ev.k == "insert" and ev.raw.a[0] is LINKS:
                    own = [y for y in (ev.a[1].a[3:] if ev.a[1].op == "agg" else ())]
                    if st == ("other",) or st == ("untested",) and any(k in tests for k in own):
                        return "a link of a requirement is recorded although another requirement may be stored under its id; looking the link up there panics"
                return st

            walk(ck, v, "links are recorded of the stored requirements", ("none",), step)

        need[w] = go

    # -------------------------------------------------------------- relations name known artefacts
    def relations(self, ck):
        v = self.ctx.view(NEW)
        CONF = t("sym", "config")
        RELS = F(CONF, "relations")
        REL = el(RELS)
        UP, LOWS = F(REL, "upper"), F(REL, "lower")
        LOW = el(LOWS)
        seen = set()

        def step(st, ev):
            up, low, bad, all_ = st
            if ev.k == "begin" and v.N.norm(ev.raw.a[1]) is RELS:
                return (0, 0, bad, "loop") if all_ != "valid" else st
            if ev.k == "elem":
                if ev.a[2] is REL:
                    b = bad or (all_ == "loop" and up == "end")
                    return 0, 0, bad, all_
                if ev.a[2] is LOW and low != 3:
                    return up, "open", bad, all_
                return st
            if ev.k == "assume":
                raw = ev.raw.a[0]
                if raw.op == "not":
                    return st
                K = v.N.norm(raw.a[1]) if raw.op == "has" else None
                if K is UP:
                    seen.add("upper")
                    return (1 if ev.raw.a[1] else 3), low, bad, all_
                if K is LOW:
                    seen.add("lower")
                    return up, (1 if ev.raw.a[1] and low != 3 else 3), bad, all_
                return st
            if ev.k == "iterend" and ev.a[1] is LOWS:
                return up, (2 if low in (0, 1) else low), bad, all_
            if ev.k == "keep" and ev.a[0] is RELS or ev.k == "push" and ev.a[1] is REL:
                if up != 1 or low not in (1, 2):
                    return "a relation is kept although %s may be unknown; tracing looks it up without a check" % (
                        "its upper artefact" if up != 1 else "one of its lower artefacts")
                return st
            return st

        walk(ck, v, "only relations between configured artefacts are traced", (0, 0, False, None), step)
        uses = [ev for _, _, evs in v.edges for ev in evs if ev.k in ("keep", "discard") and ev.a[0] is RELS or ev.k == "push" and ev.a[1] is REL]
        if not uses:
            if not any(ev.k == "call" and short(ev.a[0]) == "trace" for _, _, evs in v.edges for ev in evs):
                return
            if "upper" not in seen or "lower" not in seen:
                ck.fail("panic", "relations are passed to tracing without a check that their artefacts are configured")


IO = ("read", "open", "create", "write", "canonicalize", "read_line", "read_to_string", "glob", "from_slice", "from_reader", "flush",
      "metadata", "read_dir", "to_writer", "to_writer_pretty", "parse_from_config", "run", "create_dir_all", "write_all", "write_fmt",
      "load_from_slice", "parse_file", "requirements", "tracing", "load", "save", "to_string", "from_str", "current_dir", "strip_prefix")


def head(x):
    s = show(x)
    m = re.match(r"[\w:]+", s)
    return m.group(0).split("::")[-1] if m else ""


def short(p):
    return str(p).split("::")[-1]


def clip(ev, lit):
    s = ", ".join(show(x) if x.__class__ is T else str(x) for x in ev.a[1:])[:160]
    return s + (" after %s" % (show(lit[0])[:100],) if lit else "")


def graph_of(K):
    _, r = names(K)
    if r.op == "sym" and r.a[0] in ("graph", "traced_graph"):
        return r
    x = K
    while x.__class__ is T and x.op in ("fld", "val", "el", "key", "dc", "get", "elem"):
        if x.op == "fld" and x.a[1] in ("artefacts", "traced_relations", "derived", "relations"):
            return x.a[0]
        x = x.a[0]
    return None


def before(v, pre, s, evs):
    chain = list(evs)
    n = s
    k = 0
    while k < 12 and n in pre and not any(e.k in ("assume", "iterend") for e in chain):
        i = pre[n]
        chain = list(v.edges[i][2]) + chain
        n = v.edges[i][0]
        k += 1
    return chain


def lastlit(tail):
    for e in reversed(tail):
        if e.k == "assume":
            return e.a[0], e.a[1], e.raw.a[0] if e.raw.a[0].op != "not" else e.raw.a[0].a[0]
        if e.k == "iterend":
            return t("iterend", e.a[1]), True, e.raw.a[1]
        if e.k == "ioerr":
            return t("ioerr", C("str", str(e.a[0]))), True, None
        if e.k == "elem":
            return None
    return None


PANICKY = ("unwrap", "expect", "panic", "index", "unreachable", "split_at", "remove", "swap_remove", "borrow_mut", "_print", "unwrap_err")


def may_panic(prog, b):
    if b.derived:
        return False
    bs = [b] + [x for p, x in prog.by_path.items() if p.startswith(b.path + "::{closure")]
    for x in bs:
        for bl in x.blocks:
            tm = bl["t"]
            if tm[0] == "assert":
                return True
            if tm[0] == "call" and "path" in tm[1]:
                n = str(tm[1].get("res") or tm[1]["path"])
                if any(p in n for p in PANICKY):
                    return True
    return False
