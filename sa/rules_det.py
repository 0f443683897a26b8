"""C24: nothing that differs between two runs on the same inputs reaches a report."""
from terms import *
from norm import el, F
from mon import *
import prog as pm
from rules_vals import SER, SER_TRACE, impl, methods

HASH = ("std::collections::HashMap", "std::collections::HashSet", "std::collections::hash_map::", "std::collections::hash_set::")
# calls whose result is not a function of the configuration and the files read
VARYING = {
    "std::time::SystemTime::now": "the clock", "std::time::Instant::now": "the clock", "std::time::Instant::elapsed": "the clock",
    "std::time::SystemTime::elapsed": "the clock", "std::process::id": "the process id", "std::thread::current": "the thread",
    "std::env::var": "the environment", "std::env::var_os": "the environment", "std::env::vars": "the environment",
    "std::env::vars_os": "the environment", "std::env::temp_dir": "the environment",
    "std::hash::RandomState::new": "a random hash seed", "std::collections::hash_map::RandomState::new": "a random hash seed",
    "std::fs::Metadata::modified": "a file time", "std::fs::Metadata::created": "a file time", "std::fs::Metadata::accessed": "a file time",
    "std::fs::read_dir": "the order of a directory", "std::path::Path::read_dir": "the order of a directory",
    "core::time::Duration": "", "std::hash::BuildHasher::hash_one": "a random hash seed", "std::hash::BuildHasher::build_hasher": "a random hash seed",
}
VARYING.pop("core::time::Duration")
CLOCK = t("sym", "clock")
TEXT = ("write", "push", "insert", "strpush", "assign")


def calls(prog):
    """every call site of the crate: (body, callee without generics)"""
    for b in prog.by_path.values():
        for bl in b.blocks:
            tm = bl["t"]
            if tm[0] == "call" and "path" in tm[1]:
                yield b, pm.strip_generics(tm[1].get("res") or tm[1]["path"]), pm.strip_generics(tm[1]["path"]), tm


def hash_type(ty):
    """the type contains a hash table"""
    if isinstance(ty, list) and ty:
        if ty[0] == "adt" and str(ty[1]).startswith(HASH):
            return True
        return any(hash_type(x) for x in ty[1:])
    return False


def direct_hash(ty):
    ty = pm.peel(ty)
    if ty[0] == "adt" and ty[1] in ("std::option::Option",) and len(ty) > 2:
        return direct_hash(ty[2])
    return ty[0] == "adt" and str(ty[1]).startswith(HASH)


class Det:
    soft = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.problem = None
        yes, no = set(), set()
        for a in ctx.prog.adts.values():
            for vr in a["variants"]:
                for f in vr["fields"]:
                    (yes if direct_hash(f[1]) else no).add(f[0])
        self.hfields = {f for f in yes if not f.isdigit()}
        self.unclear = self.hfields & no
        self.memo = {}
        self.views = []
        import run

        for p in list(run.ENTRIES) + ["main"]:
            try:
                self.views.append((p, ctx.view(p)))
            except run.Broken as x:
                self.problem = None
                self.views.append((p, None))
        for typ in SER + SER_TRACE:
            for tr, m, n in (("std::fmt::Display", "fmt", ("self", "out")),):
                for p in methods(ctx, typ, tr, m):
                    try:
                        self.views.append((p, impl(ctx, p, n)))
                    except run.Broken:
                        self.views.append((p, None))

    def hashy(self, x):
        """x is a hash table or an unordered view of one"""
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self.hashy1(x)
        return r

    def hashy1(self, x):
        if x.__class__ is not T:
            return False
        if x.op in ("obj", "oldobj"):
            return str(x.a[1]).startswith(HASH)
        if x.op == "objref":
            return self.hashy(x.a[0])
        if x.op == "fld":
            if str(x.a[1]) in self.hfields and str(x.a[1]) not in self.unclear:
                return True
            if x.a[0].op == "dc" and str(x.a[1]) == "0":
                return self.hashy(x.a[0].a[0])
            return False
        if x.op in ("app", "ext"):
            nm = str(x.a[0] if x.op == "app" else x.a[1])
            if nm.split("::")[-1] in ("read_dir",):
                return True
            if nm.split("::")[-1] in ("difference", "intersection", "union", "symmetric_difference", "values", "keys", "into_keys", "into_values", "iter", "drain", "clone"):
                return any(self.hashy(y) for y in x.a if y.__class__ is T)
        return False

    def order(self, ck):
        name = "no report depends on the order of a hash table"
        n = 0
        for p, v in self.views:
            if v is None:
                ck.notes.append("not decided: %s was not analysed" % p)
                continue
            srcs = set()
            for _, _, es in v.edges:
                for ev in es:
                    if ev.k == "elem" and (self.hashy(ev.raw.a[1]) or self.hashy(ev.a[1])):
                        srcs.add(ev.a[0])
                        n += 1
            if not srcs:
                ck.rules.append("%s (%s): no iteration over a hash table" % (name, p.split("::")[-1]))
                ck.cover["obligations"] += 1
                continue
            self.order_view(ck, v, name + " (%s)" % p.split("::")[-1], srcs)
        ck.cover["hash_table_iterations"] = n

    def order_view(self, ck, v, name, srcs):
        els_of = set()
        for _, _, es in v.edges:
            for ev in es:
                if ev.k == "elem" and ev.a[0] in srcs:
                    els_of.add(ev.raw.a[2])

        def mentions(x):
            return x.__class__ is T and any(y in els_of for y in subterms(x))

        def step(s, ev):
            depth, taint = s
            ra = ev.raw.a
            if ev.k == "elem" and ra[0] in srcs:
                return (depth | {ra[0]}, taint)
            if ev.k == "iterend" and ra[0] in srcs:
                return (depth - {ra[0]}, taint)
            b = base(ra[0]) if ra and ra[0].__class__ is T else None
            if ev.k == "elem" and base(ra[1]) in taint if ev.k == "elem" and ra[1].__class__ is T else False:
                return "the elements of a list are used in the order of a hash table"
            if ev.k in ("push", "insert") and b is not None and b.op == "obj" and b not in taint:
                if any(y.__class__ is T and base(y) in taint for x in ra[1:] if x.__class__ is T for y in subterms(x)):
                    return (depth, taint | {b})
            if ev.k in ("push", "strpush") and b is not None:
                if mentions(ra[-1]) or depth and ev.sites & depth:
                    if b.op == "obj" and ev.k == "push" or b.op == "obj":
                        return (depth, taint | {b})
                    return "%s is filled in the order of a hash table" % show(b)[:60]
                return None
            if ev.k == "write":
                if b is not None and b.op == "obj":
                    if mentions(ra[-1]):
                        return (depth, taint | {b})
                elif mentions(ra[-1]) or depth and ev.sites & depth:
                    return "the report is written in the order of a hash table"
                if any(base(y) in taint for y in subterms(ra[-1]) if y.__class__ is T) if ra[-1].__class__ is T else False:
                    return "a list in the order of a hash table is written"
                return None
            if ev.k == "reorder" and b in taint and str(ra[1].a[1] if ra[1].__class__ is T else ra[1]).startswith("sort"):
                return (depth, taint - {b})
            if ev.k in ("clear", "discard") and b in taint:
                return (depth, taint - {b})
            return None

        def final(s, ret):
            depth, taint = s
            if ret is not None and any(base(y) in taint for y in subterms(ret) if y.__class__ is T):
                return "a list in the order of a hash table is handed on"
            return None

        walk(ck, v, name, (frozenset(), frozenset()), step, final)

    def fields(self, ck):
        name = "no hash table is serialised"
        for typ in SER + SER_TRACE:
            a = self.ctx.prog.adts.get(typ)
            if a is None:
                continue
            ps = methods(self.ctx, typ, "serde::Serialize", "serialize")
            for vr in a["variants"]:
                for f in vr["fields"]:
                    if not hash_type(f[1]):
                        continue
                    x = t("fld", t("sym", "self") if a["kind"] != "Enum" else t("dc", t("sym", "self"), vr["name"]), f[0])
                    for p in ps:
                        v = impl(self.ctx, p, ("self", "ser"))
                        for r in [v.N.norm(y) for y in v.run.retvals]:
                            for y in subterms(r):
                                if y.op in ("app", "ext") and any(z is x for z in y.a):
                                    b = self.ctx.prog.by_path[p]
                                    ck.fail(name, "%s of %s is serialised in the order of a hash table" % (f[0], typ.split("::")[-1]), (p, b.file, b.line))
            ck.rules.append(name + ": " + typ.split("::")[-1])
            ck.cover["obligations"] += 1

    def sources(self, ck):
        name = "no clock, random seed, environment or directory order reaches a report"
        found = {}
        n = 0
        for b, res, gen, tm in calls(self.ctx.prog):
            n += 1
            for q in (res, gen):
                if q in VARYING and "{closure" not in q:
                    found.setdefault(q, []).append(b)
        ck.cover["call_sites_scanned"] = n
        ck.rules.append("%s: %d call sites scanned" % (name, n))
        ck.cover["obligations"] += 1
        for q, bodies in found.items():
            short_ = q.split("::")[-1]

            def varying(x):
                return x.__class__ is T and any(
                    y is CLOCK and VARYING[q] == "the clock" or y.op in ("app", "ext") and str(y.a[0] if y.op == "app" else y.a[1]).split("::")[-1].split("!")[0] == short_ for y in subterms(x))

            for p, v in self.views:
                if v is None:
                    continue
                done = set()
                for _, _, es in v.edges:
                    for ev in es:
                        bad = None
                        if ev.k in TEXT and any(varying(x) for x in ev.a[1:]):
                            bad = "%s is part of what is %s" % (VARYING[q], "written" if ev.k == "write" else "stored")
                        elif ev.k == "assume" and varying(ev.a[0]):
                            bad = "%s decides what is done" % VARYING[q]
                        elif ev.k == "ret" and any(varying(x) for x in ev.a):
                            bad = "%s is part of the result" % VARYING[q]
                        if bad and bad not in done:
                            done.add(bad)
                            ck.fail(name, bad, ev.loc)
                for y in v.run.retvals:
                    if y is not None and varying(y) and "r" not in done:
                        done.add("r")
                        b = bodies[0]
                        ck.fail(name, "%s is part of the result of %s" % (VARYING[q], p), (b.path, b.file, b.line))
            for b in bodies:
                if not any(v is not None and b.path in v.run.inlined for _, v in self.views):
                    ck.notes.append("%s calls %s outside the analysed entry points" % (b.path, q))
