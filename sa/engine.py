"""Path-sensitive abstract interpretation of the dumped MIR.

Builds, per entry point, an abstract transition system (exploded graph): nodes are abstract states
at control-flow joins, edges carry the events (container updates, writes, iteration steps, branch
assumptions, panics, ...) that happen between them.  Crate-local callees are inlined, loops run to
a fixpoint (states are joined when equal, growing values are widened).  Nothing is executed and no
solver is involved.
"""
import sys
from terms import *
from prog import Program, strip_generics, ty_str, peel

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class Restart(Exception):
    pass


class State:
    __slots__ = ("store", "facts", "ob", "_k")

    def __init__(self, store, facts, ob):
        self.store = store
        self.facts = facts
        self.ob = ob
        self._k = None

    def copy(self):
        return State(dict(self.store), self.facts, self.ob)

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), frozenset(self.ob.items()))


class Cur:
    """a point on an abstract path: last merge node, events since, state"""

    __slots__ = ("st", "src", "evs")

    def __init__(self, st, src, evs):
        self.st = st
        self.src = src
        self.evs = evs

    def fork(self):
        return Cur(self.st.copy(), self.src, self.evs)


class Ev:
    __slots__ = ("k", "a", "facts", "loc", "n")

    def __init__(self, k, a, facts, loc):
        self.k = k
        self.a = a
        self.facts = facts
        self.loc = loc

    def __repr__(self):
        return "%s(%s) @%s:%s" % (self.k, ", ".join(show(x) for x in self.a), self.loc[1], self.loc[2])


class Frame:
    __slots__ = ("body", "depth", "cs", "bb", "loc", "tables")

    def __init__(self, body, depth, cs):
        self.body = body
        self.depth = depth
        self.cs = cs
        self.bb = 0
        self.loc = (body.path, body.file, body.line)


EMPTYD = {}


# earlier objects of one allocation site that are told apart
OLD = 3
ENTRIES = 6
BOOLISH = ("not", "and", "or", "xor", "eq", "isvar", "empty", "emptyat", "lt", "has", "in")


class Engine:
    def __init__(self, prog, opaque=(), budget=60000, crate=""):
        self.prog = prog
        self.opaque = set(opaque)
        self.budget = budget
        self.crate = crate
        self.tracked = set()
        self.fns = {}
        self.sites = {}
        self.siteinfo = []
        self.inlined = set()
        self.unknown = {}
        self.callsites = 0
        self.plevel = 0
        self.iter_sites = {}
        self.zips = set()

    # ------------------------------------------------------------ entry
    def run(self, body, args, facts=None):
        for _ in range(12):
            try:
                self.nodes = 0
                self.edges = []  # (src, dst, events)
                self.facts_at = []
                self.exits = []
                self.inlined = set()
                self.callsites = 0
                self.wtab = {}
                self.inv = 0
                st = State({}, dict(facts or {}), {})
                start = self.node(st)
                cur = Cur(st, start, ())
                fr = Frame(body, -1, self.cs_id(None, 0, "entry"))
                outs = self.run_body(cur, body, args, fr)
                for c, v in outs:
                    n = self.node(c.st)
                    self.emit(c, "ret", v, loc=(body.path, body.file, body.line))
                    self.edges.append((c.src, n, c.evs))
                    self.exits.append((n, v, c.st))
                self.start = start
                self.retvals = [v for _, v, _ in self.exits]
                return self
            except Restart:
                continue
        raise Budget("no stable set of tracked objects")

    def node(self, st):
        n = self.nodes
        self.nodes += 1
        if n > self.budget:
            raise Budget("more than %d abstract states" % self.budget)
        self.facts_at.append(st.facts)
        return n

    def join(self, table, key, cur):
        """merge cur into table; returns a fresh cursor or None if the state was seen"""
        n = table.get(key)
        new = n is None
        if new:
            n = self.node(cur.st)
            table[key] = n
        self.edges.append((cur.src, n, cur.evs))
        return Cur(cur.st, n, ()) if new else None

    def emit(self, cur, k, *a, loc=None):
        cur.evs = cur.evs + (Ev(k, a, cur.st.facts, loc or self.loc),)

    def cs_id(self, parent, bb, fn, extra=0):
        k = (parent, bb, fn, extra)
        i = self.sites.get(k)
        if i is None:
            i = len(self.siteinfo)
            self.sites[k] = i
            self.siteinfo.append(k)
        return i

    def site(self, fr, extra=0):
        return self.cs_id(fr.cs, fr.bb, fr.body.path, ("s", extra))

    # ------------------------------------------------------------ places
    def proj(self, v, name, variant=None):
        """field of a value (by name); variant already applied with dc()"""
        if v.op == "upd":
            if v.a[1] == name:
                return v.a[2]
            return self.proj(v.a[0], name)
        if v.op == "ref":
            raise AssertionError("field of a pointer")
        if v.op == "dc":
            b, V = v.a
            if b.op == "opt" and V == "Some":
                return b.a[1]
            if b.op == "entry":
                return t("occ" if V == "Occupied" else "vac", *b.a)
        return t("fld", v, name)

    def dc(self, v, V):
        if v.op == "agg":
            return v
        return t("dc", v, V)

    def step(self, v, e):
        """value-level projection by one path element"""
        if e[0] == "@":
            return self.dc(v, e[1])
        idx, name = e
        if v.op == "agg":
            f = v.a[3:]
            if idx < len(f):
                return f[idx]
            return t("sym", "bottom")
        return self.proj(v, name)

    def read(self, st, root, path):
        v = st.store.get(root)
        if v is None:
            return t("sym", "uninit%s" % (root,))
        for e in path:
            v = self.step(v, e)
        return v

    def write(self, st, root, path, val):
        old = st.store.get(root)
        st.store[root] = self.update(old, path, val)
        st._k = None

    def update(self, old, path, val):
        if not path:
            return val
        e = path[0]
        if old is None:
            old = t("sym", "uninit")
        if e[0] == "@":
            if old.op == "agg":
                return self.update(old, path[1:], val)
            # symbolic enum payload: keep as update of the downcast
            return self.update(old, path[1:], val)
        idx, name = e
        if old.op == "agg":
            f = list(old.a[3:])
            if idx < len(f):
                f[idx] = self.update(f[idx], path[1:], val)
                return t("agg", old.a[0], old.a[1], old.a[2], *f)
            return old
        sub = self.update(self.proj(old, name), path[1:], val) if len(path) > 1 else val
        base = old
        if base.op == "upd" and base.a[1] == name:
            base = base.a[0]
        return t("upd", base, name, sub)

    def lv(self, cur, fr, place):
        """evaluate a place: ('loc', root, path) or ('sym', term)"""
        st = cur.st
        l, projs = place
        root = (fr.depth, l)
        ty = fr.body.locals[l][0]
        loc = (root, ())
        val = None
        for e in projs:
            if e == "*":
                if val is None:
                    v = self.read(st, *loc)
                    if v.op == "ref":
                        loc = (v.a[0], v.a[1])
                    elif ty[0] in ("ref", "ptr"):
                        val = v
                        loc = None
                else:
                    if val.op == "ref":
                        loc = (val.a[0], val.a[1])
                        val = None
                ty = ty[2] if ty[0] in ("ref", "ptr") else (ty[2] if len(ty) > 2 and isinstance(ty[2], list) else ["other", "?"])
                continue
            k = e[0]
            if k == "f":
                if ty[0] == "adt" and self.crate + ty[1] in self.prog.newtypes:
                    ty = e[3]
                    continue  # newtype wrappers are transparent
                if val is None:
                    v = self.read(st, *loc)
                    if v.op == "ref":
                        loc = (v.a[0], v.a[1] + ((e[1], e[2]),))
                    else:
                        loc = (loc[0], loc[1] + ((e[1], e[2]),))
                else:
                    if val.op == "ref":
                        loc = (val.a[0], val.a[1] + ((e[1], e[2]),))
                        val = None
                    else:
                        val = self.step(val, (e[1], e[2]))
                ty = e[3]
            elif k == "d":
                if val is None:
                    loc = (loc[0], loc[1] + (("@", e[2]),))
                else:
                    val = self.dc(val, e[2])
            elif k == "i":
                if val is None:
                    val = self.read(st, *loc)
                val = self.at(cur, val, self.read(st, (fr.depth, e[1]), ()))
                loc = None
                ty = ty[1] if ty[0] in ("slice", "array") else ["other", "?"]
            elif k == "ci":
                if val is None:
                    val = self.read(st, *loc)
                loc = None
                val = self.at(cur, val, C("int", e[1]) if not e[2] else t("fromend", C("int", e[1])))
                ty = ty[1] if ty[0] in ("slice", "array") else ["other", "?"]
            elif k == "ss":
                if val is None:
                    val = self.read(st, *loc)
                loc = None
                val = app("subslice", val, C("int", e[1]), C("int", e[2]), boolc(e[3]))
            else:
                if val is None:
                    val = self.read(st, *loc)
                loc = None
                val = app("proj?", val)
        if val is None:
            return ("loc", loc[0], loc[1])
        return ("sym", val)

    def at(self, cur, v, i):
        if v.op == "ref":
            v = self.read(cur.st, *v.a)
        if v.op == "agg" and v.a[0] == "array" and is_c(i, "int"):
            f = v.a[3:]
            if i.a[1] < len(f):
                return f[i.a[1]]
        if i.op == "idx" and i.a[0].op == "elem" and i.a[0].a[1] is v:
            return i.a[0]
        return t("at", v, i)

    def rd(self, cur, fr, place):
        l = self.lv(cur, fr, place)
        if l[0] == "loc":
            return self.read(cur.st, l[1], l[2])
        return l[1]

    def val(self, cur, x):
        """value behind a (possibly mutable) pointer term"""
        while x.op == "ref":
            x = self.read(cur.st, *x.a)
        return x

    def assign(self, cur, fr, place, v):
        l = self.lv(cur, fr, place)
        if l[0] == "loc":
            self.write(cur.st, l[1], l[2], v)
        else:
            x = l[1]
            if x.op == "get" and x.a[0].op in ("obj", "objref") and not contains(v, x):
                # writing through a reference to the value of an entry
                self.emit(cur, "insert", x.a[0], x.a[1], v)
                self.touched(cur, x.a[0], "insert", x.a[1])
            else:
                self.emit(cur, "assign", x, v)
            self.kill_mention(cur, x)

    def kill_mention(self, cur, term):
        f = cur.st.facts
        dead = [a for a in f if contains(a, term)]
        if dead:
            f = dict(f)
            for a in dead:
                del f[a]
            cur.st.facts = f

    # ------------------------------------------------------------ operands
    def fnconst(self, f):
        k = f["path"] + "|" + (f.get("res") or "") + "|" + ",".join(map(ty_str, f.get("args", [])))
        self.fns[k] = f
        return C("fn", k)

    def const(self, c):
        if "fn" in c:
            return self.fnconst(c["fn"])
        ty = c["ty"]
        if "str" in c:
            return C("str", c["str"])
        if "bytes" in c and "static" not in c:
            return C("bytes", bytes(c["bytes"]))
        if "int" in c:
            if ty[0] == "bool":
                return boolc(c["int"])
            if ty[0] == "char":
                return C("char", chr(c["int"]))
            if ty[0] == "adt":
                return t("const", ty[1], c["int"])
            return C("int", c["int"])
        if "static" in c:
            return t("static", c["static"])
        if ty == ["tuple"]:
            return UNIT
        if ty[0] == "closure":
            return agg("closure", ty[1], "")
        if "named" in c:
            return t("named", c["named"])
        return t("zst", ty_str(ty))

    def opnd(self, cur, fr, o):
        if o[0] in ("copy", "move"):
            return self.rd(cur, fr, o[1])
        if o[0] == "const":
            return self.const(o[1])
        return t("sym", "?op")

    def rvalue(self, cur, fr, r, dest_live=True):
        """returns a term, or a list of (cur, term) when the path forks"""
        k = r[0]
        if k == "use":
            return self.opnd(cur, fr, r[1])
        if k == "ref":
            l = self.lv(cur, fr, r[2])
            if r[1] in ("shared", "fake"):
                if l[0] == "loc":
                    return self.read(cur.st, l[1], l[2])
                return l[1]
            if l[0] == "loc":
                v = self.read(cur.st, l[1], l[2])
                if v.op == "ref":
                    return v  # &mut *p
                return ref(l[1], l[2])
            return l[1]
        if k == "rawptr":
            l = self.lv(cur, fr, r[1])
            return ref(l[1], l[2]) if l[0] == "loc" else l[1]
        if k == "bin":
            return self.binop(cur, r[1], self.opnd(cur, fr, r[2]), self.opnd(cur, fr, r[3]))
        if k == "un":
            v = self.opnd(cur, fr, r[2])
            if r[1] == "Not":
                if is_c(v, "int"):
                    return app("bitnot", v)
                return neg(v)
            if r[1] == "PtrMetadata":
                v = self.val(cur, v)
                return C("int", len(v.a[1].encode())) if is_c(v, "str") else t("len", v) if v.op == "ext" else self.snapshot_len(cur, fr, v)
            return app("neg" if r[1] == "Neg" else r[1], v)
        if k == "cast":
            v = self.opnd(cur, fr, r[2])
            return v
        if k == "discr":
            v = self.val(cur, self.rd(cur, fr, r[1]))
            return t("discr", v, tuple((a, b) for a, b in r[3]))
        if k == "agg":
            fs = [self.opnd(cur, fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "adt":
                if self.crate + kk[1] in self.prog.newtypes and len(fs) == 1:
                    return fs[0]
                return agg("adt", kk[1], kk[2], *fs)
            if kk[0] == "closure":
                return agg("closure", kk[1], "", *fs)
            return agg(kk[0], "", "", *fs)
        if k == "repeat":
            return app("repeat", self.opnd(cur, fr, r[1]))
        return t("sym", "?rv")

    def binop(self, cur, op, a, b):
        a = self.val(cur, a)
        b = self.val(cur, b)
        ov = op.endswith("WithOverflow")
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = self.binop2(cur, op, a, b)
        if ov and op == "Sub" and not (is_c(a) and is_c(b)):
            self.emit(cur, "sub", a, b)
        if ov:
            return tup(r, FALSE)
        return r

    def binop2(self, cur, op, a, b):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if is_c(a) and is_c(b) and a.a[0] == b.a[0] and a.a[0] in ("int", "bool", "char"):
                x, y = a.a[1], b.a[1]
                return boolc(
                    {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
                )
            if op == "Eq":
                return self.eqterm(a, b)
            if op == "Ne":
                return neg(self.eqterm(a, b))
            if op == "Lt":
                return self.lt(a, b)
            if op == "Gt":
                return self.lt(b, a)
            if op == "Ge":
                return neg(self.lt(a, b))
            return neg(self.lt(b, a))
        if op in ("BitAnd", "BitOr", "BitXor"):
            if op == "BitAnd":
                if a is TRUE:
                    return b
                if b is TRUE:
                    return a
                if a is FALSE or b is FALSE:
                    return FALSE
                return t("and", a, b)
            if op == "BitOr":
                if a is FALSE:
                    return b
                if b is FALSE:
                    return a
                if a is TRUE or b is TRUE:
                    return TRUE
                return t("or", a, b)
            return t("xor", a, b)
        if is_c(a, "int") and is_c(b, "int"):
            x, y = a.a[1], b.a[1]
            if op == "Add":
                return C("int", x + y)
            if op == "Sub":
                return C("int", x - y)
            if op == "Mul":
                return C("int", x * y)
        if op == "Add":
            if is_c(b, "int") and b.a[1] == 0:
                return a
            if is_c(a, "int") and a.a[1] == 0:
                return b
            if is_c(a, "int"):
                a, b = b, a
            return app("add", a, b)
        return app(op.lower(), a, b)

    def eqterm(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "len" and is_c(y, "int") and y.a[1] == 0:
                return t("empty", x.a[0]) if len(x.a) == 1 else t("emptyat", *x.a)
            if x.op == "discr" and is_c(y, "int"):
                for v, n in x.a[1]:
                    if v == y.a[1]:
                        return t("isvar", x.a[0], n)
            if is_c(y, "str") and y.a[1] == "" and not is_c(x):
                return t("empty", x)
            if x.op == "many" and is_c(y, "int") and y.a[1] == 0:
                return FALSE
            if y is TRUE:
                return x
            if y is FALSE:
                return neg(x)
        if a is b and a.op != "c":
            return TRUE if not self.blurred(a) else t("eq", a, b)
        if b.id < a.id:
            a, b = b, a
        return t("eq", a, b)

    def blurred(self, x):
        return x.op == "prev" and x.a[0] >= 3 or any(
            y.op == "prev" and y.a[0] >= 3 or y.op == "phi" for y in subterms(x)
        )

    def lt(self, a, b):
        # 0 < len, len < 1
        if b.op == "len" and is_c(a, "int") and a.a[1] == 0:
            return neg(t("empty", b.a[0]) if len(b.a) == 1 else t("emptyat", *b.a))
        if a.op == "len" and is_c(b, "int") and b.a[1] == 1:
            return t("empty", a.a[0]) if len(a.a) == 1 else t("emptyat", *a.a)
        if is_c(b, "int") and b.a[1] == 1 and a.op == "count":
            return self.eqterm(a, C("int", 0))
        if is_c(a, "int") and a.a[1] == 0 and b.op == "count":
            return neg(self.eqterm(b, C("int", 0)))
        if b.op == "many" and is_c(a, "int") and a.a[1] == 0:
            return TRUE
        if a.op == "many" and is_c(b, "int") and b.a[1] == 1:
            return FALSE
        if is_c(b, "int") and b.a[1] == 0:
            return FALSE  # only unsigned sizes are compared in this code base
        return t("lt", a, b)

    # ------------------------------------------------------------ branching
    def setfact(self, cur, atom, v):
        f = dict(cur.st.facts)
        f[atom] = v
        cur.st.facts = f
        self.emit(cur, "assume", atom, v)

    def decide(self, cur, x):
        """[(cur, bool)] for a boolean term"""
        if x is TRUE:
            return [(cur, True)]
        if x is FALSE:
            return [(cur, False)]
        op = x.op
        if op == "c" and x.a[0] == "int":
            return [(cur, bool(x.a[1]))]
        if op == "not":
            return [(c, not b) for c, b in self.decide(cur, x.a[0])]
        if op == "and":
            out = []
            for c, b in self.decide(cur, x.a[0]):
                out += self.decide(c, x.a[1]) if b else [(c, False)]
            return out
        if op == "or":
            out = []
            for c, b in self.decide(cur, x.a[0]):
                out += [(c, True)] if b else self.decide(c, x.a[1])
            return out
        if op == "xor":
            out = []
            for c, b in self.decide(cur, x.a[0]):
                out += [(c2, b != b2) for c2, b2 in self.decide(c, x.a[1])]
            return out
        if op == "eq":
            return self.eq_split(cur, x.a[0], x.a[1])
        if op == "isvar":
            return [(c, v == x.a[1]) for c, v in self.variants(cur, x.a[0], [x.a[1]])]
        if op == "empty":
            e = self.emptiness(cur, x.a[0])
            if e is not None:
                return [(cur, e)]
        if op == "emptyat":
            e = cur.st.ob.get(("len", x.a[1], "e"))
            if e is not None:
                return [(cur, e == "E")]
        if op == "lt":
            r = self.first_round(cur, x.a[0], x.a[1])
            if r is not None:
                return [(cur, not r)]
            if is_c(x.a[1], "int") and x.a[1].a[1] == 1:
                r = self.first_round(cur, C("int", 0), x.a[0])
                if r is not None:
                    return [(cur, r)]
            r = self.lencmp(cur, x.a[0], x.a[1])
            if r is not None:
                return [(cur, r == "lt")]
        if op == "nondet":
            return [(cur.fork(), True), (cur, False)]
        return self.atom(cur, x)

    def atom(self, cur, x):
        v = cur.st.facts.get(x)
        if v is None:
            v = self.implied(cur.st.facts, x)
        if v is not None:
            return [(cur, v)]
        c2 = cur.fork()
        self.setfact(cur, x, True)
        self.setfact(c2, x, False)
        return [(cur, True), (c2, False)]

    def atleast(self, x):
        """(size, kind, n): x says that a size is n ("eq"), at least n ("from") or below n ("below")"""
        if x.op in ("eq", "lt"):
            a, b = x.a
            if a.op == "len" and is_c(b, "int"):
                return a, x.op if x.op == "eq" else "below", b.a[1]
            if b.op == "len" and is_c(a, "int"):
                return b, "eq" if x.op == "eq" else "from", a.a[1] + (x.op == "lt")
        elif x.op in ("empty", "emptyat"):
            return t("len", *x.a), "below", 1
        return None

    def implied(self, facts, x):
        """what the known sizes of a container say about another question about its size"""
        q = self.atleast(x)
        if q is None:
            return None
        lo, hi, ne = 0, None, set()
        for a, v in facts.items():
            if v is not True and v is not False:
                continue
            f = self.atleast(a)
            if f is None or f[0] is not q[0]:
                continue
            _, k, n = f
            if k == "eq" and v:
                lo, hi = max(lo, n), n if hi is None else min(hi, n)
            elif k == "eq":
                ne.add(n)
            elif (k == "from") == v:
                lo = max(lo, n)
            else:
                hi = n - 1 if hi is None else min(hi, n - 1)
        while lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        _, k, n = q
        if k == "eq":
            if n < lo or hi is not None and n > hi or n in ne:
                return False
            return True if lo == hi == n else None
        if k == "from":
            return True if lo >= n else False if hi is not None and hi < n else None
        return True if hi is not None and hi < n else False if lo >= n else None

    def lencmp(self, cur, a, b):
        """relation of two length snapshots of one object"""
        if a.op == "len" and b.op == "len" and a.a[0] is b.a[0] and len(a.a) == 2 == len(b.a):
            if a.a[1] == b.a[1]:
                return "eq"
            r = cur.st.ob.get(("rel", a.a[1], b.a[1]))
            if r == "same":
                return "eq"
            if r == "grown":
                return "lt"
            r = cur.st.ob.get(("rel", b.a[1], a.a[1]))
            if r == "same":
                return "eq"
            if r == "grown":
                return "gt"
        if a is b and is_c(a):
            return "eq"
        if a.op == "app" and b.op == "app" and a.a[0] == b.a[0] == "add" and len(a.a) == len(b.a):
            # sums: every part against the part that measures the same object
            left = list(b.a[1:])
            seen = set()
            for x in a.a[1:]:
                y = next((y for y in left if x is y or x.op == "len" and y.op == "len" and y.a[0] is x.a[0]), None)
                if y is None:
                    return None
                left.remove(y)
                r = self.lencmp(cur, x, y)
                if r is None:
                    return None
                seen.add(r)
            seen.discard("eq")
            return "eq" if not seen else seen.pop() if len(seen) == 1 else None
        return None

    def emptiness(self, cur, x):
        if x.op == "agg" and x.a[0] == "array":
            return len(x.a) == 3
        if x.op == "c" and x.a[0] in ("str", "bytes"):
            return len(x.a[1]) == 0
        if x.op == "cat" and any(is_c(y) and len(str(y.a[1])) for y in x.a):
            return False
        if x.op == "fmt" and any(is_c(y) and len(str(y.a[1])) for y in x.a):
            return False
        if x.op == "obj":
            if x not in self.tracked:
                self.tracked.add(x)
                raise Restart()
            e = cur.st.ob.get(x)
            if e == "E":
                return True
            if e == "N":
                return False
        if x.op == "oldobj":
            o = t("obj", x.a[0], x.a[1])
            if o not in self.tracked:
                self.tracked.add(o)
                raise Restart()
            e = cur.st.ob.get(x)
            if e in ("E", "N"):
                return e == "E"
            return cur.st.facts.get(t("empty", x))
        return None

    def emptiness_soft(self, cur, x):
        if x.op in ("obj", "oldobj"):
            e = cur.st.ob.get(x)
            return {"E": True, "N": False}.get(e)
        if x.op == "agg" and x.a[0] == "array":
            return len(x.a) == 3
        return cur.st.facts.get(t("empty", x))

    def eq_split(self, cur, a, b):
        a = self.val(cur, a)
        b = self.val(cur, b)
        if a is b and not self.blurred(a):
            return [(cur, True)]
        if is_c(a) and is_c(b):
            if a.a[0] == b.a[0]:
                return [(cur, a.a[1] == b.a[1])]
        r = self.lencmp(cur, a, b)
        if r is not None:
            return [(cur, r == "eq")]
        r = self.first_round(cur, a, b)
        if r is None:
            r = self.first_round(cur, b, a)
        if r is not None:
            return [(cur, r)]
        if b.op == "agg":
            a, b = b, a
        if a.op == "agg":
            kind, name, variant = a.a[:3]
            if b.op == "agg":
                if b.a[2] != variant or len(a.a) != len(b.a):
                    return [(cur, False)]
                pairs = list(zip(a.a[3:], b.a[3:]))
                return self.eq_all(cur, pairs)
            if kind == "adt":
                names = self.prog.field_names(self.crate, name, variant)
                ad = self.prog.adt(self.crate, name)
                enum = name in (OPTION, RESULT) or ad is not None and ad["kind"] == "Enum"
                if enum:
                    out = []
                    for c, v in self.variants(cur, b, [variant], [w["name"] for w in ad["variants"]] if ad is not None else None):
                        if v != variant:
                            out.append((c, False))
                        else:
                            d = self.dc(b, variant)
                            prs = [
                                (f, self.proj(d, names[i] if names else str(i)))
                                for i, f in enumerate(a.a[3:])
                            ]
                            out += self.eq_all(c, prs)
                    return out
                if names:
                    return self.eq_all(cur, [(f, self.proj(b, names[i])) for i, f in enumerate(a.a[3:])])
            elif kind == "tuple":
                return self.eq_all(cur, [(f, self.proj(b, str(i))) for i, f in enumerate(a.a[3:])])
        # opt vs opt: compare presence, then payload
        if a.op == "opt" or b.op == "opt":
            out = []
            for c, va in self.variants(cur, a, ["Some"]):
                for c2, vb in self.variants(c, b, ["Some"]):
                    if va != vb:
                        out.append((c2, False))
                    elif va == "Some":
                        out += self.eq_split(c2, self.proj(self.dc(a, "Some"), "0"), self.proj(self.dc(b, "Some"), "0"))
                    else:
                        out.append((c2, True))
            return out
        x = self.eqterm(a, b)
        if x.op != "eq":
            return self.decide(cur, x)
        f = cur.st.facts
        v = f.get(x)
        if v is not None:
            return [(cur, v)]
        for p, q in ((a, b), (b, a)):
            if is_c(q):
                # p == other constant known?
                for at, fv in f.items():
                    if fv is True and at.op == "eq" and (at.a[0] is p and is_c(at.a[1]) or at.a[1] is p and is_c(at.a[0])):
                        return [(cur, False)]
                if is_c(q, "str") and p.op in ("cat", "fmt"):
                    pass
        out = self.atom(cur, x)
        for c, bv in out:
            if bv:
                for p, q in ((a, b), (b, a)):
                    if is_c(q, "str") and not is_c(p):
                        self.substitute(c, p, q)
        return out

    def positive(self, v, facts):
        """a count that was raised at least once"""
        if is_c(v, "int"):
            return v.a[1] > 0
        if v.op == "phi":
            return t("pos", v) in facts
        if v.op == "app" and v.a[0] == "add":
            return any(self.positive(x, facts) for x in v.a[1:]) and all(
                x.op in ("len", "idx") or is_c(x, "int") and x.a[1] >= 0 or self.positive(x, facts) for x in v.a[1:]
            )
        return False

    def prune_counters(self, st, extra=None):
        """forget about counters that are gone"""
        pos = [a for a in st.facts if a.op == "pos"]
        if pos:
            live = set().union(*[v.phis for v in st.store.values() if v.phis], extra or ())
            if not all(a.phis <= live for a in pos):
                st.facts = {a: v for a, v in st.facts.items() if a.op != "pos" or a.phis <= live}

    def first_round(self, cur, z, i):
        """z is 0 and i counts the rounds of a loop, or something in it: is it still 0?"""
        if is_c(z, "int") and z.a[1] == 0 and i.op in ("phi", "app") and self.positive(i, cur.st.facts):
            return False
        if i.op == "idx" and i.a[0].op == "elem" and is_c(z, "int") and z.a[1] == 0:
            s = i.a[0].a[0]
            k = t("started", s)
            if k not in self.tracked:
                self.tracked.add(k)
                raise Restart()
            return cur.st.facts.get(t("round1", s))
        return None

    def substitute(self, cur, p, q):
        memo = {p: q}
        for r, v in list(cur.st.store.items()):
            if v.size >= p.size:
                n = subst(v, lambda x: None, memo)
                if n is not v:
                    cur.st.store[r] = n

    def eq_all(self, cur, pairs):
        if not pairs:
            return [(cur, True)]
        out = []
        for c, b in self.eq_split(cur, *pairs[0]):
            if not b:
                out.append((c, False))
            else:
                out += self.eq_all(c, pairs[1:])
        return out

    ALLV = {"Some": ("None", "Some"), "None": ("None", "Some"), "Ok": ("Ok", "Err"), "Err": ("Ok", "Err")}

    def variants(self, cur, x, interesting, allv=None):
        """split cur by the variant of x: [(cur, variant)]; variants not in `interesting` may come
        back grouped as '*'"""
        x = self.val(cur, x)
        op = x.op
        while op == "upd":
            x = x.a[0]
            op = x.op
        if op == "agg":
            return [(cur, x.a[2])]
        if op == "const":
            return [(cur, x.a[1])]
        if op == "opt":
            return [(c, "Some" if b else "None") for c, b in self.decide(cur, x.a[0])]
        if op == "entry":
            return [(c, "Occupied" if b else "Vacant") for c, b in self.decide(cur, t("has", *x.a))]
        if op == "res":  # result with a boolean condition for Ok
            return [(c, "Ok" if b else "Err") for c, b in self.decide(cur, x.a[0])]
        at = t("var", x)
        known = cur.st.facts.get(at)
        if known is None:
            if allv is None:
                allv = self.ALLV.get(interesting[0]) if interesting else None
            if allv is None:
                allv = ("*",) + tuple(interesting)
            known = frozenset(allv)
        out = []
        rest = frozenset(v for v in known if v not in interesting)
        ints = [v for v in interesting if v in known]
        if "*" in known and not ints:
            ints = []
        groups = [(v, frozenset([v])) for v in ints]
        if rest:
            groups.append((next(iter(rest)) if len(rest) == 1 else "*", rest))
        if len(groups) == 1:
            return [(cur, groups[0][0])]
        for i, (n, s) in enumerate(groups):
            c = cur.fork() if i < len(groups) - 1 else cur
            f = dict(c.st.facts)
            f[at] = s
            c.st.facts = f
            self.emit(c, "assume", at, s)
            out.append((c, n))
        return out

    # ------------------------------------------------------------ iteration scopes
    def advance(self, cur, site, ev=True):
        """a new value is about to be bound for `site`: everything known about the old one ages"""
        st = cur.st
        if ev:
            self.emit(cur, "advance", site)

        def f(x):
            if site not in x.sites:
                return x
            if x.op == "elem" and x.a[0] == site:
                return t("prev", 1, site, subst(x.a[1], f, memo))
            if x.op == "ext" and x.a[0] == site:
                return t("prev", 1, site, subst(app(x.a[1], *x.a[2:]), f, memo))
            if x.op == "prev" and x.a[1] == site:
                return t("prev", min(3, x.a[0] + 1), site, subst(x.a[2], f, memo))
            return None

        memo = {}
        for r, v in list(st.store.items()):
            if site in v.sites:
                st.store[r] = subst(v, f, memo)
        if any(site in a.sites for a in st.facts):
            st.facts = {a: v for a, v in st.facts.items() if site not in a.sites}

    def fresh(self, cur, fr, path, *args, extra=0):
        s = self.site(fr, ("x", extra))
        self.advance(cur, s)
        return t("ext", s, path, *args)

    def new_obj(self, cur, fr, kind, extra=0):
        # allocation sites are named by the allocating block and its direct caller
        pcs, pbb, _, _ = self.siteinfo[fr.cs]
        pfn = self.siteinfo[pcs][2] if pcs is not None else None
        s = self.cs_id("heap", fr.bb, (fr.body.path, pfn, pbb), ("o", extra))
        o = t("obj", s, kind)
        st = cur.st
        old = None
        held = [v.objs for v in st.store.values() if v.objs]
        if any(o in x for x in held):
            # the earlier object of this site lives on under a name of its own
            for n in range(OLD):
                old = t("oldobj", s, kind, n) if n else t("oldobj", s, kind)
                free = not any(old in x for x in held)
                if free:
                    break
            memo = {o: old}
            for r, v in list(st.store.items()):
                if o in v.objs:
                    st.store[r] = subst(v, lambda x: None, memo)
            ob = {k: v for k, v in st.ob.items() if k is not o and k is not old}
            if free and o in self.tracked:
                ob[old] = st.ob.get(o, "?")
            st.ob = ob
            if any(o in a.objs or old in a.objs for a in st.facts):
                f = {}
                for a, v in st.facts.items():
                    if old in a.objs:
                        continue
                    if o not in a.objs:
                        f[a] = v
                    elif free and a.op == "empty" and a.a[0] is o:
                        f[t("empty", old)] = v
                st.facts = f
        if any(o in a.objs for a in st.facts):
            st.facts = {a: v for a, v in st.facts.items() if o not in a.objs}
        if st.ob:
            st.ob = {k: v for k, v in st.ob.items() if not (k is o)}
        if o in self.tracked:
            st.ob = dict(st.ob)
            st.ob[o] = "E"
        if old is None:
            self.emit(cur, "new", o)
        else:
            self.emit(cur, "new", o, old)
        return o

    def touched(self, cur, target, how, key=None):
        """bookkeeping after a mutation of a container (how: grow, insert, remove, other)"""
        st = cur.st
        if target.op in ("obj", "oldobj") and st.ob:
            ob = dict(st.ob)
            if target in self.tracked or target in ob:
                if how in ("grow", "insert"):
                    ob[target] = "N"
                else:
                    ob[target] = "?" if ob.get(target) != "E" else "E"
            for k in list(ob):
                if k.__class__ is tuple and k[0] == "len" and k[2] is target:
                    ob[k] = "grown" if how == "grow" else "?"
            st.ob = ob
        f = None
        for a, v in st.facts.items():
            if a.op == "has" and a.a[0] is target:
                k = a.a[1]
                keep = (how == "insert" and v is True) or (how in ("remove",) and v is False and k is not key)
                if not keep:
                    if f is None:
                        f = dict(st.facts)
                    del f[a]
                    f.setdefault(t("had", target, k), v)
            elif a.op == "empty" and a.a[0] is target:
                if f is None:
                    f = dict(st.facts)
                del f[a]
        if f is not None:
            st.facts = f
        if key is not None and how in ("insert", "remove"):
            if st.facts.get(t("has", target, key)) is None:
                f = dict(st.facts)
                f[t("has", target, key)] = how == "insert"
                st.facts = f

    def snapshot_len(self, cur, fr, o):
        if o.op != "obj":
            if o.op == "agg" and o.a[0] == "array":
                return C("int", len(o.a) - 3)
            return t("len", o)
        k = self.site(fr, ("len", 0))
        ob = dict(cur.st.ob)
        e = self.emptiness(cur, o)
        for kk in list(ob):
            if kk.__class__ is tuple and kk[0] == "len" and kk[2] is o and kk[1] != k:
                ob[("rel", kk[1], k)] = ob[kk]
        for kk in list(ob):
            if kk.__class__ is tuple and kk[0] == "rel" and kk[1] == k:
                del ob[kk]
        ob[("len", k, o)] = "same"
        if e is not None:
            ob[("len", k, "e")] = "E" if e else "N"
        else:
            ob.pop(("len", k, "e"), None)
        cur.st.ob = ob
        return t("len", o, k)

    def concrete(self, cur, body, depth):
        """locals whose variant is known and all there is to them become that variant"""
        st = cur.st
        for r, v in list(st.store.items()):
            if r[0] != depth or v.op in ("agg", "c", "ref", "obj", "it") or r[1].__class__ is not int or r[1] >= len(body.locals):
                continue
            known = st.facts.get(t("var", v))
            if known.__class__ is not frozenset or len(known) != 1 or "*" in known:
                continue
            ty = body.locals[r[1]][0]
            if ty[0] != "adt":
                continue
            a = self.prog.adt(self.crate, ty[1])
            if a and a["kind"] == "Enum" and not any(w["fields"] for w in a["variants"]):
                st.store[r] = agg("adt", ty[1], next(iter(known)))

    def drop_loop_facts(self, cur, cs, blocks):
        """forget what was learned about values created in the previous round of a loop"""
        f = cur.st.facts
        dead = None
        for a in f:
            for s in a.sites:
                if self.in_loop(s, cs, blocks):
                    if dead is None:
                        dead = set()
                    dead.add(a)
                    break
        if dead:
            cur.st.facts = {a: v for a, v in f.items() if a not in dead}

    def in_loop(self, s, cs, blocks):
        while s is not None and s.__class__ is int:
            parent, bb, _, _ = self.siteinfo[s]
            if parent == cs:
                return bb in blocks
            s = parent
        return False

    # ------------------------------------------------------------ widening
    def widen(self, head, cur, name, limit=2, entry=False):
        tab = self.wtab.setdefault(head, {})
        self.entry = entry
        st = cur.st
        self.wev = []
        head = "%d.%d" % name
        old = st.facts
        if any(a.phis and head in a.phis for a in st.facts):
            st.facts = {a: v for a, v in st.facts.items() if not (a.phis and head in a.phis)}
        new = {r: self.widen_val(tab, head, r, (), v, limit) for r, v in st.store.items()}
        # a phi gets a new value here: values that were built from its old value have to be renamed
        redef = set()
        while True:
            more = {p for p, v in self.wev if p is not v} - redef
            if not more:
                break
            redef |= more
            for r, v in st.store.items():
                if v.phis and head in v.phis:
                    new[r] = self.rename(head, r, (), v, new[r], redef)
        for r, n in new.items():
            st.store[r] = n
        pos = {a for a in old if a.op == "pos" and head in a.phis}
        for p, v in self.wev:
            if p is not v:
                self.emit(cur, "widen", p, v)
                pos.discard(t("pos", p))
                if self.positive(v, old):
                    pos.add(t("pos", p))
        if pos:
            st.facts = {**st.facts, **dict.fromkeys(pos, True)}
        self.prune_counters(st)
        live = set()
        sites = set()
        for v in st.store.values():
            if v.objs:
                live |= v.objs
            if v.sites:
                sites |= v.sites
        if any(a.sites and not (a.sites <= sites) for a in st.facts):
            # nothing refers to these elements any more
            st.facts = {a: v for a, v in st.facts.items() if not a.sites or a.sites <= sites}
        if any(k.__class__ is T and k not in live for k in st.ob):
            st.ob = {k: v for k, v in st.ob.items() if k.__class__ is not T or k in live}
        if any(a.objs and not (a.objs <= live) for a in st.facts):
            st.facts = {a: v for a, v in st.facts.items() if not a.objs or a.objs <= live}
        if st.ob:  # drop length snapshots nobody refers to
            used = set()
            for v in st.store.values():
                if v.objs:
                    for y in subterms(v):
                        if y.op == "len" and len(y.a) == 2:
                            used.add(y.a[1])
            ob = {
                k: v
                for k, v in st.ob.items()
                if k.__class__ is not tuple
                or (k[0] == "len" and k[1] in used)
                or (k[0] == "rel" and k[1] in used and k[2] in used)
            }
            st.ob = ob

    def rename(self, head, r, path, v, n, redef):
        if not n.phis or head not in n.phis or not (n.subs & redef):
            return n
        if v.op == "agg" and n.op == "agg":
            nf = [self.rename(head, r, path + (v.a[2], i), x, y, redef) for i, (x, y) in enumerate(zip(fields(v), fields(n)))]
            return t("agg", v.a[0], v.a[1], v.a[2], *nf) if any(a is not b for a, b in zip(nf, fields(n))) else n
        if v.op in ("ref", "it"):
            return n
        p = t("phi", head, str(r), str(path))
        if n is p:
            return n
        self.wev.append((p, v))
        return p

    def widen_val(self, tab, head, r, path, v, limit):
        op = v.op
        if op == "agg":
            f = v.a[3:]
            if not f:
                return v
            nf = [self.widen_val(tab, head, r, path + (v.a[2], i), x, limit) for i, x in enumerate(f)]
            if any(a is not b for a, b in zip(nf, f)):
                return t("agg", v.a[0], v.a[1], v.a[2], *nf)
            return v
        if op in ("ref", "obj", "oldobj", "phi", "sym", "static", "named", "zst", "discr"):
            return v
        if op == "c" and v.a[0] != "int":
            return v
        if op == "it":
            return v
        s, ent = tab.setdefault((r, path), (set(), set()))
        if v in s or v in ent:
            return v
        if self.entry and len(ent) < ENTRIES:
            # what a variable may be before the loop does not count
            ent.add(v)
            return v
        if op == "app" and v.a[0] == "add" and v.a[1].op == "idx" and r in self.ctrs:
            return v
        if op == "c" or op == "app" and v.a[0] in ("add", "sub"):
            limit = 1
        if len(s) + bool(ent) >= limit:
            p = t("phi", head, str(r), str(path))
            self.wev.append((p, v))
            return p
        s.add(v)
        return v

    # ------------------------------------------------------------ bodies
    def run_body(self, cur, body, args, pfr):
        depth = pfr.depth + 1
        if depth > 40:
            raise Budget("inlining too deep")
        cs = self.cs_id(pfr.cs, pfr.bb, body.path, "call")
        fr = Frame(body, depth, cs)
        self.inlined.add(body.path)
        self.inv += 1
        inv = self.inv
        st = cur.st
        for i, a in enumerate(args):
            st.store[(depth, i + 1)] = a
        table = {}
        exits = {}
        outs = []
        npred = {}
        for i in range(len(body.blocks)):
            if not body.blocks[i]["c"]:
                for s in body.succ(i):
                    npred[s] = npred.get(s, 0) + 1
        live = body.live
        mutref = body.mutref
        saved = self.loc
        work = [(0, cur, None)]
        while work:
            bb, cur, prev = work.pop()
            while True:
                # prune dead locals
                lv = live[bb]
                store = cur.st.store
                dead = [r for r in store if r[0] == depth and r[1] not in lv and r[1] not in mutref]
                for r in dead:
                    del store[r]
                if npred.get(bb, 0) > (0 if bb == 0 else 1):
                    if bb in body.heads:
                        self.concrete(cur, body, depth)
                        self.drop_loop_facts(cur, cs, body.loop(bb))
                        self.ctrs = {(depth, g[1]) for g in body.counters.values()}
                        self.widen((inv, bb), cur, (cs, bb), entry=prev is not None and prev not in body.loop(bb))
                        self.ctrs = ()
                    cur = self.join(table, (bb, cur.st.key()), cur)
                    if cur is None:
                        break
                    cur = Cur(cur.st.copy(), cur.src, cur.evs)
                nxt = self.block(cur, fr, bb, outs)
                if not nxt:
                    break
                work.extend((b, c, bb) for b, c in nxt[1:])
                prev = bb
                bb, cur = nxt[0]
        self.loc = saved
        res = []
        for c, v in outs:
            for r in [r for r in c.st.store if r[0] >= depth]:
                del c.st.store[r]
            self.prune_counters(c.st, v.phis)
            if len(outs) == 1:
                res.append((c, v))
                continue
            n = self.join(exits, (c.st.key(), v), c)
            if n is not None:
                res.append((Cur(n.st.copy(), n.src, n.evs), v))
        return res

    loc = ("", "", 0)
    ctrs = ()

    def block(self, cur, fr, bb, outs, start=0):
        b = fr.body.blocks[bb]
        fr.bb = bb
        guard = fr.body.counters.get(bb)
        if guard is not None and guard[0] is None:
            guard = None
        for n, s in enumerate(b["s"]):
            if n < start:
                continue
            if s[0] == "=":
                self.loc = (fr.body.path, s[3][0], s[3][1])
                if s[2][0] == "cast" and s[2][1] == "IntToInt" and s[2][2][0] in ("copy", "move"):
                    x = self.val(cur, self.opnd(cur, fr, s[2][2]))
                    if not s[2][2][1][1] and fr.body.locals[s[2][2][1][0]][0][0] == "bool" and not is_c(x, "int"):
                        # true is 1, false is 0
                        r = []
                        for c, v in self.decide(cur, x):
                            self.assign(c, fr, s[1], C("int", int(v)))
                            r += self.block(c, fr, bb, outs, n + 1)
                        return r
                if guard is not None and n == guard[0]:
                    bound = self.val(cur, self.opnd(cur, fr, guard[2]))
                    r = self.counted(cur, fr, guard[1], bound.a[0], bound) if bound.op == "len" else None
                    if r is not None:
                        return [nx for c, v in r for nx in self.guarded(c, fr, b["t"], s[1], boolc((v is not None) is guard[3]))]
                v = self.rvalue(cur, fr, s[2])
                w = v.a[0] if v.op == "not" else v
                if w.op == "lt":
                    # the sizes compared may change later: what they are now counts
                    q = self.lencmp(cur, w.a[0], w.a[1])
                    if q is not None:
                        v = boolc((q == "lt") is (w is v))
                if s[2][0] == "bin" and s[2][1] in ("BitAnd", "BitOr", "BitXor") and v.op in BOOLISH:
                    # what is gathered over a loop is not to be forgotten
                    r = []
                    for c, y in self.decide(cur, v):
                        self.assign(c, fr, s[1], boolc(y))
                        r += self.block(c, fr, bb, outs, n + 1)
                    return r
                self.assign(cur, fr, s[1], v)
            elif s[0] == "dead":
                cur.st.store.pop((fr.depth, s[1]), None)
        self.loc = (fr.body.path, b["sp"][0], b["sp"][1])
        tm = b["t"]
        k = tm[0]
        if k == "goto":
            return [(tm[1], cur)]
        if k == "return":
            v = cur.st.store.get((fr.depth, 0), UNIT)
            outs.append((cur, v))
            return []
        if k == "drop":
            v = None
            if not tm[1][1]:
                cur.st.store.pop((fr.depth, tm[1][0]), None) if tm[1][0] not in fr.body.mutref else None
            return [(tm[2], cur)]
        if k == "switch":
            return self.switch(cur, fr, tm)
        if k == "assert":
            if tm[3] == "overflow":
                return [(tm[4], cur)]
            c = self.opnd(cur, fr, tm[1])
            out = []
            for c2, v in self.decide(cur, c):
                if v == tm[2]:
                    out.append((tm[4], c2))
                else:
                    self.panic(c2, "assert:" + tm[3], c)
            return out
        if k == "call":
            return self.callterm(cur, fr, tm)
        if k == "unreachable":
            return []
        if k == "resume":
            return []
        raise Budget("terminator %r" % (tm,))

    def guarded(self, cur, fr, tm, place, v):
        self.assign(cur, fr, place, v)
        return self.switch(cur, fr, tm)

    def counted(self, cur, fr, i, src, bound):
        """an index loop is an iteration over the list it is bounded by: [(cur, element or None)], or None"""
        import models

        r = (fr.depth, i)
        x = cur.st.store.get(r)
        k = models.K(self, cur, fr, {}, "", [src], True)
        if x is not None and is_c(x, "int") and x.a[1] == 0:
            it = models.new_it(k, src, "idx", 77)
        elif x is not None and x.op == "app" and x.a[0] == "add" and x.a[1].op == "idx" and is_c(x.a[2], "int") and x.a[2].a[1] == 1:
            E = x.a[1].a[0]
            if E.op != "elem" or E.a[1] is not src:
                return None
            it = t("it", "src", E.a[0], src, "idx")
        else:
            return None
        if it.op != "it" or it.a[0] != "src":
            return None
        out = []
        for c, _, v in models.pull(k, cur, it):
            c.st.store[r] = v if v is not None else bound
            out.append((c, v))
        return out

    def panic(self, cur, kind, *a):
        self.emit(cur, "panic", kind, *a)
        self.edges.append((cur.src, -1, cur.evs))

    def switch(self, cur, fr, tm):
        x = self.opnd(cur, fr, tm[1])
        x = self.val(cur, x)
        tg = tm[2]
        other = tm[3]
        if x.op == "discr":
            vs = dict(x.a[1])
            groups = {}
            order = []
            for v, n in x.a[1]:
                tb = next((b for val, b in tg if val == v), other)
                groups.setdefault(tb, []).append(n)
                if tb not in order:
                    order.append(tb)
            base = self.val(cur, x.a[0])
            while base.op == "upd":
                base = base.a[0]
            if base.op in ("agg", "opt", "entry", "res", "const"):
                out = []
                for c, v in self.variants(cur, base, []):
                    if v.__class__ is int:
                        tb = next((b for val, b in tg if val == v), other)
                    else:
                        tb = next((b for b in groups if v in groups[b]), None)
                        if tb is None:
                            raise Budget("variant %r of %s not in switch" % (v, show(base)))
                    out.append((tb, c))
                return out
            at = t("var", base)
            known = cur.st.facts.get(at)
            if known is None or "*" in known:
                known = frozenset(n for _, n in x.a[1])
            out = []
            gs = [(b, frozenset(n for n in groups[b] if n in known)) for b in order]
            gs = [(b, s) for b, s in gs if s]
            for i, (b, s) in enumerate(gs):
                c = cur.fork() if i < len(gs) - 1 else cur
                if len(gs) > 1:
                    f = dict(c.st.facts)
                    f[at] = s
                    c.st.facts = f
                    self.emit(c, "assume", at, s)
                out.append((b, c))
            return out
        if is_c(x) and x.a[0] in ("int", "bool", "char"):
            v = x.a[1]
            v = int(v) if not isinstance(v, str) else ord(v)
            return [(next((b for val, b in tg if val == v), other), cur)]
        isbool = tm[1][0] != "const" and self.opty(fr, tm[1]) == ["bool"]
        if isbool:
            out = []
            for c, b in self.decide(cur, x):
                tb = next((bb for val, bb in tg if val == (1 if b else 0)), other)
                out.append((tb, c))
            return out
        # integer / char match
        out = []
        ischar = self.opty(fr, tm[1]) == ["char"]
        cur2 = cur
        for val, b in tg:
            nxt = None
            for c, r in self.decide(cur2, self.eqterm(x, C("char", chr(val)) if ischar else C("int", val))):
                if r:
                    out.append((b, c))
                else:
                    nxt = c
            if nxt is None:
                return out
            cur2 = nxt
        out.append((other, cur2))
        return out

    def opty(self, fr, o):
        if o[0] in ("copy", "move"):
            l, p = o[1]
            if not p:
                return fr.body.locals[l][0]
            e = p[-1]
            if isinstance(e, list) and e[0] == "f":
                return e[3]
            if e == "*" and len(p) == 1:
                ty = fr.body.locals[l][0]
                return ty[2] if ty[0] == "ref" else ["other"]
        return ["other"]

    # ------------------------------------------------------------ calls
    def callterm(self, cur, fr, tm):
        f = tm[1]
        args = [self.opnd(cur, fr, a) for a in tm[2]]
        dest, target = tm[3], tm[4]
        live = True
        if target is not None and not dest[1]:
            live = dest[0] in fr.body.live[target]
        self.callsites += 1
        g = fr.body.counters.get(fr.bb)
        if g is not None and g[0] is None:
            import models

            src = self.val(cur, args[0])
            if self.name(f) in models.LIST_GET:
                r = self.counted(cur, fr, g[1], src, t("len", src))
                if r is not None:
                    out = []
                    for c, v in r:
                        self.assign(c, fr, dest, models.NONE if v is None else models.some(v.a[0]))
                        out.append((target, c))
                    return out
        if "dyn" in f:
            res = self.closure(cur, self.opnd(cur, fr, f["dyn"]), args, fr)
        else:
            res = self.call(cur, fr, f, args, live)
        out = []
        for c, v in res:
            fr.bb = fr.bb
            if target is None:
                self.edges.append((c.src, self.node(c.st), c.evs))
                continue
            self.assign(c, fr, dest, v)
            out.append((target, c))
        return out

    def body_of(self, f):
        if f.get("res_local"):
            return self.prog.bodies.get(self.crate + f["res_id"])
        if f.get("local"):
            return self.prog.bodies.get(self.crate + f["id"])
        return None

    def name(self, f):
        if f.get("trait"):
            return strip_generics(f["trait"]) + "::" + f["name"]
        return strip_generics(f["path"])

    def call(self, cur, fr, f, args, live=True):
        import models

        if f.get("ctor"):
            return [(cur, self.ctor(f, args))]
        n = self.name(f)
        pth = strip_generics(f.get("res") or f["path"])
        if pth in self.opaque or n in self.opaque:
            vals = [self.val(cur, a) for a in args]
            r = self.fresh(cur, fr, pth if pth in self.opaque else n, *vals)
            self.emit(cur, "call", pth if pth in self.opaque else n, tuple(vals), r)
            return [(cur, r)]
        b = self.body_of(f)
        if b is not None and len(args) == 2 and n.split("::")[-2:] in (["Fn", "call"], ["FnMut", "call_mut"], ["FnOnce", "call_once"]):
            # the arguments of a closure come as one tuple
            a = self.val(cur, args[1])
            if is_agg(a, "tuple"):
                return self.closure(cur, args[0], list(fields(a)), fr)
        if b is not None and not b.derived:
            bb = fr.bb
            r = self.run_body(cur, b, args, fr)
            fr.bb = bb
            return r
        if n == "std::convert::Into::into" and len(f["args"]) > 1:
            src, dst = f["args"][0], f["args"][1]
            b = self.prog.froms.get((ty_str(dst), ty_str(src)))
            if b is not None and not b.derived and b.crate == self.crate:
                bb = fr.bb
                r = self.run_body(cur, b, args, fr)
                fr.bb = bb
                return r
        return models.call(self, cur, fr, f, n, args, live)

    def ctor(self, f, args):
        p = strip_generics(f["path"])
        parts = p.split("::")
        if self.crate + p in self.prog.newtypes and len(args) == 1:
            return args[0]
        if self.crate + p in self.prog.adts:
            return agg("adt", p, parts[-1], *args)
        parent = "::".join(parts[:-1])
        std = {"Some": OPTION, "None": OPTION, "Ok": RESULT, "Err": RESULT}
        if parts[-1] in std and (parent in (OPTION, RESULT) or parent not in self.prog.adts):
            parent = std[parts[-1]]
        return agg("adt", parent, parts[-1], *args)

    def closure(self, cur, clo, args, fr):
        """call a closure / function value"""
        clo = self.val(cur, clo)
        if is_agg(clo, "closure"):
            b = self.prog.bodies.get(self.crate + clo.a[1])
            bb = fr.bb
            r = self.run_body(cur, b, [clo] + list(args), fr)
            fr.bb = bb
            return r
        if is_c(clo, "fn"):
            return self.call(cur, fr, self.fns[clo.a[1]], list(args))
        vals = [self.val(cur, a) for a in args]
        r = self.fresh(cur, fr, "callback", clo, *vals)
        self.emit(cur, "call", "callback", (clo,) + tuple(vals), r)
        return [(cur, r)]
