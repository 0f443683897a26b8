"""Loads the MIR dump and offers lookups on it."""
import functools
import json
import re


@functools.lru_cache(None)
def strip_generics(p):
    """`std::vec::Vec::<T, A>::push` -> `std::vec::Vec::push`, keeping `<X as Tr>::f`"""
    out = []
    i = 0
    while i < len(p):
        if p.startswith("::<", i):
            m = re.match(r"::<impl ([^<>]*?)>", p[i:])
            if m:
                n = m.group(1)
                n = {"[T]": "slice"}.get(n, n)
                out.append("::" + n)
                i += m.end()
                continue
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


def ty_str(t):
    k = t[0]
    if k == "adt":
        return t[1] + ("<" + ",".join(map(ty_str, t[2:])) + ">" if len(t) > 2 else "")
    if k == "ref":
        return "&" + ty_str(t[2])
    if k == "tuple":
        return "(" + ",".join(map(ty_str, t[1:])) + ")"
    return ":".join(x if isinstance(x, str) else ty_str(x) if isinstance(x, list) else str(x) for x in t)


def peel(t):
    """strip references and smart pointers"""
    while True:
        if t[0] in ("ref", "ptr"):
            t = t[2]
        elif t[0] == "adt" and t[1] in ("std::rc::Rc", "std::boxed::Box", "std::sync::Arc") and len(t) > 2:
            t = t[2]
        else:
            return t


def const_int(c):
    return c.get("int") if c.get("ty", [""])[0] == "int" else None


class Body:
    def __init__(self, j):
        self.j = j
        self.id = j["id"]
        self.path = j["path"]
        self.nargs = j["nargs"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.mac = j["mac"]
        self.derived = any(m.startswith("#[derive") for m in j["mac"])
        self.impl_trait = j.get("impl_trait")
        self.impl_self = j.get("impl_self")
        self.file, self.line = j["span"]
        self._live = None
        self._heads = None
        self._mutref = None
        self._loops = None
        self._counters = None

    # ---- CFG
    def succ(self, i):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[4]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        return []

    @property
    def heads(self):
        if self._heads is None:
            heads = set()
            color = {}
            st = [(0, iter(self.succ(0)))]
            color[0] = 1
            while st:
                n, it = st[-1]
                for s in it:
                    if s not in color:
                        color[s] = 1
                        st.append((s, iter(self.succ(s))))
                        break
                    if color[s] == 1:
                        heads.add(s)
                else:
                    color[n] = 2
                    st.pop()
            self._heads = heads
        return self._heads

    def loop(self, head):
        """blocks of the natural loop of `head`"""
        if self._loops is None:
            self._loops = {}
        r = self._loops.get(head)
        if r is None:
            # blocks reachable from head that reach head again
            fwd = set()
            st = list(self.succ(head))
            while st:
                x = st.pop()
                if x not in fwd:
                    fwd.add(x)
                    if x != head:
                        st.extend(self.succ(x))
            preds = {}
            for i in range(len(self.blocks)):
                if not self.blocks[i]["c"]:
                    for y in self.succ(i):
                        preds.setdefault(y, []).append(i)
            back = set()
            st = list(preds.get(head, []))
            while st:
                x = st.pop()
                if x not in back and x in fwd:
                    back.add(x)
                    if x != head:
                        st.extend(preds.get(x, []))
            r = (fwd & back) | {head}
            self._loops[head] = r
        return r

    @property
    def counters(self):
        """index loops: block -> (statement, counter, other operand, in-range outcome) for a comparison of a counter with a
        bound (or block -> (None, counter) for a call that looks a counter up), where the counter starts at 0 and the only
        changes to it are increments by one"""
        if self._counters is None:
            defs = {}
            for b, blk in enumerate(self.blocks):
                if blk["c"]:
                    continue
                for n, s in enumerate(blk["s"]):
                    if s[0] == "=":
                        defs.setdefault(s[1][0], []).append((b, n, s[1][1], s[2]))
                tm = blk["t"]
                if tm[0] == "call":
                    defs.setdefault(tm[3][0], []).append((b, None, tm[3][1], tm))
            one = lambda l: defs[l][0][3] if len(defs.get(l, ())) == 1 and not defs[l][0][2] else None
            plain = lambda o: o[1][0] if o[0] in ("copy", "move") and not o[1][1] else None

            def origin(o):
                """the local an operand is a copy of"""
                for _ in range(4):
                    l = plain(o)
                    if l is None or l in cnt:
                        return l
                    d = one(l)
                    if d is None or d[0] != "use":
                        return l
                    o = d[1]
                return None

            def is_one(o):
                return o[0] == "const" and const_int(o[1]) == 1

            def increment(i, r):
                # _i = move (_t.0) with _t = AddWithOverflow(_i, 1), or _i = Add(_i, 1)
                if r[0] == "use" and r[1][0] in ("copy", "move") and len(r[1][1][1]) == 1:
                    r = one(r[1][1][0])
                    if r is None:
                        return False
                return r[0] == "bin" and r[1].startswith("Add") and plain(r[2]) == i and is_one(r[3])

            cnt = set()
            for i, ds in defs.items():
                if i <= self.nargs or i in self.mutref or len(ds) < 2 or any(d[2] or d[1] is None for d in ds):
                    continue
                z = [d for d in ds if d[3][0] == "use" and d[3][1][0] == "const" and const_int(d[3][1][1]) == 0]
                if len(z) == 1 and all(d is z[0] or increment(i, d[3]) for d in ds):
                    cnt.add(i)
            out = {}
            for h in self.heads if cnt else ():
                lp = self.loop(h)
                inside = {i for i in cnt if any(d[0] in lp for d in defs[i])}
                for b in lp:
                    blk = self.blocks[b]
                    tm = blk["t"]
                    if tm[0] == "call" and len(tm[2]) == 2 and tm[1].get("name") == "get":
                        i = origin(tm[2][1])
                        if i in inside:
                            out[b] = (None, i)
                    if tm[0] != "switch" or plain(tm[1]) is None:
                        continue
                    eq = [n for n, s in enumerate(blk["s"]) if s[0] == "="]
                    if not eq:
                        continue
                    n = eq[-1]
                    s = blk["s"][n]
                    if s[1][1] or s[1][0] != plain(tm[1]) or s[2][0] != "bin":
                        continue
                    op, x, y = s[2][1:4]
                    i, j = origin(x), origin(y)
                    if i in inside and op in ("Lt", "Ne", "Ge", "Eq"):
                        out[b] = (n, i, y, op in ("Lt", "Ne"))
                    elif j in inside and op in ("Gt", "Ne", "Le", "Eq"):
                        out[b] = (n, j, x, op in ("Gt", "Ne"))
            self._counters = out
        return self._counters

    @property
    def mutref(self):
        """locals that are mutably borrowed (they stay alive until StorageDead)"""
        if self._mutref is None:
            s = set()
            for b in self.blocks:
                for x in b["s"]:
                    if x[0] == "=" and x[2][0] in ("ref", "rawptr"):
                        if x[2][0] == "rawptr":
                            s.add(x[2][1][0])
                        elif x[2][1] in ("mut", "other"):
                            s.add(x[2][2][0])
            self._mutref = s
        return self._mutref

    @property
    def live(self):
        """locals live at the entry of each block"""
        if self._live is not None:
            return self._live

        def op(o, u):
            if o[0] in ("copy", "move"):
                pl(o[1], u)

        def pl(p, u):
            u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i":
                    u.add(e[1])

        n = len(self.blocks)
        steps = []
        for b in self.blocks:
            seq = []
            for s in b["s"]:
                if s[0] == "=":
                    u = set()
                    d = None
                    if s[1][1]:
                        pl(s[1], u)
                    else:
                        d = s[1][0]
                    r = s[2]
                    k = r[0]
                    if k == "use":
                        op(r[1], u)
                    elif k == "ref":
                        pl(r[2], u)
                    elif k == "rawptr":
                        pl(r[1], u)
                    elif k == "bin":
                        op(r[2], u)
                        op(r[3], u)
                    elif k == "un":
                        op(r[2], u)
                    elif k == "cast":
                        op(r[2], u)
                    elif k == "discr":
                        pl(r[1], u)
                    elif k == "agg":
                        for o in r[2]:
                            op(o, u)
                    elif k == "repeat":
                        op(r[1], u)
                    seq.append((u, d))
            t = b["t"]
            u = set()
            d = None
            if t[0] == "switch":
                op(t[1], u)
            elif t[0] == "assert":
                op(t[1], u)
            elif t[0] == "call":
                for o in t[2]:
                    op(o, u)
                if "dyn" in t[1]:
                    op(t[1]["dyn"], u)
                if t[3][1]:
                    pl(t[3], u)
                else:
                    d = t[3][0]
            elif t[0] == "return":
                u.add(0)
            seq.append((u, d))
            steps.append(seq)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                cur = set()
                for s in self.succ(i):
                    cur |= live[s]
                for u, d in reversed(steps[i]):
                    if d is not None:
                        cur.discard(d)
                    cur |= u
                if cur != live[i]:
                    live[i] = cur
                    ch = True
        self._live = live
        return live


class Program:
    def __init__(self, *dumps):
        self.bodies = {}
        self.by_path = {}
        self.adts = {}
        self.crates = []
        for d in dumps:
            j = json.load(open(d))
            self.crates.append(j["crate"])
            pre = "bin" if j["bin"] else ""
            for b in j["bodies"]:
                b = Body(b)
                b.crate = pre
                self.bodies[pre + b.id] = b
                self.by_path.setdefault(pre + b.path, b)
            for a in j["adts"]:
                self.adts.setdefault(pre + a["path"], a)
        self.newtypes = set()
        for p, a in self.adts.items():
            if a["kind"] == "Struct" and len(a["variants"]) == 1:
                f = a["variants"][0]["fields"]
                if len(f) == 1 and f[0][0] == "0":
                    self.newtypes.add(p)
        self.froms = {}
        for b in self.bodies.values():
            if b.impl_trait == "std::convert::From" and b.path.endswith("::from"):
                self.froms[(ty_str(b.impl_self), ty_str(b.locals[1][0]))] = b

    def adt(self, crate, name):
        """the definition of a type as crate `crate` names it"""
        a = self.adts.get(crate + name)
        if a is None and "::" in name and name.split("::")[0] in self.crates:
            a = self.adts.get(name.split("::", 1)[1])
        return a

    def field_names(self, crate, adt, variant):
        a = self.adt(crate, adt)
        if a:
            for v in a["variants"]:
                if v["name"] == variant:
                    return [f[0] for f in v["fields"]]
        return None
