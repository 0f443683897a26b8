"""Hash-consed terms: the value domain of the analysis."""


class T:
    __slots__ = ("op", "a", "id", "sites", "objs", "size", "phis")
    table = {}
    n = 0

    def __repr__(self):
        return show(self)

    @property
    def subs(self):
        """all subterms, itself included"""
        r = SUBS.get(self)
        if r is None:
            r = {self}
            for x in self.a:
                if x.__class__ is T:
                    r |= x.subs
            SUBS[self] = r = frozenset(r)
        return r

    def __lt__(self, o):
        return self.id < o.id


EMPTY = frozenset()
SUBS = {}


def t(op, *a):
    k = (op,) + a
    r = T.table.get(k)
    if r is None:
        r = T()
        r.op = op
        r.a = a
        T.n += 1
        r.id = T.n
        s = EMPTY
        o = EMPTY
        ph = EMPTY
        size = 1
        for x in a:
            if x.__class__ is T:
                if x.sites:
                    s = s | x.sites
                if x.objs:
                    o = o | x.objs
                if x.phis:
                    ph = ph | x.phis
                size += x.size
        if op in ("elem", "ext"):
            s = s | {a[0]}
        elif op == "prev":
            s = s | {a[1]}
        elif op in ("obj", "oldobj"):
            o = o | {r}
        elif op == "phi":
            ph = ph | {a[0]}
        r.phis = ph
        r.sites = s
        r.objs = o
        r.size = size
        T.table[k] = r
    return r


def C(ty, v):
    return t("c", ty, v)


UNIT = t("agg", "tuple", "", "")
TRUE = C("bool", True)
FALSE = C("bool", False)


def boolc(b):
    return TRUE if b else FALSE


def agg(kind, name, variant, *f):
    return t("agg", kind, name, variant, *f)


OPTION = "std::option::Option"
RESULT = "std::result::Result"
NONE = agg("adt", OPTION, "None")


def some(x):
    return agg("adt", OPTION, "Some", x)


def ok(x):
    return agg("adt", RESULT, "Ok", x)


def err(x):
    return agg("adt", RESULT, "Err", x)


def tup(*x):
    return agg("tuple", "", "", *x)


def ref(root, path):
    return t("ref", root, path)


def fields(x):
    return x.a[3:]


def is_agg(x, kind=None):
    return x.op == "agg" and (kind is None or x.a[0] == kind)


def is_c(x, ty=None):
    return x.op == "c" and (ty is None or x.a[0] == ty)


def app(f, *a):
    return t("app", f, *a)


def neg(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    return t("not", x)


def subst(x, f, memo):
    """bottom-up rewrite; f(term) -> term or None (None: rebuild from children)"""
    r = memo.get(x)
    if r is not None:
        return r
    r = f(x)
    if r is None:
        na = []
        ch = False
        for c in x.a:
            if c.__class__ is T:
                n = subst(c, f, memo)
                ch = ch or n is not c
                na.append(n)
            else:
                na.append(c)
        r = t(x.op, *na) if ch else x
    memo[x] = r
    return r


def subterms(x, seen=None):
    if seen is None:
        seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        for c in y.a:
            if c.__class__ is T:
                st.append(c)
    return seen


def contains(x, y):
    """y occurs in x"""
    if x is y:
        return True
    st = [x]
    seen = set()
    while st:
        z = st.pop()
        if z is y:
            return True
        if z in seen:
            continue
        seen.add(z)
        for c in z.a:
            if c.__class__ is T and c.size >= y.size:
                st.append(c)
    return False


def short(n):
    return str(n).split("::")[-1]


def show(x, d=0):
    if x.__class__ is not T:
        return repr(x)
    if d > 12:
        return "…"
    s = lambda y: show(y, d + 1)
    op, a = x.op, x.a
    if op == "c":
        return repr(a[1]) if a[0] != "fn" else "fn:" + short(a[1])
    if op == "agg":
        fs = ", ".join(s(y) for y in a[3:])
        if a[0] == "tuple":
            return "(" + fs + ")"
        if a[0] == "array":
            return "[" + fs + "]"
        if a[0] == "closure":
            return "|" + short(a[1]) + "|{" + fs + "}"
        n = short(a[1])
        if a[2] and a[2] != n:
            n = n + "::" + a[2] if n not in ("Option", "Result") else a[2]
        return n + ("{" + fs + "}" if len(a) > 3 else "")
    if op == "fld":
        return s(a[0]) + "." + a[1]
    if op == "dc":
        return s(a[0]) + "@" + a[1]
    if op == "sym":
        return a[0]
    if op == "elem":
        return "E%s<%s>" % (a[0], s(a[1]))
    if op == "prev":
        return "P%d.%s<%s>" % (a[0], a[1], s(a[2]) if a[2].__class__ is T else a[2])
    if op == "obj":
        return "#%s" % a[0]
    if op == "ref":
        return "&mut%s%s" % (a[0], "".join("." + str(p) for p in a[1]))
    if op == "app":
        return short(a[0]) + "(" + ", ".join(s(y) for y in a[1:]) + ")"
    if op == "ext":
        return "%s!%s(" % (short(a[1]), a[0]) + ", ".join(s(y) for y in a[2:]) + ")"
    return op + "(" + ", ".join(s(y) for y in a) + ")"
