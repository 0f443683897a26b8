"""Decides whether two regular expression constants mean the same: for every line, both match or neither does, and all
capture groups start and end at the same places (leftmost-first semantics of the regex crate).

Both expressions are compiled to backtracking programs and run side by side as ordered lists of threads whose capture
registers are position names; positions only matter up to equality, so the joint state space is finite and is explored
completely, one representative character per class of characters that no expression tells apart."""
import unicodedata

WS = set("\t\n\v\f\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000") | {chr(c) for c in range(0x2000, 0x200B)}


def xid_start(c):
    return c != "_" and c.isidentifier()


def xid_continue(c):
    return ("a" + c).isidentifier()


def word(c):
    return c.isalpha() or unicodedata.category(c) in ("Mn", "Mc", "Me", "Nd", "Nl", "Pc") or c in "\u200c\u200d"


CLASSES = {
    "s": lambda c: c in WS,
    "d": lambda c: unicodedata.category(c) == "Nd",
    "w": word,
}
PROPS = {
    "XID_Start": xid_start, "XIDS": xid_start, "XID_Continue": xid_continue, "XIDC": xid_continue,
    "ID_Start": xid_start, "ID_Continue": xid_continue,
    "L": str.isalpha, "Letter": str.isalpha, "Alphabetic": str.isalpha, "Alpha": str.isalpha,
    "Lu": lambda c: unicodedata.category(c) == "Lu", "Uppercase": str.isupper,
    "Ll": lambda c: unicodedata.category(c) == "Ll", "Lowercase": str.islower,
    "Nd": CLASSES["d"], "White_Space": CLASSES["s"],
}


class Unsupported(Exception):
    pass


class Parse:
    def __init__(self, p):
        self.p, self.i, self.groups = p, 0, 0

    def peek(self, n=1):
        return self.p[self.i:self.i + n]

    def next(self):
        c = self.p[self.i]
        self.i += 1
        return c

    def alt(self):
        xs = [self.seq()]
        while self.peek() == "|":
            self.next()
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def seq(self):
        xs = []
        while self.i < len(self.p) and self.peek() not in ("|", ")"):
            xs.append(self.rep())
        return ("seq", xs)

    def rep(self):
        x = self.atom()
        while True:
            c = self.peek()
            if c and c in "*+?":
                self.next()
                lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
            elif c == "{":
                j = self.p.index("}", self.i)
                s = self.p[self.i + 1:j]
                self.i = j + 1
                a, _, b = s.partition(",")
                lo = int(a)
                hi = lo if "," not in s else (int(b) if b else None)
            else:
                return x
            lazy = self.peek() == "?"
            if lazy:
                self.next()
            x = ("rep", x, lo, hi, lazy)

    def atom(self):
        c = self.next()
        if c == "(":
            if self.peek(2) == "?:":
                self.i += 2
                x = self.alt()
            elif self.peek(3) == "?P<" or self.peek(2) == "?<":
                self.i = self.p.index(">", self.i) + 1
                self.groups += 1
                g = self.groups
                x = ("grp", g, self.alt())
            elif self.peek() == "?":
                raise Unsupported("flags")
            else:
                self.groups += 1
                g = self.groups
                x = ("grp", g, self.alt())
            if self.next() != ")":
                raise Unsupported("group")
            return x
        if c == "[":
            return ("set", self.cls())
        if c == "^":
            return ("bol",)
        if c == "$":
            return ("eol",)
        if c == ".":
            return ("set", lambda ch: ch != "\n")
        if c == "\\":
            return self.escape()
        return ("set", lambda ch, c=c: ch == c)

    def escape(self):
        f = self.esc()
        if f == "z":
            return ("eol",)
        if f == "A":
            return ("bol",)
        return ("set", f)

    def esc(self):
        c = self.next()
        if c in "sdw":
            return CLASSES[c]
        if c in "SDW":
            return lambda ch, f=CLASSES[c.lower()]: not f(ch)
        if c in "pP":
            if self.peek() == "{":
                j = self.p.index("}", self.i)
                n = self.p[self.i + 1:j]
                self.i = j + 1
            else:
                n = self.next()
            f = PROPS.get(n)
            if f is None:
                raise Unsupported("\\p{%s}" % n)
            return (lambda ch: not f(ch)) if c == "P" else f
        if c in "zA":
            return c
        if c in "nrtfv0":
            v = {"n": "\n", "r": "\r", "t": "\t", "f": "\f", "v": "\v"}.get(c)
            if v is None:
                raise Unsupported("\\0")
            return lambda ch: ch == v
        if c.isalnum():
            raise Unsupported("\\" + c)
        return lambda ch: ch == c

    def cls(self):
        negd = self.peek() == "^"
        if negd:
            self.next()
        fs = []
        first = True
        while True:
            c = self.next()
            if c == "]" and not first:
                break
            first = False
            if c == "[" or c == "&" and self.peek() == "&":
                raise Unsupported("nested class")
            if c == "\\":
                p = self.p[self.i]
                f = self.esc()
                if isinstance(f, str):
                    raise Unsupported("class")
                if p.isalnum() or self.peek() != "-":
                    fs.append(f)
                    continue
                c = p
            if self.peek() == "-" and self.peek(2)[1:] not in ("]", ""):
                self.next()
                d = self.next()
                if d == "\\":
                    d = self.next()
                fs.append(lambda ch, a=c, b=d: a <= ch <= b)
            else:
                fs.append(lambda ch, a=c: ch == a)
        return lambda ch: any(f(ch) for f in fs) != negd


def compile_(p):
    ps = Parse(p)
    ast = ps.alt()
    if ps.i != len(p):
        raise Unsupported("syntax")
    prog = []

    def go(x):
        k = x[0]
        if k == "seq":
            for y in x[1]:
                go(y)
        elif k == "alt":
            ends = []
            for j, y in enumerate(x[1]):
                if j < len(x[1]) - 1:
                    s = len(prog)
                    prog.append(None)
                    go(y)
                    ends.append(len(prog))
                    prog.append(None)
                    prog[s] = ("split", s + 1, len(prog))
                else:
                    go(y)
            for e in ends:
                prog[e] = ("jmp", len(prog))
        elif k == "rep":
            _, y, lo, hi, lazy = x
            if lo > 20 or hi is not None and hi > 20:
                raise Unsupported("count")
            for _ in range(lo):
                go(y)
            if hi is None:
                s = len(prog)
                prog.append(None)
                go(y)
                prog.append(("jmp", s))
                prog[s] = ("split", len(prog), s + 1) if lazy else ("split", s + 1, len(prog))
            else:
                sp = []
                for _ in range(hi - lo):
                    sp.append(len(prog))
                    prog.append(None)
                    go(y)
                for s in sp:
                    prog[s] = ("split", len(prog), s + 1) if lazy else ("split", s + 1, len(prog))
        elif k == "grp":
            prog.append(("save", 2 * x[1] - 2))
            go(x[2])
            prog.append(("save", 2 * x[1] - 1))
        elif k == "set":
            prog.append(("set", x[1]))
        else:
            prog.append((k,))

    go(ast)
    prog.append(("match",))
    return prog, ps.groups


def closure(prog, threads, regs0, pos, first, end, best):
    """follow empty transitions in priority order -> (threads at character tests, best match)"""
    out = []
    seen = set()
    starts = list(threads)
    if best is None:
        starts.append((0, regs0))
    for pc, regs in starts:
        st = [(pc, regs)]
        while st:
            pc, regs = st.pop()
            if pc in seen:
                continue
            seen.add(pc)
            op = prog[pc]
            if op[0] == "jmp":
                st.append((op[1], regs))
            elif op[0] == "split":
                st.append((op[2], regs))
                st.append((op[1], regs))
            elif op[0] == "save":
                r = list(regs)
                r[op[1]] = pos
                st.append((pc + 1, tuple(r)))
            elif op[0] == "bol":
                if first:
                    st.append((pc + 1, regs))
            elif op[0] == "eol":
                if end:
                    st.append((pc + 1, regs))
            elif op[0] == "match":
                return out, regs
            else:
                out.append((pc, regs))
    return out, best


def reps(progs):
    sets = []
    for p in progs:
        for op in p:
            if op[0] == "set":
                sets.append(op[1])
    seen = {}
    for cp in list(range(0x3100)) + [0x1F600, 0xFFFD, 0x20000, 0x1D7CE]:
        if 0xD800 <= cp < 0xE000:
            continue
        c = chr(cp)
        k = tuple(f(c) for f in sets) + (c == "\n",)
        if k not in seen:
            seen[k] = c
    return list(seen.values())


def only(prog, g):
    """the program with all captures but group g left out"""
    keep = {2 * g - 2: 0, 2 * g - 1: 1}
    return [(("save", keep[op[1]]) if op[1] in keep else ("jmp", i + 1)) if op[0] == "save" else op for i, op in enumerate(prog)]


def equivalent(a, b, limit=60000, group=None):
    """True / a line on which they differ / None: not decided; group=(i, j): only group i of a and j of b are compared"""
    if a == b and (group is None or group[0] == group[1]):
        return True
    try:
        pa, ga = compile_(a)
        pb, gb = compile_(b)
    except (Unsupported, IndexError, ValueError):
        return None
    if group is not None:
        if group[0] > ga or group[1] > gb:
            return ""
        pa, pb, ga, gb = only(pa, group[0]), only(pb, group[1]), 1, 1
    if ga != gb:
        return ""
    r0 = (None,) * (2 * ga)
    chars = reps([pa, pb])

    def canon(sa, sb):
        m = {None: None}

        def f(r):
            return tuple(m.setdefault(x, len(m)) for x in r)

        def g(s):
            th, best = s
            return (tuple((pc, f(r)) for pc, r in th), None if best is None else f(best))

        return g(sa), g(sb)

    start = (((), None), ((), None), True, False)
    parent = {start: None}
    work = [start]
    n = 0
    while work:
        s = work.pop(0)
        sa, sb, first, nl = s
        n += 1
        if n > limit:
            return None
        pos = 1 << 30
        ra = closure(pa, sa[0], r0, pos, first, True, sa[1])[1]
        rb = closure(pb, sb[0], r0, pos, first, True, sb[1])[1]
        if ra != rb:
            out = []
            while parent[s] is not None:
                s, c = parent[s]
                out.append(c)
            return "".join(reversed(out))
        if nl:
            continue
        ca, ba = closure(pa, sa[0], r0, pos, first, False, sa[1])
        cb, bb = closure(pb, sb[0], r0, pos, first, False, sb[1])
        for c in chars:
            na = (tuple((pc + 1, r) for pc, r in ca if pa[pc][1](c)), ba)
            nb = (tuple((pc + 1, r) for pc, r in cb if pb[pc][1](c)), bb)
            x, y = canon(na, nb)
            d = (x, y, False, c == "\n")
            if d not in parent:
                parent[d] = (s, c)
                work.append(d)
    return True


MEMO = {}


def role(p, spec):
    for k, v in spec.items():
        if v == p:
            return k
    for k, v in spec.items():
        key = (p, v)
        if key not in MEMO:
            MEMO[key] = equivalent(p, v)
        if MEMO[key] is True:
            return k
    return None


if __name__ == "__main__":
    import sys
    import time

    t0 = time.time()
    print(repr(equivalent(sys.argv[1], sys.argv[2])), round(time.time() - t0, 2))
