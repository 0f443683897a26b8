"""C31: every run comes to an end."""
from terms import *
from mon import *
import prog as pm
import rules_panic as RX

DRIVERS = {"next", "next_back", "nth", "read_line", "read_until", "read", "read_to_end", "read_to_string", "fill_buf", "pop", "pop_front", "pop_back",
           "pop_first", "pop_last", "recv", "split_first", "split_once", "strip_prefix", "split_off", "drain", "remove", "swap_remove", "take"}
ENDLESS = ("::Cycle<", "::Repeat<", "::RepeatWith<", "::RangeFrom<", "::Successors<", "::FromFn<")
BOUND = ("::Take<", "::Zip<", "::TakeWhile<", "::MapWhile<", "::Scan<")
LINKED = ("ArtefactId", "RequirementId", "models::Relation", "models::Requirement", "models::Reference", "models::Graph", "models::Artefact")
SETS = ("BTreeSet", "HashSet", "BTreeMap", "HashMap")


def tys(x):
    return pm.ty_str(x) if isinstance(x, (list, tuple)) else str(x)


class End:
    soft = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.problem = None

    # ---------------------------------------------------------- reading stops at the end and when it fails
    def reading(self, ck):
        n = 0
        for name, v in RX.Panics(self.ctx).views(ck):
            evs = [ev for _, _, es in v.edges for ev in es]
            if not any(ev.k in ("read", "elem") for ev in evs):
                continue
            lines = {}
            for ev in evs:
                if ev.k == "elem" and ev.raw.a[1].op == "app" and ev.raw.a[1].a[0] == "lines":
                    lines[ev.a[0]] = ev.a[1]
            n += len({ev.a[0] for ev in evs if ev.k == "read"}) + len(lines)
            iters = {ev.a[0] for ev in evs if ev.k == "elem"}

            def interrupted(ev):
                return any(is_c(y, "str") and "Interrupted" in str(y.a[1]) or "Interrupted" in str(z) for a, z in ev.raw.facts.items() for y in a.subs)

            # open: reads whose end has not been looked for; over: readers and iterations that have ended
            def step(m, ev):
                open_, over = m
                if ev.k == "read":
                    r = ev.a[0]
                    for o, b in over:
                        if o is r and not interrupted(ev):
                            return "%s is read again after %s" % (show(r), b)
                    for o, x in open_:
                        if o is r and ev.raw.a[1] is not None:
                            return "%s is read again without having looked whether its end was reached" % show(r)
                    return open_ | {(r, ev.a[1])}, over
                if ev.k == "assume" and ev.a[0].__class__ is T:
                    a, x = ev.a
                    for o, y in open_:
                        if a is t("empty", y) or a.op == "eq" and any(z.op == "len" and z.a[0] is y for z in a.a):
                            if x is True and a.op == "empty":
                                return open_ - {(o, y)}, over | {(o, "its end")}
                            return open_ - {(o, y)}, over
                    if a.op == "var" and x == frozenset(("Err",)) and a.a[0].op == "el" and any(a.a[0].a[0] is s for s in lines.values()):
                        return open_, over | {(a.a[0].a[0], "a failed read")}
                    return m
                if ev.k == "ioerr":
                    x = ev.a[1]
                    for o, y in open_:
                        if y in x.subs:
                            return open_ - {(o, y)}, over | {(o, "a failed read")}
                    return m
                if ev.k == "elem" and ev.a[0] in lines:
                    for o, b in over:
                        if o is ev.a[1] and not interrupted(ev):
                            return "the lines of a file are read on after %s: a file that keeps failing is read forever" % b
                    return m
                if ev.k == "begin":
                    return open_, frozenset(p for p in over if p[0] != ev.a[0])
                if ev.k == "iterend":
                    if (ev.a[0], "end") in over:
                        return "an iteration is asked for more after it has ended"
                    return m
                return m

            walk(ck, v, "%s: reading stops at the end of the file and after a failed read" % name, (frozenset(), frozenset()), step)
        if not n:
            ck.notes.append("no reading loop was found")
        ck.cover["readers"] = n

    # ---------------------------------------------------------- loops
    def loops(self, ck):
        n = open_ = 0
        for p, b in sorted(self.ctx.prog.by_path.items()):
            if any(s in p for s in RX.SKIP):
                continue
            for h in sorted(b.heads):
                n += 1
                body = b.loop(h)
                calls = {}
                for i in body:
                    tm = b.blocks[i]["t"]
                    if tm[0] == "call" and "path" in tm[1]:
                        calls[i] = (pm.strip_generics(tm[1].get("res") or tm[1]["path"]), tm)
                loc = (b.path, b.file, self.line(b, body))
                exits = {y for i in body for y in b.succ(i) if y not in body and not b.blocks[y]["c"]}
                if not exits:
                    ck.fail("loops", "a loop has no way out", loc)
                    continue
                drive = {i for i, (c, tm) in calls.items() if c.split("::")[-1] in DRIVERS}
                counters = {g[1] for i, g in b.counters.items() if i in body}
                drive |= {i for i in body for s in b.blocks[i]["s"] if s[0] == "=" and not s[1][1] and s[1][0] in counters}
                if self.cyclic(b, h, body - drive):
                    if counters and self.idle(b, h, body - drive):
                        ck.fail("loops", "a round of the loop need not move on to the next item: it then repeats forever", loc)
                    elif not self.changing(b, body):
                        ck.fail("loops", "nothing that a loop's condition depends on changes in it", loc)
                    else:
                        open_ += 1
                        ck.notes.append("not decided: whether the loop at %s:%d ends" % (loc[1], loc[2]))
                    continue
                for i in drive:
                    if i not in calls:
                        continue
                    c, tm = calls[i]
                    s = "::" + " ".join(tys(x) for x in (tm[1].get("substs") or tm[1].get("args") or []))
                    full = str(tm[1].get("res") or "") + str(tm[1]["path"]) + s
                    if c.split("::")[-1] == "next" and any(e in full for e in ENDLESS) and not any(e in full for e in BOUND) and len(exits) == 1:
                        ck.fail("loops", "a loop runs over an iterator that never ends", loc)
                    if c.split("::")[-1].startswith("pop"):
                        self.worklist(ck, b, calls, loc)
        ck.cover["loops"] = n
        ck.cover["loops_undecided"] = open_

    def line(self, b, body):
        for i in sorted(body):
            for s in b.blocks[i]["s"]:
                if len(s) > 3 and isinstance(s[3], int):
                    return s[3]
            tm = b.blocks[i]["t"]
            sp = tm[-1]
            if isinstance(sp, int) and sp > 0:
                return sp
        return b.line

    def cyclic(self, b, h, rest):
        """the loop can go round through these blocks only"""
        if h not in rest:
            return False
        seen, st = set(), [y for y in b.succ(h) if y in rest]
        while st:
            x = st.pop()
            if x == h:
                return True
            if x not in seen:
                seen.add(x)
                st.extend(y for y in b.succ(x) if y in rest)
        return False

    def idle(self, b, h, rest):
        """a round through these blocks leaves everything the next round looks at as it was"""
        def reach(start, nxt):
            seen, st = set(), list(start)
            while st:
                x = st.pop()
                if x in rest and x not in seen:
                    seen.add(x)
                    if x != h:
                        st.extend(nxt(x))
            return seen

        pre = {}
        for i in rest:
            for y in b.succ(i):
                pre.setdefault(y, []).append(i)
        on = (reach(b.succ(h), b.succ) & reach(pre.get(h, ()), lambda x: pre.get(x, ()))) | {h}
        kept = set(b.live[h]) | set(b.mutref)
        for i in on:
            for s in b.blocks[i]["s"]:
                if s[0] == "=" and (s[1][0] in kept or s[1][1] and any(str(x).startswith("*") or x == "deref" for x in s[1][1])):
                    return False
                if s[0] == "=" and s[2][0] in ("ref", "rawptr") and s[2][1] not in ("shared", "fake"):
                    return False
            tm = b.blocks[i]["t"]
            if tm[0] == "call":
                if tm[3][0] in kept:
                    return False
                if any(x[0] == "ref" and x[1] not in (0, False, "shared", "not") for x in tm[1].get("args") or []):
                    return False
        return True

    def changing(self, b, body):
        """some call or assignment in the loop can change what its exits look at"""
        for i in body:
            tm = b.blocks[i]["t"]
            if tm[0] == "call":
                return True
            for s in b.blocks[i]["s"]:
                if s[0] == "=" and s[2][0] == "bin" and str(s[2][1]).startswith(("Add", "Sub", "Mul", "Shr", "Shl", "Div")):
                    return True
        return False

    def worklist(self, ck, b, calls, loc):
        """a list that is worked off while linked items are put on it needs to know what it has seen"""
        names = [c.split("::")[-1] for c, _ in calls.values()]
        if not any(x in ("push", "push_back", "push_front", "extend", "append") for x in names):
            return
        if any(x in ("insert", "contains", "contains_key", "entry", "get", "any", "is_some", "replace") for x in names):
            return
        ty = " ".join(tys(l[0] if isinstance(l, (list, tuple)) and l and isinstance(l[0], (list, tuple)) else l) for l in b.locals)
        if any(x in ty for x in LINKED):
            ck.fail("loops", "linked items are put back on the list that is worked off, without remembering which were seen: a cycle never ends", loc)

    # ---------------------------------------------------------- recursion
    def recursion(self, ck):
        g = {}
        by = self.ctx.prog.by_path
        for p, b in by.items():
            out = g.setdefault(p.split("::{closure")[0], set())
            for i, bl in enumerate(b.blocks):
                tm = bl["t"]
                if tm[0] == "call" and "path" in tm[1]:
                    for c in (tm[1].get("res"), tm[1]["path"]):
                        # (running its own closure is not calling itself)
                        if c and c in by and not c.startswith(p + "::{closure"):
                            out.add(c.split("::{closure")[0])
        n = 0
        for p in sorted(g):
            seen, st = set(), list(g[p])
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st.extend(g.get(x, ()))
            if p not in seen or p not in by or any(s in p for s in RX.SKIP):
                continue
            n += 1
            b = by[p]
            ty = " ".join(tys(l) for l in b.locals[1:b.nargs + 1])
            if any(x in ty for x in LINKED) and not any(x in ty for x in SETS) and not any(x in ty for x in ("usize", "u32", "u64", "i32", "u8")):
                ck.fail("recursion", "it calls itself along references or relations without remembering which it has seen: a cycle never ends", (b.path, b.file, b.line))
            else:
                ck.notes.append("not decided: how deep %s calls itself" % p)
        ck.cover["recursive_functions"] = n
        ck.cover["functions"] = len(g)
