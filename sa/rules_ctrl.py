"""Rules about the controller and the command line: jobs, outcomes, output files, configuration."""
from terms import *
from norm import el, F, els
from mon import *
from rules_trace import val, get, eqa, variant, some_of

S = t("sym", "self")
JOB = t("sym", "job")
CTRL = "controller::Controller::"
INL = (CTRL + "run_jobs", CTRL + "run_jobs_by_name", CTRL + "find_job")


def okv(x, name="Ok"):
    return t("fld", t("dc", x, name), "0")


def is_err(x):
    return variant(x, "Err")


def payload(x):
    return x.a[3] if len(x.a) > 3 else None


def deep_variant(x):
    """name of the innermost enum variant of a Result-like value, e.g. Ok{Success} -> ('Ok', 'Success')"""
    out = []
    while variant(x):
        out.append(x.a[2])
        x = x.a[3] if len(x.a) == 4 else None
        if x is None:
            break
    return tuple(out)


# ------------------------------------------------------------------ which jobs run
def jobs(ctx, ck):
    for entry, NAMES in ((CTRL + "run_jobs_by_name", t("sym", "job_names")), (CTRL + "run_default_jobs", F(S, "default_jobs"))):
        jobs_of(ck, ctx.view(entry, tuple(x for x in INL if x != entry)), entry.split("::")[-1], NAMES)


def jobs_of(ck, v, ename, NAMES):
    NAME = el(NAMES)
    MAP = F(S, "jobs")
    J = get(MAP, NAME)
    HAS = t("has", MAP, NAME)
    CE = t("var", F(S, "config_error"))

    def is_run(ev):
        return ev.k == "call" and short(ev.a[0]) == "run" and "Controller" in str(ev.a[0])

    def out(ev):
        if is_run(ev):
            a = ev.a[1]
            if a[0] is not S or a[1] is not J:
                return "%s: the job that is run is %s, not the one configured under the requested name" % (ename, show(a[1]))
            return True
        return False

    def exempt(ret, evs):
        return is_err(v.N.norm(ret))

    rule(ck, v, "%s: run of a requested job" % ename, {NAME}, out, YES, exempt=exempt, dup_ok=False)

    # walk: nothing runs before every name is known and the configuration is fine; outcomes
    runs = {}
    for _, _, evs in v.edges:
        for ev in evs:
            if is_run(ev):
                runs[ev.a[2]] = ev
    runvars = {t("var", r): r for r in runs}
    okvars = {t("var", okv(r)): r for r in runs}
    SRC = t("var", F(J, "set_return_code"))
    SRV = some_of(F(J, "set_return_code"))

    EMPTY_ = t("empty", NAMES)
    # state: (ran, config, named, outcome-so-far, pending-detected, error, src)
    def step(m, ev):
        ran, conf, unknown, bad, pend, err, empty, counts = m
        if ev.k == "assume":
            a, x = ev.a
            if a is CE:
                conf = "None" if x == frozenset(("None",)) else "Some"
            elif a is HAS and x is False:
                unknown = True
            elif a is EMPTY_:
                empty = x
            elif a in runvars:
                if x == frozenset(("Err",)):
                    err = True
            elif a in okvars:
                pend = x == frozenset(("ErrorsDetected",))
            elif a is SRC:
                counts = "None" if x == frozenset(("None",)) else counts
            elif a is SRV:
                counts = x
        elif ev.k in ("advance", "iterend") and pend is not None:
            bad, pend, counts = fold(bad, pend, counts)
        elif ev.k == "reorder" and ran == 0:
            pass
        elif is_run(ev):
            if conf != "None":
                return "%s: a job runs before the configuration is known to be valid" % ename
            if unknown:
                return "%s: a job runs although a requested name is unknown" % ename
            if err:
                return "%s: a further job runs although one could not be carried out" % ename
            ran = 1
            counts = None
        return (ran, conf, unknown, bad, pend, err, empty, counts)

    def fold(bad, pend, counts):
        if pend:
            if counts in (True, "None"):
                bad = "yes" if bad != "?" else bad
            elif counts is False:
                pass
            else:
                bad = "?" if bad == "no" else bad
        return bad, None, None

    def final(m, ret):
        ran, conf, unknown, bad, pend, err, empty, counts = m
        if pend is not None:
            bad, pend, counts = fold(bad, pend, counts)
        if ret is None:
            return None
        d = deep_variant(ret)
        if unknown:
            if d[:2] != ("Err", "UnknownJob"):
                return "%s: an unknown job name is not refused with the unknown-job error" % ename
            if payload(payload(ret)) is not NAME:
                return "%s: the unknown-job error does not name the unknown job" % ename
            if ran:
                return "%s: an unknown name is refused only after jobs were run" % ename
            return None
        if conf == "Some":
            if not is_err(ret) or payload(ret) is not some_of(F(S, "config_error")):
                return "%s: a configuration error is not returned" % ename
            return None
        if err:
            if not is_err(ret) or payload(ret) not in [okv(r, "Err") for r in runs]:
                return "%s: the error of a job is not returned" % ename
            return None
        if d and d[0] == "Ok":
            if conf is None:
                return "%s: jobs count as done although the configuration error was never looked at" % ename
            if ename == "run_default_jobs" and empty is not False and not ran:
                return "%s: having no default jobs counts as success" % ename
            want = {"no": "Success", "yes": "ErrorsDetected"}.get(bad)
            if d[1:] and d[1] not in ("Success", "ErrorsDetected"):
                return None
            if bad == "?":
                return "%s: a job's problems are counted without looking at its set_return_code option" % ename if d == ("Ok", "ErrorsDetected") else None
            if d != ("Ok", want):
                return "%s: the combined outcome is %s although %s" % (
                    ename, "/".join(d[1:]) or show(payload(ret))[:60], "a counting job detected problems" if bad == "yes" else "no counting job detected problems")
            return None
        if is_err(ret):
            if ename == "run_default_jobs" and empty is True and not ran:
                return None
            return "%s: an error is returned without cause" % ename
        return "%s: the outcome %s cannot be related to the jobs' outcomes" % (ename, show(ret)[:80])

    walk(ck, v, "%s: outcome of the requested jobs" % ename, (0, None, False, "no", None, False, None, None), step, final)
    for _, _, evs in v.edges:
        for ev in evs:
            if ev.k in ("reorder", "placed", "backward"):
                ck.fail("%s: order" % ename, "%s: the requested order is changed" % ename, ev.loc)


# ------------------------------------------------------------------ outcome of one job
class Source:
    """a place where problems are recorded: a list, or one list per element of a collection"""

    def __init__(self, name, *alts):
        self.name = name
        self.alts = alts  # each: (outer collection or None, list)


def sources():
    G_, TG = F(S, "graph"), F(S, "traced_graph")

    def art(g):
        return (F(g, "artefacts"), F(val(el(F(g, "artefacts"))), "errors"))

    rel = F(TG, "traced_relations")
    der = F(TG, "derived")
    arts = Source("the artefacts' errors", art(G_), art(TG))
    return {
        "Trace": [
            Source("tracing errors", (None, F(TG, "errors"))),
            arts,
            Source("uncovered requirements", (rel, F(el(rel), "uncovered"))),
            Source("derived requirements", (der, val(el(der)))),
        ],
        "Parse": [arts],
    }


def run_outcome(ctx, ck):
    v = ctx.view(CTRL + "run")
    src = sources()
    allsrc = {s.name: s for q in src.values() for s in q}
    Q = t("var", F(JOB, "query"))
    # each alternative is tracked on its own: unknown / clean / dirty / open rounds
    alts = []
    for n, s in allsrc.items():
        for a in s.alts:
            alts.append((n, a))

    def site_of(ev, coll):
        return ev.k in ("elem", "iterend") and ev.a[1] is coll

    # state: (query, per alternative: (status, round))  status: u(nknown) c(lean) d(irty) x(incomplete)
    def step(m, ev):
        q, al = m
        if ev.k == "assume":
            a, x = ev.a
            if a is Q:
                return (next(iter(x)) if len(x) == 1 else q, al)
        if ev.k not in ("assume", "elem", "iterend", "advance", "cut"):
            return m
        new = []
        for (n, (outer, lst)), (st, rnd) in zip(alts, al):
            if ev.k == "assume":
                a, x = ev.a
                if a.op == "empty" and a.a[0] is lst:
                    if x is False:
                        st = "d"
                    elif outer is None:
                        st = "c" if st == "u" else st
                    elif rnd == 1:
                        rnd = 2
                elif outer is not None and a.op == "empty" and a.a[0] is outer and x is True and st == "u":
                    st = "c"
            elif ev.k == "elem":
                if ev.a[1] is lst:
                    st = "d"
                elif outer is not None and ev.a[1] is outer:
                    if rnd == 1 and st == "u":
                        st = "x"
                    rnd = 1
            elif ev.k == "iterend":
                if ev.a[1] is lst:
                    if outer is None:
                        st = "c" if st == "u" else st
                    elif rnd == 1:
                        rnd = 2
                elif outer is not None and ev.a[1] is outer:
                    if rnd == 1 and st == "u":
                        st = "x"
                    if st == "u":
                        st = "c"
                    rnd = 0
            elif ev.k == "cut":
                if rnd and st == "u":
                    st = "x"
            new.append((st, rnd))
        return (q, tuple(new))

    def final(m, ret):
        q, al = m
        d = deep_variant(ret)
        if not d or d[0] != "Ok":
            return None
        if q is None:
            return "the outcome does not depend on the query of the job"
        stat = {}
        for (n, _), (st, rnd) in zip(alts, al):
            stat.setdefault(n, []).append(st)
        rel = [s.name for s in src[q]]
        dirty = [n for n in rel if "d" in stat[n]]
        if d == ("Ok", "Success"):
            for n in rel:
                if "d" in stat[n]:
                    return "a %s job counts as successful although there are %s" % (q, n)
                if "c" not in stat[n]:
                    return "a %s job counts as successful although not all %s were looked at" % (q, n)
            return None
        if d == ("Ok", "ErrorsDetected"):
            if not dirty:
                return "a %s job counts as failed although none of its problems was found" % q
            return None
        return "the outcome %s of a job cannot be decided" % show(ret)[:80]

    walk(ck, v, "outcome of a job", (None, tuple(("u", 0) for _ in alts)), step, final)


# ------------------------------------------------------------------ where a job writes, and what
OPENERS = ("std::fs::File::create", "std::fs::OpenOptions::open", "std::fs::File::options", "std::fs::write", "std::fs::File::create_new")
FILES = {"std::fs::" + x for x in (
    "File::create", "File::create_new", "File::open", "File::options", "OpenOptions::open", "write", "read", "read_to_string",
    "create_dir", "create_dir_all", "remove_file", "remove_dir", "remove_dir_all", "rename", "copy", "hard_link",
    "set_permissions", "File::set_len", "File::set_permissions", "soft_link", "DirBuilder::create")}


def target_term():
    return F(JOB, "file"), app("Path::join", F(S, "base_dir"), F(JOB, "file"))


def name_of(x):
    return str(x.a[1]) if x.op == "ext" else ""


def exts(w):
    return {y for y in subterms(w) if y.op == "ext"}


def buffered(w):
    """output handed to this writer may still sit in a buffer"""
    return any(y.op == "app" and y.a[0] == "BufWriter" or y.op == "ext" and name_of(y) == "std::io::stdout" for y in subterms(w))


def run_output(ctx, ck):
    """the job's output is what its query and format ask for, written to the place it configures, or an error"""
    v = ctx.view(CTRL + "run")
    JF, JB = target_term()
    DASH = eqa(C("str", "-"), JF)
    ABS = app("is_absolute", JF)
    Q = t("var", F(JOB, "query"))
    fmt = {"tracing": ("Trace", F(S, "traced_graph")), "requirements": ("Parse", F(S, "graph"))}

    def step(m, ev):
        q, dash, ab, opened, done, oks, bad, pend = m
        if ev.k == "assume":
            a, x = ev.a
            if a is Q and len(x) == 1:
                q = next(iter(x))
            elif a is DASH:
                dash = x
            elif a is ABS:
                ab = x
            elif a.op == "var" and a.a[0].op == "ext":
                if x == frozenset(("Err",)):
                    bad = bad | {a.a[0]}
                elif x == frozenset(("Ok",)):
                    oks = oks | {a.a[0]}
        elif ev.k == "ioerr":
            bad = bad | {ev.a[1]}
        elif ev.k == "flush":
            pend = None
        elif ev.k == "write":
            return "something else than the report is written to the job's output"
        elif ev.k == "call":
            nm = str(ev.a[0])
            if opens(nm):
                p = ev.a[1][-1] if nm.endswith("open") else ev.a[1][0]
                if p is JF:
                    if ab is not True:
                        return "a relative output path is not resolved against the base directory"
                elif p is not JB:
                    return "output is written to %s instead of the configured file" % show(p)[:80]
                if dash is True:
                    return "a file is created although the job asks for standard output"
                if dash is None:
                    return "a file is created without asking whether the job wants standard output"
                r = mode(nm, ev.a[1])
                if r:
                    return r
                opened = ev.a[2]
            elif short(nm) in fmt and nm.startswith("formatters::"):
                want, g = fmt[short(nm)]
                if q != want:
                    return "a %s job is answered by the %s report" % (q, short(nm))
                if done is not None:
                    return "the report is written twice"
                if ev.a[1][0] is not g:
                    return "the %s report is made from %s" % (short(nm), show(ev.a[1][0]))
                if ev.a[1][1] is not F(JOB, "format"):
                    return "the report is made in format %s instead of the job's" % show(ev.a[1][1])
                w = ev.a[1][2]
                st = exts(w)
                if dash is True:
                    if not any(name_of(y) == "std::io::stdout" for y in st):
                        return "a job for standard output is written somewhere else"
                elif dash is None:
                    return "the report is written without asking whether the job wants standard output"
                elif opened is None or opened not in st:
                    return "the report is not written to the job's file"
                done = ev.a[2]
                pend = w if buffered(w) else None
        else:
            return m
        return (q, dash, ab, opened, done, oks, bad, pend)

    def final(m, ret):
        q, dash, ab, opened, done, oks, bad, pend = m
        d = deep_variant(ret)
        if d and d[0] == "Ok":
            for f in bad:
                if name_of(f).endswith("create_dir_all") and opened in oks:
                    continue
                return "a job counts as done although %s failed" % (short(name_of(f)) if f.op == "ext" else "writing its output")
            if done is None:
                return "a job counts as done without a report"
            if done not in oks:
                return "a job counts as done although it was not checked whether its report was written"
            if pend is not None:
                return "a job counts as done although its report may still be buffered"
        elif is_err(ret):
            if not bad:
                return "a job fails although nothing went wrong"
        return None

    walk(ck, v, "output of a job", (None, None, None, None, None, frozenset(), frozenset(), None), step, final)


def opens(nm):
    return nm in ("std::fs::File::create", "std::fs::File::create_new", "std::fs::OpenOptions::open", "std::fs::write")


def mode(nm, args):
    """a job's file is created if missing and replaced if there"""
    if nm.endswith("create_new"):
        return "an existing output file is not replaced"
    if nm.endswith("OpenOptions::open"):
        s = args[0]
        got = {}
        for y in subterms(s):
            if y.op == "ext" and "OpenOptions::" in name_of(y) and len(y.a) > 3 and is_c(y.a[3], "bool"):
                got[short(name_of(y))] = y.a[3].a[1]
        if got.get("append") or got.get("create_new"):
            return "an existing output file is not replaced"
        if not got.get("truncate"):
            return "an existing output file is not truncated"
        if not got.get("create"):
            return "a missing output file is not created"
    return None


# ------------------------------------------------------------------ the command line
def cli(ctx, ck, what=("exit", "jobs", "config")):
    v = ctx.view("main")
    RUNS = ("run_default_jobs", "run_jobs_by_name", "run_jobs", "run")
    calls = [ev for _, _, evs in v.edges for ev in evs if ev.k == "call"]
    parse = {ev.a[2] for ev in calls if short(ev.a[0]) in ("parse", "parse_from", "try_parse") and "clap" in str(ev.a[0])}
    if len(parse) != 1:
        ck.fail("command line", "the command line is not parsed exactly once")
        return
    P = next(iter(parse))
    EMPTY_ = t("empty", F(P, "jobs"))
    ctrl = {ev.a[2]: ev for ev in calls if str(ev.a[0]).endswith("Controller::new")}
    if not ctrl:
        ck.fail("command line", "no controller is created")
        return

    def is_out(x):
        return x.op == "ext" and short(name_of(x)) in RUNS and "Controller" in name_of(x)

    def version_of(a):
        """(verdict if atom true) for an atom that compares the configured version with the supported one"""
        if a.op in ("lt", "le", "gt", "ge", "eq"):
            for i in (0, 1):
                x, y = a.a[i], a.a[1 - i]
                if x.op == "fld" and any(z.op == "fld" and z.a[1] == "version" for z in subterms(x)):
                    if y.op == "static" or is_c(y, "int") or y.op == "c" or y.op == "const":
                        return a.op, i, y
        return None

    # state: (empty jobs, version, cause of failure, outcome, reported, ran, how)
    def step(m, ev):
        empty, ver, cause, outc, rep, ran = m
        if ev.k == "assume":
            a, x = ev.a
            if a is EMPTY_:
                empty = x
            elif a.op == "var" and a.a[0].op == "fld" and a.a[0].a[1] == "version":
                if x == frozenset(("None",)):
                    ver = "ok"
            elif version_of(a):
                op, i, k = version_of(a)
                newer = None
                if op == "lt":
                    newer = (x is True) if i == 1 else None if x else None
                    if i == 0:  # version < K
                        newer = False if x else None
                elif op == "eq":
                    newer = False if x else (True if is_c(k) and k.a[1] == 0 else None)
                if newer is True:
                    cause = cause | {"version"}
                    ver = "newer"
                elif newer is False:
                    ver = "ok"
            elif a.op == "var" and isinstance(x, frozenset):
                y = a.a[0]
                if x == frozenset(("Err",)):
                    if y.op == "ext" and short(name_of(y)) in ("read", "read_to_string", "open", "read_to_end") or y.op == "app" and "from_s" in str(y.a[0]) or y.op == "ext":
                        cause = cause | {y}
                    elif y.op == "app":
                        cause = cause | {y}
                elif y.op == "fld" and y.a[0].op == "dc" and is_out(y.a[0].a[0]) and len(x) == 1:
                    outc = next(iter(x))
        elif ev.k == "ioerr":
            cause = cause | {ev.a[1]}
        elif ev.k == "eprint":
            if cause:
                rep = rep | {c for c in cause if c == "version" or contains_any(ev.a[0], c)}
            return (empty, ver, cause, outc, rep, ran)
        elif ev.k == "call":
            nm = str(ev.a[0])
            if nm.endswith("Controller::new"):
                if "config" in what:
                    cfg, base_ = ev.a[1][0], ev.a[1][1]
                    if base_ is not F(P, "base_dir"):
                        return "the base directory is %s instead of the one given" % show(base_)[:60]
                    if not any(y.op == "fld" and y.a[1] == "config_file" and y.a[0] is P for y in subterms(cfg)):
                        return "the configuration is not read from the given file"
                    if ver != "ok":
                        return "a configuration is used without checking that its version is supported"
                    if cause:
                        return "a configuration is used although it could not be read"
            elif is_out(ev.a[2]):
                if "jobs" in what:
                    if ev.a[1][0] not in ctrl:
                        return "jobs are run on something else than the configured controller"
                    if short(nm) == "run_default_jobs":
                        if empty is not True:
                            return "the default jobs are run although jobs were requested"
                    elif short(nm) == "run_jobs_by_name":
                        if empty is not False:
                            return "no job was requested, but the default jobs are not run"
                        if ev.a[1][1] is not F(P, "jobs"):
                            return "the jobs that are run are %s, not the requested ones" % show(ev.a[1][1])[:60]
                    else:
                        return "jobs are run in a way the rule does not know"
                    if ran:
                        return "jobs are run twice"
                ran = ev.a[2]
        elif ev.k == "exit":
            r = verdict(m, ev.a[0])
            if r:
                return r
            return m
        else:
            return m
        return (empty, ver, cause, outc, rep, ran)

    def code(x):
        return x.a[1] if x.__class__ is T and is_c(x) else x if isinstance(x, int) else None

    def verdict(m, n):
        if "exit" not in what:
            return None
        empty, ver, cause, outc, rep, ran = m
        n = code(n)
        if n is None:
            return "the exit status is not a known number"
        if cause:
            if n != 2:
                return "the exit status is %s although %s" % (n, "the configuration's version is unknown" if "version" in cause else "an error occurred")
            if not rep:
                return "an error ends the program without a message about it on standard error"
            return None
        if not ran:
            return "the program ends with status %s without running any job" % n
        if outc is None:
            return "the exit status is %s whatever the outcome of the jobs" % n
        want = {"Success": 0, "ErrorsDetected": 1}.get(outc)
        if n != want:
            return "the exit status is %s although the outcome of the jobs is %s" % (n, outc)
        return None

    def final(m, ret):
        if ret is None or ret is UNIT:
            return verdict(m, 0)
        c = [y for y in subterms(ret) if is_c(y) and isinstance(y.a[1], int)]
        if variant(ret, "ExitCode") or ret.op in ("app", "ext", "c"):
            nm = show(ret)
            if "SUCCESS" in nm:
                return verdict(m, 0)
            if "FAILURE" in nm:
                return verdict(m, 1)
            if len(c) == 1:
                return verdict(m, c[0].a[1])
        if deep_variant(ret)[:1] == ("Err",):
            return verdict(m, 1)
        if deep_variant(ret)[:1] == ("Ok",):
            return verdict(m, 0)
        return "main ends with %s, which is not a known exit status" % show(ret)[:60]

    walk(ck, v, "command line (%s)" % ", ".join(what), (None, None, frozenset(), None, frozenset(), None), step, final)


def contains_any(x, c):
    if c.__class__ is not T:
        return False
    return contains(x, c)
