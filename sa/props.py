"""Property id -> rules."""
from rules_trace import Trace
from rules_load import Load, Conf
import rules_ctrl as RC
import rules_fmt as RF
import rules_agg as RA
import rules_parse as RP
import rules_rust as RR
import rules_vals as RV
import rules_det as RD
import rules_panic as RX
import rules_end as RN

TABLE = {}


class P:
    def __init__(self, pid, technique, fns, assume):
        self.id, self.technique, self.fns, self.assume = pid, technique, fns, assume
        self.how = technique + "; rules: " + ", ".join(name_of(f) for f in fns)

    def fn(self, ctx, ck):
        for f in self.fns:
            f(ctx, ck)


def name_of(f):
    return getattr(f, "label", None) or f.__module__ + "." + f.__name__


BASE = [
    "rustc's MIR of the current tree is what is executed (nightly front end, default features)",
    "the semantics given to std, glob, regex, serde, syn and itertools calls in sa/models.py",
]


def prop(pid, technique, *fns, assume=()):
    TABLE[pid] = P(pid, technique, fns, BASE + list(assume))


def cached(cls):
    def g(ctx, ck):
        k = "_" + cls.__name__
        o = getattr(ctx, k, None)
        if o is None:
            o = cls(ctx)
            setattr(ctx, k, o)
        if o.problem and getattr(cls, "soft", False):
            ck.notes.append("not decided: " + o.problem)
            return None
        if o.problem:
            ck.fail("anchor", o.problem)
            return None
        return o

    return g


def meth(cls, name, *args):
    g = cached(cls)

    def f(ctx, ck):
        o = g(ctx, ck)
        if o is not None:
            getattr(o, name)(ck, *args)

    f.label = "%s.%s%s" % (cls.__name__, name, "(%s)" % ",".join(map(str, args)) if args else "")
    return f


def part(fn, *args, **kw):
    def f(ctx, ck):
        fn(ctx, ck, *args, **kw)

    f.label = fn.__name__ + str(kw or "")
    return f


TS = "abstract interpretation of MIR + typestate monitor over all abstract paths"
RM = "abstract interpretation of MIR + per-round dataflow rule (must/may output per symbolic loop round)"

prop("C01", TS, RC.jobs, RC.run_outcome, part(RC.cli, what=("exit", "config")))
prop("C02", TS, RC.jobs, part(RC.cli, what=("jobs", "config")))
prop("C03", TS, RC.run_outcome)
prop("C04", TS, RC.run_output, RF.dispatch)
prop("C05", TS, RC.run_output, part(RC.cli, what=("exit",)), RF.failures)
prop("C06", RM, meth(Trace, "coverage", "Downwards"))
prop("C07", RM, meth(Trace, "coverage", "Upwards"))
prop("C08", RM, meth(Trace, "uncovered"))
prop("C09", RM, meth(Trace, "unused"))
prop("C10", RM, meth(Trace, "derived"))
prop("C11", RM, meth(Trace, "dangling"))
prop("C12", RM, meth(Trace, "titles"), meth(Conf, "titles"))
prop("C13", RM, meth(Trace, "duplicates"), meth(Load, "duplicates"))
prop("C14", RM, RF.gnu, RV.error_text)
prop("C15", RM, RF.markdown_trace, RA.aggregate, RV.error_text)
prop("C16", RM, RF.json_trace, RF.json_listing, RV.json_types)
prop("C17", RM, RF.listing, RF.tags)
prop("C18", RM, meth(Load, "inputs"))
BI = "abstract interpretation of MIR + bisimulation of the parser with a reference reader on all abstract paths; exact equivalence check of the regex constants"

prop("C19", BI, meth(RP.Markdown, "report", "text"))
prop("C20", BI, meth(RP.Markdown, "report", "loc"), meth(RP.Mono, "report", "loc"), meth(RR.Rust, "report", "loc"))
prop("C21", TS, meth(RR.Rust, "report", "text"))
prop("C22", BI, meth(RP.Mono, "report", "text"))
prop("C25", TS, meth(Conf, "validation"), part(RC.cli, what=("config",)), RV.controller_text)
prop("C26", RM, meth(Conf, "artefacts"), meth(Conf, "roots"), meth(Conf, "scan"), meth(Conf, "carried"), meth(Trace, "carried"))
VT = "abstract interpretation of the MIR of every comparison, display and serialisation implementation of the type; per-path obligation on the terms produced"
prop("C27", VT, RV.ids)
prop("C28", VT + "; exact automata equivalence of the location pattern", RV.location_parse, RV.location_shown)
prop("C23", "abstract interpretation of MIR: every panicking construct is classified by what controls its precondition", meth(RX.Panics, "sites"), meth(RX.Panics, "relations"))
prop("C24", "abstract interpretation of MIR + order-taint monitor on all abstract paths; scan of every resolved call site and serialised field type", meth(RD.Det, "order"), meth(RD.Det, "fields"), meth(RD.Det, "sources"))
prop("C29", "abstract interpretation of MIR to find every regex constant a line is matched with + exact automata equivalence with the documented grammar", RP.grammar, meth(RP.Markdown, "report", "ids"), meth(RP.Mono, "report", "ids"))
prop("C31", "abstract interpretation of MIR (typestate of every reader on all abstract paths) + structural analysis of every natural loop and of the call graph", meth(RN.End, "reading"), meth(RN.End, "loops"), meth(RN.End, "recursion"))
