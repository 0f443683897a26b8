"""Loads the current tree of the repository as MIR and hands out analysed entry points."""
import hashlib
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(ROOT, ".cache"))
sys.path.insert(0, HERE)

from terms import *  # noqa
from prog import Program  # noqa
from engine import Engine, Budget  # noqa
from mon import View  # noqa


class Broken(Exception):
    """the analysis itself could not be carried out"""


class BuildError(Exception):
    """the tree does not compile"""


# entry point -> canonical argument names
ENTRIES = {
    "controller::Controller::run": ("self", "job", "job_name"),
    "formatters::requirements": ("graph", "format", "writer"),
    "formatters::tracing": ("traced_graph", "format", "writer"),
    "trace::trace": ("graph",),
    "controller::parse_from_config": ("config", "base_dir"),
    "parsers::markdown::parse": ("reader", "path"),
    "parsers::monoreq::parse": ("reader", "path"),
    "parsers::rust::parse": ("reader", "path"),
    "aggregator::AggregatedGraph::new": ("traced_graph",),
    "controller::Controller::run_jobs": ("self", "jobs", "job_names"),
    "controller::Controller::run_jobs_by_name": ("self", "job_names"),
    "controller::Controller::run_default_jobs": ("self",),
    "controller::Controller::find_job": ("self", "job"),
    "controller::Controller::new": ("config", "base_dir"),
    "models::Location::parse": ("s",),
}


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def driver():
    """build the MIR dumper if it is not there (or older than its source)"""
    exe = os.path.join(CACHE, "driver", "debug", "mirdump")
    src = os.path.join(ROOT, "driver", "src", "main.rs")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "--target-dir", os.path.join(CACHE, "driver")],
                 cwd=os.path.join(ROOT, "driver"))
    if rc != 0 or not os.path.exists(exe):
        raise Broken("the MIR dumper does not build:\n" + out[-3000:])
    os.utime(exe)
    return exe


def dump():
    """compile the current tree (type check + MIR) and dump it; always done afresh"""
    import glob
    import shutil

    exe = driver()
    rc, sysroot = sh(["rustc", "+nightly", "--print", "sysroot"])
    tgt = os.path.join(CACHE, "target")
    out = os.path.join(CACHE, "mir")
    for p in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "reqtrace-*")):
        shutil.rmtree(p, ignore_errors=True)
    shutil.rmtree(os.path.join(tgt, "debug", "build", "reqtrace"), ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = {
        "LD_LIBRARY_PATH": sysroot.strip() + "/lib",
        "CARGO_INCREMENTAL": "0",
        "RUSTC_WORKSPACE_WRAPPER": exe,
        "MIRDUMP_DIR": out,
        "RUSTFLAGS": "",
    }
    rc, log = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--bins", "--target-dir", tgt], env, REPO)
    files = [os.path.join(out, "reqtrace.lib.json"), os.path.join(out, "reqtrace.bin.json")]
    if rc != 0:
        raise BuildError(log[-3000:])
    for f in files:
        if not os.path.exists(f):
            raise Broken("no MIR dump was written (%s)\n%s" % (f, log[-2000:]))
    return files


class Ctx:
    def __init__(self, files=None):
        t0 = time.time()
        self.files = files or dump()
        self.prog = Program(*self.files)
        self.views = {}
        # methods called back by the syntax tree walk are entry points of their own
        self.visits = {}
        for p in self.prog.by_path:
            m = p.rsplit("::", 1)[-1]
            if p.startswith("<") and "syn::visit::Visit<" in p and m.startswith("visit_"):
                self.visits[m] = p
                ENTRIES[p] = ("self", "node")
        self.stats = {"build_s": round(time.time() - t0, 2)}

    def entry(self, path):
        b = self.prog.by_path.get(path)
        if b is None:
            for p, x in self.prog.by_path.items():
                import prog as pm

                if pm.strip_generics(p) == path:
                    b = x
        return b

    def view(self, path, inline=(), facts=None, tag=""):
        """`inline`: entry points that are followed instead of being kept as calls"""
        key = path if not inline else path + " (with %s)" % ", ".join(sorted(x.split("::")[-1] for x in inline))
        if tag:
            key += " [%s]" % tag
        v = self.views.get(key)
        if v is not None:
            return v
        if path == "main":
            v = self.main_view()
        else:
            b = self.entry(path)
            if b is None:
                raise Broken("entry point %s does not exist any more" % path)
            opaque = [p for p in ENTRIES if p != path and p not in inline]
            e = Engine(self.prog, opaque, 800000)
            names = ENTRIES[path]
            args = [t("sym", names[i] if i < len(names) else "arg%d" % i) for i in range(b.nargs)]
            try:
                e.run(b, args, facts)
            except Budget as x:
                raise Broken("%s: %s" % (path, x))
            v = View(e)
        self.views[key] = v
        return v

    def main_view(self):
        b = self.prog.by_path.get("binmain")
        if b is None:
            raise Broken("no main function")
        opaque = ["reqtrace::" + p for p in ENTRIES]
        e = Engine(self.prog, opaque, 200000, crate="bin")
        try:
            e.run(b, [])
        except Budget as x:
            raise Broken("main: %s" % x)
        return View(e)

    def analysed(self):
        out = {}
        for p, v in self.views.items():
            e = v.run
            out[p] = {
                "abstract_states": e.nodes,
                "transitions": len(e.edges),
                "exits": len(e.exits),
                "functions_inlined": sorted(e.inlined),
                "call_sites": e.callsites,
                "unmodelled_calls": dict(e.unknown),
            }
        return out


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    try:
        c = Ctx()
        print("analysed crate: %d functions, %.1f s" % (len(c.prog.by_path), c.stats["build_s"]))
    except BuildError as x:
        print("the tree does not compile:\n%s" % x)
        sys.exit(1)
