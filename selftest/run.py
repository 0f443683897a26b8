#!/usr/bin/env python3
"""selftest/run.py [-j N] [pattern...]: run every check on small edits of scratch copies of the repository.

cases.py: MUTANTS (name, properties of which at least one must raise an alarm, edits) and
SAME (name, edits): behaviour-preserving edits on which every check must stay quiet."""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import cases
BASE = os.environ.get("SELFTEST_DIR", "/tmp/selftest")


def prepare(i):
    d = os.path.join(BASE, str(i))
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(d + "/cache/target"):
        shutil.rmtree(d + "/cache", ignore_errors=True)
        shutil.copytree(ROOT + "/.cache", d + "/cache", symlinks=True)
    return d


def one(slot, name, want, edits):
    d = prepare(slot)
    r = d + "/repo"
    shutil.rmtree(r, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    for f, old, new in edits:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            return name, want, "STALE(%d in %s)" % (s.count(old), f), ""
        open(p, "w").write(s.replace(old, new))
    env = dict(os.environ, VERIF_REPO=r, VERIF_CACHE=d + "/cache", VERIF_EVIDENCE=d + "/ev", MIRDUMP_KEEP="1", VERIF_STRICT="1")
    p = subprocess.run([ROOT + "/check"] + (sorted(want) if want else ["all"]), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = re.findall(r"^VIOLATION property=(\w+)", p.stdout, re.M)
    err = re.findall(r"^ERROR property=(\w+)", p.stdout, re.M)
    if p.returncode == 2 and not err:
        return name, want, "DOES NOT BUILD", p.stdout[-1500:]
    res = ",".join(bad) + ("".join(" ERROR:" + e for e in err))
    und = re.findall(r"^UNDECIDED property=(\w+)", p.stdout, re.M)
    if und:
        name += " (undecided: %s)" % ",".join(und)
    return name, want, res, p.stdout


def main():
    a = sys.argv[1:]
    n = 8
    if a[:1] == ["-j"]:
        n = int(a[1])
        a = a[2:]
    verbose = "-v" in a
    a = [x for x in a if x != "-v"]
    todo = [(x[0], set(x[1].split()), x[2]) for x in cases.MUTANTS] + [(x[0], None, x[1]) for x in cases.SAME]
    if a:
        todo = [x for x in todo if any(re.search(p, x[0]) for p in a)]
    import queue
    slots = queue.Queue()
    for i in range(n):
        slots.put(i)

    def go(x):
        s = slots.get()
        try:
            return one(s, *x)
        finally:
            slots.put(s)

    bad = 0
    with ThreadPoolExecutor(n) as ex:
        for name, want, res, out in ex.map(go, todo):
            got = set(res.split(",")) if res else set()
            ok = (not res) if want is None else bool(want & got)
            bad += not ok
            print("%-4s %-45s want=%-12s got=%s" % ("ok" if ok else "BAD", name, "quiet" if want is None else "/".join(sorted(want)), res), flush=True)
            if (not ok or verbose) and out:
                for l in [l for l in out.splitlines() if l.startswith("  ") or "Error" in l or "error" in l][:5]:
                    print("        " + l[:230])
    print("%d cases, %d not as expected" % (len(todo), bad))


main()
