#!/usr/bin/env python3
"""check.py <property> [...]: decide properties on the current tree.

exit 0: held on everything analysed; exit 1: VIOLATION line(s); other exits: the check itself failed."""
import json
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import run as R  # noqa
from mon import Check  # noqa
import props  # noqa

EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
KNOWN = os.path.join(ROOT, "known-findings.txt")


LIMIT_S = int(os.environ.get("VERIF_LIMIT_S", "600"))
LIMIT_MEM = 14 << 30


class TimeUp(BaseException):
    pass


def on_alarm(_sig, _frame):
    raise TimeUp()


def known():
    """lines `finding: property=<id> key=<exact key> | <what fails>`"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: property="):
                rest = line[len("finding: property="):].strip()
                pid, rest = rest.split(" ", 1)
                key, _, what = rest.partition(" | ")
                key = key[len("key="):] if key.startswith("key=") else key
                out.setdefault(pid, {})[key.strip()] = what.strip()
    return out


def decide(ctx, pid, tier):
    t0 = time.time()
    ck = Check()
    p = props.TABLE[pid]
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(LIMIT_S)
    undecided = None
    try:
        p.fn(ctx, ck)
    except R.Broken as e:
        # the rules for this property cannot be applied to this tree: no answer, not a violation
        undecided = str(e).splitlines()[0]
    except TimeUp:
        # an unbounded analysis is no answer: report it as such, keep what was found before
        undecided = "time limit of %d s reached" % LIMIT_S
    except MemoryError:
        undecided = "memory limit reached"
    except Exception as e:
        # a construct the rules do not expect: no answer for the rest of this property (the self test runs with VERIF_STRICT)
        if os.environ.get("VERIF_STRICT"):
            raise
        traceback.print_exc()
        undecided = "internal error: %s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        signal.alarm(0)
    if undecided:
        ck.notes.append("UNDECIDED (rest of the rules): " + undecided)
        print("UNDECIDED property=%s %s" % (pid, undecided))
    seen = {}
    for b in ck.bad:
        seen.setdefault(b.key(), b)
    kn = known().get(pid, {})
    listed = {k: b for k, b in seen.items() if k in kn}
    new = {k: b for k, b in seen.items() if k not in kn}
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, "%s.violation.txt" % pid)
    if new:
        with open(replay, "w") as f:
            for b in new.values():
                f.write(b.text() + "\n")
                for s in b.path:
                    f.write("    " + str(s) + "\n")
                f.write("\n")
        for b in list(new.values())[:20]:
            print("  " + b.text())
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    elif os.path.exists(replay):
        os.remove(replay)
    cov = dict(ck.cover)
    cov["explanation"] = p.how
    cov["rules"] = ck.rules
    cov["entry_points"] = ctx.analysed()
    cov["notes"] = ck.notes
    cov["functions_in_crate"] = len(ctx.prog.by_path)
    cov["known_findings_seen"] = sorted(listed)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": cov,
        "assumptions": p.assume,
        "wall_s": round(time.time() - t0 + ctx.stats["build_s"], 2),
        "violations": len(new),
    }
    with open(os.path.join(EVID, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    return not new


def main(argv):
    files = None
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = []
    i = 0
    while i < len(argv):
        if argv[i] == "--dumped":
            files = [os.path.join(R.CACHE, "mir", "reqtrace.lib.json"), os.path.join(R.CACHE, "mir", "reqtrace.bin.json")]
        elif argv[i] == "--tier":
            i += 1
            tier = argv[i]
        elif argv[i] == "all":
            ids += list(props.TABLE)
        else:
            ids.append(argv[i])
        i += 1
    if not ids:
        print(__doc__)
        return 2
    resource.setrlimit(resource.RLIMIT_AS, (LIMIT_MEM, resource.RLIM_INFINITY))
    try:
        ctx = R.Ctx(files)
    except R.BuildError as e:
        print("the tree does not compile, nothing to analyse:\n" + str(e))
        return 2
    ok = True
    for pid in ids:
        n = len(ctx.views)
        try:
            r = decide(ctx, pid, tier)
        except Exception:
            traceback.print_exc()
            print("ERROR property=%s" % pid)
            ok = None
            continue
        print("%s %s" % (pid, "ok" if r else "VIOLATED"))
        if not r and ok is not None:
            ok = False
    return 2 if ok is None else 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
