"""
Runner shared by all checks.

A check module (mc/checks/cNN.py) provides
    ID, LEVEL, RULE, ASSUMPTIONS
    bounds(tier)  -> dict describing the bounded space (written to the evidence)
    cases(tier)   -> deterministic generator of picklable python literals, simplest first: the whole bounded space
    run_case(case, ctx)   executes the real code on that case and compares with the reference model
Every case of the space is executed: nothing is sampled.  A deviation is reported with ctx.bad(signature, detail).
The signature identifies input / call site, and is what known_findings.txt lists.
"""

import ast
import collections
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "30"))
MAX_PROBLEMS = 25


def digest(obj):
    """Stable 64-bit digest of the repr of an object (never depends on the hash seed)."""
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Collects what one case (or a chunk of cases) covered."""

    def __init__(self):
        self.states = set()
        self.outcomes = collections.Counter()
        self.transitions = 0
        self.execs = 0
        self.problems = []
        self.case = None
        self.counts = collections.Counter()

    def state(self, obj):
        self.states.add(digest(obj))

    def outcome(self, label):
        """Distinct observed outcome: used to see that the exploration is not vacuous."""
        self.outcomes[str(label)] += 1

    def step(self, n=1):
        self.transitions += n

    def ran(self, n=1):
        self.execs += n

    def count(self, what, n=1):
        self.counts[what] += n

    def bad(self, sig, detail):
        self.problems.append({"sig": str(sig), "case": repr(self.case), "detail": str(detail)[:2000]})


def _alarm(signum, frame):
    raise CaseTimeout()


_MOD = None


def _init(modname):
    global _MOD
    _MOD = importlib.import_module("mc.checks." + modname)
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def exec_case(mod, case, ctx):
    ctx.case = case
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    out = sys.stdout
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run_case(case, ctx)
    except CaseTimeout:
        ctx.bad("no-termination", f"the case did not finish within {CASE_TIMEOUT} s")
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # the case runs without error on a tree where the property holds
        tb = traceback.format_exc()
        ctx.bad("exception:" + type(e).__name__, tb[-1800:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = out


def _work(chunk):
    ctx = Ctx()
    for case in chunk:
        exec_case(_MOD, case, ctx)
        if len(ctx.problems) > MAX_PROBLEMS or any(p["sig"] == "no-termination" for p in ctx.problems):
            break
    return len(chunk), ctx.states, ctx.outcomes, ctx.transitions, ctx.execs, ctx.problems, ctx.counts


def chunks_of(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def load_known(pid):
    """Lines 'finding: property=<id> sig=<signature> :: <what fails>' of known_findings.txt."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                head, sep, what = line.strip().partition(" :: ")
                if sep and head.startswith(f"finding: property={pid} sig="):
                    known[head.split(" sig=", 1)[1]] = {"what": what}
    return known


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    limit = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = rest.pop(0)
        elif a == "--limit":
            limit = int(rest.pop(0))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    modname = pid.lower()
    t0 = time.time()

    if replay:
        _init(modname)
        with open(replay) as f:
            rec = json.load(f)
        ctx = Ctx()
        exec_case(_MOD, ast.literal_eval(rec["case"]), ctx)
        for p in ctx.problems:
            print("REPRODUCED", p["sig"], p["detail"])
        print(f"VIOLATION property={pid} replay={replay}" if ctx.problems else "not reproduced")
        return 1 if ctx.problems else 0

    multiprocessing.set_start_method("fork")
    mod = importlib.import_module("mc.checks." + modname)
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    csize = getattr(mod, "CHUNK", 20)
    known = load_known(pid)

    total = Ctx()
    ncases = 0
    samples = []
    exhausted = True
    problems = []
    seen_known = {}

    def gen():
        it = mod.cases(tier)
        if limit:
            it = itertools.islice(it, limit)
        for i, c in enumerate(it):
            if i < 3 or (i % 9973) == 0 and len(samples) < 8:
                samples.append(repr(c)[:300])
            yield c

    pool = multiprocessing.Pool(nproc, _init, (modname,))
    try:
        for n, st, oc, tr, ex, pr, cn in pool.imap_unordered(_work, chunks_of(gen(), csize)):
            ncases += n
            if len(total.states) < 20_000_000:
                total.states |= st
            total.outcomes.update(oc)
            total.transitions += tr
            total.execs += ex
            total.counts.update(cn)
            for p in pr:
                if p["sig"] in known:
                    seen_known.setdefault(p["sig"], []).append(p)
                else:
                    problems.append(p)
            if len(problems) > MAX_PROBLEMS or any(p["sig"] == "no-termination" for p in problems):
                exhausted = False
                break
    finally:
        pool.terminate()
        pool.join()

    if hasattr(mod, "final") and not problems and not limit:
        # vacuity guard and other whole-run conditions
        for sig, detail in mod.final(total, tier):
            problems.append({"sig": sig, "case": "None", "detail": detail})

    edir = os.path.join(VERIF, "evidence")
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    wall = time.time() - t0

    cov = {"exhaustive": bool(exhausted and not limit), "cases": ncases, "bounds": mod.bounds(tier),
           "samples": samples, "distinct_outcomes": len(total.outcomes),
           "outcome_histogram": dict(total.outcomes.most_common(40))}
    if total.counts:
        cov["counts"] = dict(total.counts)
    if mod.LEVEL == "model_checking":
        cov.update(states=len(total.states), transitions=total.transitions,
                   traces_validated_against_impl=total.execs)
        cov["rule"] = mod.RULE
    else:
        cov.update(evaluations=total.execs, distinct_nontrivial=len(total.states), rule=mod.RULE,
                   steps=total.transitions)
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": mod.LEVEL, "coverage": cov, "assumptions": list(mod.ASSUMPTIONS),
          "wall_s": round(wall, 3), "violations": len(problems)}
    tmp = os.path.join(edir, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(edir, pid + ".json"))

    for sig in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {known[sig]['what']} [{sig}; {len(seen_known[sig])} case(s)]")

    print(f"{pid} {tier}: cases={ncases} executions={total.execs} states={len(total.states)} "
          f"transitions={total.transitions} outcomes={len(total.outcomes)} wall={wall:.1f}s")
    if problems:
        problems.sort(key=lambda p: (len(p["case"]), p["case"]))
        shown = set()
        k = 0
        for p in problems:
            if p["sig"] in shown and k >= 3:
                continue
            shown.add(p["sig"])
            path = os.path.join(rdir, f"{pid}-{k}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "case": p["case"], "sig": p["sig"], "detail": p["detail"],
                           "how": f"cd /verif && ./check {pid} --replay {path}"}, f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {p['sig']}: case {p['case'][:400]}\n  {p['detail'][:900]}")
            k += 1
            if k >= 6:
                break
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
