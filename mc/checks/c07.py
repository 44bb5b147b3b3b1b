"""C07 symbolic retrieval: what is retrieved matches the request, something is retrieved iff something matches, on time."""
import itertools

from mc import prog
from mc.prog import pat, sp

ID = "C07"
LEVEL = "model_checking"
RULE = ("every request pattern over the constraint alphabet x every memory content (subset of a chunk universe) x goal "
        "contents binding the variables; plus every history of (request, harvest) pairs at successive cycles, in which a "
        "chunk harvested right now must not be retrieved; state = distinct (buffers, memory)")
ASSUMPTIONS = ["symbolic mode: which of several matching chunks is chosen is not determined",
               "a request variable bound to an empty slot may mean 'empty' or 'anything'"]
CHUNK = 4

U = [(("s", "a"),), (("s", "b"),), (("s", "a"), ("t", "b")), (("s", "b"), ("t", "b")), (("t", "b"),), (("s", "a"), ("t", "a")), ()]
SPEC = [None, sp("a"), sp(None), sp(var="x"), sp(var="y"), sp(nv=["a"]), sp(nv=[None]), sp(nvar=["x"]), sp("a", nv=["b"]), sp(nvar=["x", "y"]), sp(nv=["a", "b"])]
GOALS = [(("s", "a"), ("t", "b")), (("s", "b"), ("t", "a")), (("s", "a"), ("t", "a")), (("s", "a"),)]
HACT = [None, ("~", "h"), ("+", "h", pat(s="a")), ("+", "h", pat(s="b"))]
RACT = [None, ("+", "retrieval", pat(s="a")), ("+", "retrieval", pat(s="b")), ("+", "retrieval", ()), ("~", "retrieval")]


def bounds(tier):
    return {"slot constraints": len(SPEC), "chunk universe": len(U), "memories": 2 ** len(U) if tier == "thorough" else "all subsets of size <= 3",
            "goal contents": len(GOALS), "history length": 3 if tier == "quick" else 4, "rule firing times": [0.05, 0.1, 0.07]}


def cases(tier):
    n = len(U)
    for p in itertools.product(range(len(SPEC)), repeat=2):
        for size in range(0, 4 if tier == "quick" else n + 1):
            yield ("req", p, size)
    acts = [tuple(x for x in a if x) for a in itertools.product(HACT, RACT)]
    for rf in (0.05, 0.1, 0.07):
        if tier == "quick" and rf != 0.05:
            short = [a for a in acts if any(x[0] == "+" and x[1] == "retrieval" for x in a)]
            for h in itertools.product(short[:6], repeat=3):
                yield ("hist", h, rf, 0)
            continue
        for h in itertools.product(acts[:16] if tier == "quick" else acts, repeat=3 if tier == "quick" else 3):
            yield ("hist", h, rf, 0)
    # a long run: the same instant problem at every cycle
    for k in range(1, 30):
        for rf in (0.05, 0.1, 0.07, 0.033, 0.0501, 0.0333, 0.0004):
            yield ("late", k, rf, 0)
            yield ("late", k, rf, 1)


def report(errs, rl, ctx, extra=""):
    for sig, detail in errs:
        ctx.bad(sig, "\n".join(prog.rule_text(r) for r in rl) + f"\n {extra}: {detail}")


def run_case(case, ctx):
    if case[0] == "req":
        _, p, size = case
        pattern = tuple((s, SPEC[i]) for s, i in zip("st", p) if SPEC[i] is not None)
        rl = [("r", (("=", "g", pat(s=sp(var="x"), t=sp(var="y"))),), (("~", "g"), ("+", "retrieval", pattern)))]
        vars_used = {v for _, s in pattern for v in ([s[1]] if s[1] else []) + list(s[3])}
        for dm in itertools.combinations(U, size):
            for g in GOALS:
                if not vars_used and g != GOALS[0]:
                    continue
                errs, mon = prog.run(rl, (("g", 0),), (("g", g),), tuple((c, -1 - i) for i, c in enumerate(dm)), {}, "func", 0.2, ctx)
                ctx.outcome(mon.bufs["retrieval"])
                report(errs, rl, ctx, f"goal {g} memory {dm}")
                if len(mon.fired) != 1:
                    ctx.bad("not-fired", f"{mon.fired}")
    elif case[0] == "hist":
        _, hist, rf, _ = case
        rl = []
        for n, acts in enumerate(hist):
            rl.append(("r%d" % n, (("=", "k", pat(s=str(n))),), acts + (("=", "k", pat(s=str(n + 1))),)))
        errs, mon = prog.run(rl, (("g", 0), ("h", 0), ("k", 0)), (("h", (("s", "a"),)), ("k", (("s", "0"),))), (), {"rule_firing": rf}, "func",
                             round(rf * (len(hist) + 2) + 0.01, 4), ctx)
        ctx.outcome((mon.bufs["retrieval"], mon.harvests))
        report(errs, rl, ctx, f"rule firing {rf}")
    else:
        _, k, rf, gap = case
        rl = [("idle%d" % i, (("=", "k", pat(s=str(i))),), (("=", "k", pat(s=str(i + 1))),)) for i in range(k)]
        if gap:     # harvested one cycle before the request
            rl.append(("last", (("=", "k", pat(s=str(k))),), (("~", "h"), ("=", "k", pat(s=str(k + 1))))))
            rl.append(("ask", (("=", "k", pat(s=str(k + 1))),), (("+", "retrieval", pat(s="a")), ("=", "k", pat(s=str(k + 2))))))
        else:
            rl.append(("last", (("=", "k", pat(s=str(k))),), (("~", "h"), ("+", "retrieval", pat(s="a")), ("=", "k", pat(s=str(k + 1))))))
        rl.append(("after", (("=", "k", pat(s=str(k + 1))), ("?", "retrieval", (("state", "error"),))), (("+", "retrieval", pat(s="a")), ("=", "k", pat(s=str(k + 2))))))
        errs, mon = prog.run(rl, (("g", 0), ("h", 0), ("k", 0)), (("h", (("s", "a"),)), ("k", (("s", "0"),))), (), {"rule_firing": rf}, "func",
                             round(rf * (k + 5), 4), ctx)
        report(errs, rl, ctx, f"cycle {k} rule firing {rf}")


def final(total, tier):
    if len(total.outcomes) < 8:
        yield "vacuous", f"outcomes {dict(total.outcomes)}"
