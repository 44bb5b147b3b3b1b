"""C10 partial matching: every unmet constraint lowers activation by its similarity, and nothing else does."""
import itertools

from mc import prog, subsym
from mc.prog import pat, sp

ID = "C10"
LEVEL = "model_checking"
RULE = ("every request over two slots x every pair of chunks in memory x similarity and penalty settings; the chunk retrieved "
        "and the retrieval time determine the mismatch; state = distinct (request, memory, outcome)")
ASSUMPTIONS = ["explicit similarities are combined with the default penalty of 1 only", "no constraint on an empty value has an explicit similarity"]
CHUNK = 4

P, Q = (("v", "p"),), (("v", "q"),)
V = [None, "a", "b", P]
UNIV = [tuple(x for x in (("s", s), ("t", t)) if x[1] is not None) for s in V for t in V]
CH = [c for c in UNIV if c]
SPEC = [None, sp("a"), sp("b"), sp(P), sp(None), sp(nv=["a"]), sp(nv=[None]), sp(var="x"), sp(nvar=["x"]), sp(nv=["a", "b"])]
SIMS = [{}, {("a", "b"): -0.3}, {("a", P): -0.25, ("a", "b"): -1.7}, {("b", P): 0, ("a", "b"): -0.3}, {("a", "a"): -0.4, (P, P): -2.2}]
SETTINGS = [(0, {}), (1, {}), (2, {}), (3, {}), (0, {"mismatch_penalty": 2.5}), (0, {"mismatch_penalty": 0.3}), (0, {"retrieval_threshold": -1}), (2, {"retrieval_threshold": -1.2}), (4, {})]
BASE = {"baselevel_learning": False, "retrieval_threshold": -20, "latency_factor": 0.05, "partial_matching": True}


def bounds(tier):
    return {"request constraints per slot": len(SPEC), "chunks": len(CH), "memories": "all single chunks" + (" and pairs" if tier == "thorough" else ", and every pair under one setting each"),
            "histories of setting the similarities": "12, in turn", "settings": [repr((SIMS[i], p)) for i, p in SETTINGS]}


def cases(tier):
    for r in itertools.product(range(len(SPEC)), repeat=2):
        for c in range(len(CH)):
            yield (r, c, tier == "thorough")


def report(errs, rl, ctx, extra=""):
    for sig, detail in errs:
        ctx.bad(sig, "\n".join(prog.rule_text(r) for r in rl) + f"\n {extra}: {detail}")


def settings(sims, k):
    """Histories of setting similarities, the last value of every pair being the given one: directly, after other values in either order, twice, the other way round."""
    pre, flip = [(), ((0, -5),), ((1, -5),), ((0, -5), (1, -2.5)), ((1, -4), (0, 0)), ((0, None), (1, None))][k % 6], k // 6 % 2
    for (x, y), v in sims.items():
        for back, w in pre:
            yield (y, x, v if w is None else w) if back else (x, y, v if w is None else w)
    for (x, y), v in sims.items():
        yield (y, x, v) if flip else (x, y, v)


def one(r, mem, setting, ctx):
    sims, params = SIMS[setting[0]], setting[1]
    both = {}
    for (x, y), v in sims.items():
        both[(x, y)] = both[(y, x)] = v
    request = tuple((s, SPEC[i]) for s, i in zip("st", r) if SPEC[i] is not None)
    rl = [("go", (("=", "g", pat(s=sp(var="x"))), ("=", "k", pat(s="0"))), (("+", "retrieval", request), ("=", "k", pat(s="1"))))]
    p = dict(BASE)
    p.update(params)
    full = dict(subsym.DEFAULTS)
    full.update(p)
    m = prog.build(rl, (("g", 0), ("k", 0)), (("g", (("s", "a"),)), ("k", (("s", "0"),))), tuple((c, -1) for c in mem), dict(p, subsymbolic=True), "func")
    for x, y, v in settings(sims, sum(r) + len(mem) + sum(len(c) for c in mem)):
        m.set_similarities(subval(x), subval(y), v)
    sim = m.simulation(gui=False)
    mon = subsym.SubMonitor(m, rl, (("g", 0), ("k", 0)), None)
    mon.params, mon.similarities = full, both
    prog.simrun.simulate(m, 100.0, mon, sim=sim)
    errs = mon.finish(100.0)
    ctx.ran()
    ctx.step(mon.events)
    ctx.state((r, mem, mon.bufs["retrieval"]))
    ctx.outcome(mon.bufs["retrieval"])
    if not mon.fired and not errs:
        errs = [("not fired", "")]
    report(errs, rl, ctx, f"memory {mem}, similarities {sims}, {params}")
    return errs


def subval(x):
    return prog.simrun.mk(x, "mcinner") if isinstance(x, tuple) else x


def run_case(case, ctx):
    r, c, full = case
    for s in SETTINGS:
        if one(r, (CH[c],), s, ctx):
            return
    for d in range(c + 1, len(CH)):
        for k, s in enumerate(SETTINGS):
            if full or (c + d + sum(r)) % len(SETTINGS) == k:
                if one(r, (CH[c], CH[d]), s, ctx):
                    return


def final(total, tier):
    if len(total.outcomes) < 10:
        yield "vacuous", f"{total.outcomes}"
