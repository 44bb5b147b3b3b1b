"""C12 conflict resolution: selection, maximality, re-test at firing time, and nothing-matches."""
import itertools

import numpy as np

from mc import prog, simrun
from mc.checks import c16
from mc.prog import pat, sp

ID = "C12"
LEVEL = "model_checking"
RULE = ("every program of a starter rule and two competing rules over the alphabet of conditions, utility assignments, "
        "and delays that let buffers change between selection and firing; plus every assignment of scripted noise "
        "draws; state = distinct (buffers, memory) reached")
ASSUMPTIONS = ["symbolic selection; ties may be broken either way",
               "utility noise is owned by the harness (numpy's logistic generator is replaced by a script)"]
CHUNK = 8

X = sp(var="x")
L = [
    (("=", "g", pat(s="b")),),
    (("=", "g", pat(s=X)),),
    (("=", "g", pat(s=sp(nv=["b"]))),),
    (("=", "g", pat(s=X)), ("=", "h", pat(s=X))),
    (("=", "h", pat(s="a")),),
    (("=", "g", pat(s=X)), ("=", "h", pat(s=sp(nvar=["x"])))),
    (("?", "h", (("buffer", "empty"),)),),
    (("?", "h", (("buffer", "full"),)),),
    (("?", "h", (("state", "busy"),)),),
    (("?", "h", (("state", "free"),)), ("=", "g", pat(s=X))),
    (("?", "retrieval", (("state", "busy"),)),),
    (("?", "retrieval", (("state", "error"),)),),
    (("?", "retrieval", (("state", "free"),)), ("?", "g", (("buffer", "full"),))),
    (("=", "retrieval", pat(t="c")),),
    (("=", "retrieval", pat(t=X)), ("=", "g", pat(t=X))),
]
STARTERS = [
    (("=", "g", pat(s="b")),),
    (("=", "g", pat(s="b")), ("+", "h", pat(s="a"))),
    (("=", "g", pat(s="b", t="c")), ("+", "retrieval", pat(t="c"))),
    (("=", "g", pat(s="b")), ("+", "retrieval", pat(t="zzz"))),
    (("~", "g"), ("+", "h", pat(s="a"))),
    (("+", "g", pat(s="b")), ("~", "h")),
    (("*", "g", pat(s="b")), ("+", "h", pat(s="b"))),
]
START = (("=", "g", pat(s="a")),)
DELAYS = [(0, 0), (0.03, 0.02), (0, 0.03), (0.07, 0.03), (0.02, 0.08)]
UTIL = [(0, 0, 0), (5, 1.61, 1.64), (5, 2, 1), (0, 2, 1), (0, -1, -2), (0, 3, 3)]
RHS = [(("=", "g", pat(s="d")),), (("~", "h"),), (("+", "retrieval", pat(t="c")),)]
DM = (((("t", "c"),), -1),)


def rhs_for(l, i):
    tested = {x[1] for x in l if x[0] == "="}
    if "g" in tested and i == 0:
        return RHS[0]
    return RHS[1] if i != 1 else RHS[2]


DRAWS = (-1000.0, -1.5, .3, 1000.0)


def bounds(tier):
    return {"conditions": len(L), "starters": len(STARTERS), "delays": DELAYS, "utilities": UTIL,
            "noise": "utility noise 1 and 0.3, 3 competing rules, every subset matching, every utility order, every assignment of the draws -1000, -1.5, 0.3, 1000",
            "rule firing times": [.05, .03, .1], "horizon": "10 rule firing times"}


def cases(tier):
    for mask in range(8):
        for util in itertools.product((0, 1, -2), repeat=3):
            yield ("noise", mask, util, 1 if (mask + sum(util)) % 2 else .3)
    for i, x in enumerate(c16.MIXED):
        if x[1] in (None, .6):
            yield ("compiled", i)
    us = range(len(UTIL)) if tier == "thorough" else (1, 2, 4)
    ds = range(len(DELAYS)) if tier == "thorough" else (0, 1, 3)
    for u in us:
        for st in range(len(STARTERS)):
            for d in ds:
                for a, b in itertools.combinations_with_replacement(range(len(L)), 2):
                    if tier == "quick":
                        yield ("prog", u, st, d, a, b, 0, 1)
                    else:
                        for ra, rb in ((0, 1), (1, 0), (1, 2), (2, 2)):
                            yield ("prog", u, st, d, a, b, ra, rb)


def noise(mask, util, scale, ctx):
    pats = [pat(s="a") if mask >> i & 1 else pat(s="b") for i in range(3)]
    rules = [("r%d" % i, (("=", "g", pats[i]),), (("=", "g", pat(s="c")),), {"utility": util[i]}) for i in range(3)]
    matching = {"r%d" % i for i in range(3) if mask >> i & 1}
    runs = []
    real = np.random.logistic
    for script in itertools.product(DRAWS, repeat=3):
        used = []

        def scripted(loc=0, scale=1, size=None, script=script, used=used):
            v = script[len(used)] if len(used) < len(script) else 0.0
            used.append(v)
            v = loc + (v if scale else 0.0)
            return v if size is None else np.full(size, v)
        m = prog.build(rules, init=(("g", (("s", "a"),)),), params={"subsymbolic": True, "utility_noise": scale}, mode="func")
        np.random.logistic = scripted
        try:
            events, sim, _ = simrun.simulate(m, 0.04)
        finally:
            np.random.logistic = real
        ctx.ran()
        ctx.step(len(events))
        sel = [e[2][len("RULE SELECTED: "):] for e in events if e[2].startswith("RULE SELECTED")]
        none = any(e[2] == "NO RULE FOUND" for e in events)
        if matching and (len(sel) != 1 or none) or not matching and (sel or not none):
            ctx.bad("noise-selection", f"matching {matching}, selected {sel}, events {events}")
            return
        if sel:
            if sel[0] not in matching:
                ctx.bad("noise-selection", f"matching {matching}, selected {sel}")
                return
            runs.append((script, int(sel[0][1])))
    # the harness does not know which draw goes to which rule: there must be one assignment that explains all runs
    idx = [int(r[1]) for r in matching]
    for order in itertools.permutations(range(3)):
        if all(util[k] + script[order[k]] >= max(util[j] + script[order[j]] for j in idx) for script, k in runs):
            break
    else:
        ctx.bad("noise-order", f"utilities {util}, matching {matching}: no assignment of the draws to the rules explains the selected rules {runs}")
    ctx.state((mask, util, tuple(sorted({k for _, k in runs}))))
    ctx.outcome(len({k for _, k in runs}))


def run_case(case, ctx):
    if case[0] == "compiled":       # rules that are added during the run take part in conflict resolution
        return c16.mixed(*c16.MIXED[case[1]], ctx)
    if case[0] == "noise":
        return noise(case[1], case[2], case[3], ctx)
    _, u, st, d, a, b, ra, rb = case
    util = UTIL[u]
    rl = [("r0", START, STARTERS[st], {"utility": util[0]}), ("r1", L[a], rhs_for(L[a], ra), {"utility": util[1]}),
          ("r2", L[b], rhs_for(L[b], rb), {"utility": util[2]})]
    goals = (("g", DELAYS[d][0]), ("h", DELAYS[d][1]))
    for rf in (.05,) if (st + a + b) % 3 else (.05, .03) if (u + d) % 2 else (.05, .1):
        errs, mon = prog.run(rl, goals, (("g", (("s", "a"),)),), DM, {"rule_firing": rf}, "func", 10 * rf, ctx)
        ctx.outcome((tuple(mon.fired[:4])))
        for sig, detail in errs:
            ctx.bad(sig, "\n".join(prog.rule_text(r) for r in rl) + f"\n delays {goals} utilities {util} rule firing {rf}: {detail}")


def final(total, tier):
    if len(total.outcomes) < 10:
        yield "vacuous", f"outcomes {dict(total.outcomes)}"
