"""C05 harvesting: every chunk that leaves a buffer by clearing or replacement is presented to memory once, at that time."""
import itertools

from mc import prog, subsym
from mc.prog import pat, sp

ID = "C05"
LEVEL = "model_checking"
RULE = ("every history of action sets (one set per production firing, driven by a counter goal) up to the length, for "
        "every initial content; after every instant the declarative memory, with all presentation times, equals the "
        "reference; state = distinct (buffers, memory)")
ASSUMPTIONS = ["one declarative memory shared by all buffers, goal buffers without delay or with delay shorter than a cycle"]
CHUNK = 8

G = [None, ("+", "g", pat(s="a")), ("~", "g"), ("=", "g", pat(t="c")), ("@", "g", pat(s="b")), ("*", "g", pat(t=None)), ("=", "g", ()), ("*", "g", ())]
H = [None, ("+", "h", pat(s="a")), ("~", "h"), ("=", "h", pat(t="c"))]
R = [None, ("+", "retrieval", pat(s="a")), ("~", "retrieval"), ("+", "retrieval", pat(s="zzz"))]
INITS = [(("g", (("s", "a"),)), ("h", (("s", "a"),))), (("g", (("s", "b"), ("t", "c"))),), ()]
DMS = [(((("s", "a"),), -1),), ()]
DELAYS = [(0, 0), (0.02, 0.12)]


SLOW = [("+", "retrieval", pat(s="a")), ("+", "retrieval", pat(t="c")), ("+", "retrieval", pat(s="zzz")), ("~", "retrieval"), ("=", "h", pat(t="c"))]
SLOWDM = (((("s", "a"),), -1), ((("t", "c"),), -3))


def action_sets(g, h, r):
    return [tuple(x for x in a if x) for a in itertools.product(g, h, r)]


def bounds(tier):
    return {"action sets": {"length 2": len(action_sets(G, H, R)), "length 3": len(action_sets(G[:4], H[:3:2], R[:3])) if tier == "quick" else len(action_sets(G[:5], H[:3], R[:3]))},
            "initial contents": len(INITS), "initial memories": len(DMS), "delays": DELAYS, "strict harvesting": [False, True],
            "slow retrievals": "every sequence of 3 actions on the retrieval buffer, each taken when the buffer state is free or at once, latency factor 0.05 and 0.3"}


def cases(tier):
    for h in itertools.product(range(len(SLOW)), repeat=3):
        for wait in (0, 1):
            for lf in (.05, .3):
                yield ("slow", h, wait, lf)
    two = action_sets(G, H, R)
    if tier == "quick":
        two_b = action_sets(G[:4], H[:3], R[:3])
        for a in two:
            for strict in (0, 1):
                yield ((a,), 0, 0, 0, strict)
        for a in two_b:
            for b in two_b:
                yield ((a, b), 0, 0, 0, 0)
        three = action_sets(G[:4], H[:3:2], R[:3])
        for h in itertools.product(three, repeat=3):
            yield (h, 0, 0, 0, 0)
        for a in two_b:
            for b in two_b:
                if len(a) == 2 and len(b) == 2:
                    yield ((a, b), 1, 1, 1, 1)
    else:
        for a in two:
            for b in two:
                for i in range(len(INITS)):
                    for d in (0, 1):
                        for strict in (0, 1):
                            yield ((a, b), i, 0, d, strict)
        three = action_sets(G[:5], H[:3], R[:3])
        for h in itertools.product(three, repeat=3):
            yield (h, 0, 1, 0, 0)


def run_case(case, ctx):
    if case[0] == "slow":
        return slow(*case[1:], ctx)
    hist, i, dmi, d, strict = case
    rl = []
    for n, acts in enumerate(hist):
        lhs = [("=", "k", pat(s=str(n)))]
        for buf in ("g", "h"):
            if any(a[0] in "=*" and a[1] == buf for a in acts):
                lhs.append(("=", buf, ()))
                if d and any(a[0] == "*" for a in acts):
                    return
        rl.append(("r%d" % n, tuple(lhs), acts + (("=", "k", pat(s=str(n + 1))),)))
    goals = (("g", DELAYS[d][0]), ("h", DELAYS[d][1]), ("k", 0))
    init = INITS[i] + (("k", (("s", "0"),)),)
    errs, mon = prog.run(rl, goals, init, DMS[dmi], {"strict_harvesting": bool(strict)}, "func", 0.05 * len(hist) + 0.23, ctx)
    ctx.outcome((len(mon.fired), mon.harvests))
    for sig, detail in errs:
        ctx.bad(sig, "\n".join(prog.rule_text(r) for r in rl) + f"\n init {init} delays {goals} strict {strict}: {detail}")


def slow(h, wait, lf, ctx):
    """Subsymbolic retrievals take time: the old chunk of the buffer leaves when the new one arrives."""
    rl = []
    for n, x in enumerate(h):
        lhs = [("=", "k", pat(s=str(n)))]
        if wait:
            lhs.append(("?", "retrieval", (("state", "free"),)))
        if SLOW[x][0] == "=":
            lhs.append(("=", "h", ()))
        rl.append(("r%d" % n, tuple(lhs), (SLOW[x], ("=", "k", pat(s=str(n + 1))))))
    goals = (("h", 0), ("k", 0))
    init = (("h", (("s", "b"),)), ("k", (("s", "0"),)))
    errs, mon = subsym.run(rl, goals, init, SLOWDM, {"latency_factor": lf, "retrieval_threshold": -3, "latency_exponent": .5}, 6.0, ctx, "func")
    ctx.outcome(("slow", len(mon.fired), mon.harvests))
    for sig, detail in errs:
        ctx.bad(sig, "\n".join(prog.rule_text(r) for r in rl) + f"\n slow retrievals, wait {wait}, latency factor {lf}: {detail}")


def final(total, tier):
    if len(total.outcomes) < 8:
        yield "vacuous", f"outcomes {dict(total.outcomes)}"
