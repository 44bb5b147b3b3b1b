"""C14 strict harvesting clears exactly the buffers that the fired rule tests and does not mention on its right-hand side."""
import itertools

from mc import prog
from mc.prog import pat, sp

ID = "C14"
LEVEL = "model_checking"
RULE = ("every one- or two-rule program over (subset of buffers tested or queried) x (action per buffer on the right-hand "
        "side), strict harvesting on and off; buffers and memory checked after every instant; state = distinct (buffers, memory)")
ASSUMPTIONS = ["variables named like buffers are decided by C30"]
CHUNK = 8

BUFS = ("g", "h", "k", "retrieval")
TESTS = {"g": [None, ("=", "g", pat(s=sp(var="x"))), ("?", "g", (("buffer", "full"),))],
         "h": [None, ("=", "h", ()), ("=", "h", pat(s="a"))],
         "k": [("=", "k", pat(s="0"))],
         "retrieval": [None]}
ACTS = {"g": [None, ("=", "g", pat(t="c")), ("+", "g", pat(s="b")), ("~", "g"), ("@", "g", pat(s="b")), ("?", "g", (("attended", "False"),))],
        "h": [None, ("=", "h", pat(t="c")), ("~", "h"), ("*", "h", pat(t="d")), ("+", "h", pat(s="d")), ("!", "h", "s")],
        "retrieval": [None, ("+", "retrieval", pat(s="m")), ("!", "retrieval", "s")],
        "k": [None, ("=", "k", pat(s="1"))]}
TESTS2 = [(("=", "retrieval", ()),), (("=", "retrieval", ()), ("=", "h", ())), (("=", "g", ()), ("?", "retrieval", (("buffer", "full"),))),
          (("=", "g", ()), ("=", "h", ())), (("=", "h", ()), ("=", "retrieval", ())),
          (("?", "k", (("buffer", "empty"),)), ("=", "g", ())), (("=", "k", pat(s="1")), ("=", "retrieval", pat(s="m")))]
ACTS2 = [(("~", "g"),), (("=", "k", pat(s="2")),), (("+", "k", pat(s="2")),), (("~", "retrieval"),), (("+", "retrieval", pat(s="a")),),
         (("=", "retrieval", pat(t="e")),), (("=", "h", pat(t="e")), ("~", "k")),
         (("?", "retrieval", (("recently_retrieved", "False"),)),), (("!", "retrieval", "s"), ("!", "k", "s"))]


def valid(l, r):
    tested = {x[1] for x in l if x[0] == "="}
    return all(not (a[0] in "=*" and a[1] not in tested) for a in r)


def first():
    for l in itertools.product(*(TESTS[b] for b in BUFS)):
        l = tuple(x for x in l if x)
        for r in itertools.product(*(ACTS[b] for b in ("g", "h", "retrieval", "k"))):
            r = tuple(x for x in r if x)
            if r and valid(l, r):
                yield l, r


def second():
    return [(l, r) for l in TESTS2 for r in ACTS2 if valid(l, r)]


def bounds(tier):
    return {"first rules": sum(1 for _ in first()), "second rules": len(second()), "strict": [True, False]}


def cases(tier):
    for l, r in first():
        yield ((l, r), None, 1)
        yield ((l, r), None, 0)
    sec = second()
    for i, (l, r) in enumerate(first()):
        if tier == "quick" and len(r) > 2:
            continue
        for s in sec:
            yield ((l, r), s, 1)


NAMES = [("r0", "r1"), ("g", "h"), ("r0", "r1"), ("retrieval", "k"), ("h", "r1"), ("k", "g")]


def run_case(case, ctx):
    a, b, strict = case
    names = NAMES[sum(map(len, (repr(a), repr(b)))) % len(NAMES)]      # a rule may be named like a buffer
    rl = [(names[0],) + a] + ([(names[1],) + b] if b else [])
    init = (("g", (("s", "a"),)), ("h", (("s", "a"), ("t", "f"))), ("k", (("s", "0"),)))
    errs, mon = prog.run(rl, (("g", 0), ("h", 0), ("k", 0)), init, (((("s", "m"),), -1),), {"strict_harvesting": bool(strict)}, "func", 0.17, ctx)
    ctx.outcome((strict, len(mon.fired), mon.harvests))
    for sig, detail in errs:
        ctx.bad(sig, "\n".join(prog.rule_text(r) for r in rl) + f"\n init {init} strict {strict}: {detail}")


def final(total, tier):
    if len(total.outcomes) < 8:
        yield "vacuous", f"outcomes {dict(total.outcomes)}"
