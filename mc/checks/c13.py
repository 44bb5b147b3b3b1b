"""C13 firing a rule has exactly the effects written on its right-hand side, at their times."""
import itertools

from mc import prog, simrun
from mc.simrun import actr
from mc.prog import pat, sp

ID = "C13"
LEVEL = "model_checking"
RULE = ("every program of one or two rules over the alphabet of left-hand sides x right-hand-side action sets, run from "
        "fixed initial contents; every event and every instant's buffers and memory are checked against the reference "
        "semantics; state = distinct (buffer contents, memory) reached")
ASSUMPTIONS = ["symbolic mode; goal buffers g, h and one retrieval buffer with one memory",
               "a buffer is only modified by rules that test it; delayed modification only of buffers no rule empties"]
CHUNK = 10

X = sp(var="x")
Y = sp(var="y")
L = [
    (("=", "g", pat(s="a")),),
    (("=", "g", pat(s="b")),),
    (("=", "g", pat(s=X)),),
    (("?", "g", (("buffer", "empty"),)),),
    (("=", "g", pat(s=sp(nv=["a"]))),),
    (("=", "g", pat(s=X)), ("=", "h", pat(s=X))),
    (("=", "g", pat(s=X, t=Y)),),
    (("=", "g", pat(s="b")), ("=", "retrieval", pat(t=Y))),
    (("?", "retrieval", (("state", "error"),)), ("=", "g", pat(s=X))),
    (("?", "retrieval", (("buffer", "empty"), ("state", "free"))), ("=", "g", pat(s=X))),
]
G = [None, ("=", "g", pat(s="b")), ("=", "g", pat(s="a", t="c")), ("+", "g", pat(s="b")), ("~", "g"), ("@", "g", pat(s="b")),
     ("*", "g", pat(t="c")), ("=", "g", pat(s=None, t=X)), ("=", "g", pat(t=X)), ("+", "g", pat(s=Y, t="c")), ("!", "g", "s"), ("!", "g", "t qq s"), ("=", "g", ())]
H = [None, ("+", "h", pat(s="a")), ("~", "h"), ("=", "h", pat(s="b")), ("@", "h", pat(t=X)), ("!", "h", "s t")]
R = [None, ("+", "retrieval", pat(s="a")), ("+", "retrieval", pat(t="c")), ("~", "retrieval"), ("+", "retrieval", pat(s=X)),
     ("+", "retrieval", pat(s=sp(nv=["a"])))]

# the name of a tested buffer is a variable that stands for the chunk in it
GV, HV = sp(var="g"), sp(var="h")
LB = [(("=", "g", pat(s="a")),), (("=", "g", pat(s=X)), ("=", "h", pat(s=X))), (("=", "h", ()), ("=", "g", pat(t=HV))), (("=", "g", pat(t=HV)), ("=", "h", ())),
      (("=", "h", ()), ("=", "g", pat(t=sp(nvar=["h"]))))]
GB = [None, ("=", "g", pat(t=HV)), ("=", "g", pat(s=None, t=GV)), ("+", "g", pat(s=HV)), ("@", "g", pat(t=GV)), ("*", "g", pat(t=HV))]
HB = [None, ("+", "h", pat(t=GV)), ("=", "h", pat(t=GV)), ("~", "h"), ("@", "h", pat(s=HV)), ("+", "h", pat(s="d"))]
RB = [None, ("+", "retrieval", pat(s=GV)), ("+", "retrieval", pat(t=sp(nvar=["h"])))]

DELAYS = [(0, 0), (0.2, 0.12), (0, 0.07)]
INIT = (("g", (("s", "a"),)), ("h", (("s", "a"),)))
DM = (((("t", "c"),), -1), ((("s", (("s", "a"),)),), -1), ((("s", "b"), ("t", "c")), -1))


def valid(l, r):
    tested = {i[1] for i in l if i[0] == "="}
    variables = tested | {s[1] for i in l if i[0] == "=" for _, s in i[2] if s[1]}
    for a in r:
        if a[0] in "=*" and a[1] not in tested:
            return False
        if len(a) > 2 and a[0] not in "!?":
            for _, s in a[2]:
                if any(v and v not in variables for v in (s[1],) + s[3]):
                    return False
    return True


def rules(maxact, gs=G, hs=H, rs=R, ls=L):
    out = []
    for l in ls:
        for r in itertools.product(gs, hs, rs):
            r = tuple(x for x in r if x)
            if 0 < len(r) <= maxact and valid(l, r):
                out.append((l, r))
    return out


def delayed_modify_unsafe(rs, delays, strict):
    for buf, d in zip(("g", "h"), delays):
        if d and any(a[0] == "*" and a[1] == buf for _, r in rs for a in r):
            if strict or any(a[0] in "~+@" and a[1] == buf for _, r in rs for a in r):
                return True
    return False


def space(tier):
    one = rules(3)
    for l, r in one:
        for d in range(len(DELAYS)):
            for strict in (False, True):
                yield ((l, r),), d, strict
    for l, r in rules(2 if tier == "quick" else 3, GB, HB, RB, LB):
        for d in range(len(DELAYS)):
            for strict in (False, True):
                if strict and any(v in ("g", "h") for i in l + r if len(i) > 2 and i[0] not in '!?' for _, (_, v, _, nv) in i[2] for v in (v,) + nv):
                    continue
                yield ((l, r), (LB[2], (("=", "g", pat(s="d")),))), d, strict
    small = rules(1) if tier == "quick" else rules(2)
    for a in small:
        for b in small:
            if a == b:
                continue
            for d in ((1,) if tier == "quick" else (0, 1, 2)):
                yield (a, b), d, False
    if tier == "quick":
        two = rules(2, G[:6], H[:3], R[:3], L[:5])
        for a in two:
            for b in rules(1, G[:5], H[:1], R[:1], L[:4]):
                yield (a, b), 0, False


def cases(tier):
    for rs, d, strict in space(tier):
        if delayed_modify_unsafe(rs, DELAYS[d], strict):
            continue
        yield rs, d, strict
    for typename in TYPES:
        yield ("types", typename)


TYPES = {"mct": "st", "mcu": "tu", "mcw": "u", "mct2": "st"}


def bounds(tier):
    return {"left-hand sides": len(L), "actions": [len(G), len(H), len(R)], "delays": DELAYS,
            "one-rule programs": "up to 3 actions, all delays, strict harvesting on and off",
            "two-rule programs": "1 action each (quick), up to 2 actions each (thorough)", "horizon": "0.42 s of simulated time"}


def run_types(typename, ctx):
    """The right-hand side may name another chunk type than the one of the chunk in the buffer: the same effects."""
    slots = TYPES[typename]
    for tested in TYPES:
        for op in "=*+@":
            for vals in itertools.product((None, "c", "=x"), repeat=len(slots)):
                given = {s: v for s, v in zip(slots, vals) if v is not None}
                for init in ({"s": "a"}, {"s": "a", "t": "b"}):
                    for delay in (0, 0.04):
                        for t in TYPES:
                            actr.chunktype(t, ", ".join(TYPES[t]))
                        m = actr.ACTRModel()
                        g = m.set_goal("g", delay)
                        g.add(actr.chunks.Chunk("mct", **init))
                        bind = {"s": "=x"} if "s" in TYPES[tested] else {}
                        if "=x" in vals and not bind:
                            continue
                        m.set_productions(simrun.frule("r1", {"=g": (tested, bind)}, {op + "g": (typename, given)}))
                        want = dict(init) if op in "=*" else {}
                        want.update({k: init["s"] if v == "=x" else v for k, v in given.items()})
                        fired = []

                        def on(ev):
                            if "RULE FIRED" in ev[2]:
                                fired.append(ev[0])
                        until = 0.095
                        simrun.simulate(m, until, on)
                        ctx.ran()
                        ctx.step()
                        got = dict(simrun.content(g) or ())
                        ctx.state(("types", tested, op, typename, tuple(sorted(got.items()))))
                        if len(fired) != 1:
                            ctx.bad("types-fired", f"rule testing {tested} fired {len(fired)} times on {init}")
                        elif got != want:
                            ctx.bad("types", f"{init} tested as {tested}, then {op}g> isa {typename} {given} (delay {delay}): holds {got}, expected {want}")


def run_case(case, ctx):
    if case[0] == "types":
        return run_types(case[1], ctx)
    rs, d, strict = case
    rl = [("r%d" % i,) + r for i, r in enumerate(rs)]
    goals = (("g", DELAYS[d][0]), ("h", DELAYS[d][1]))
    errs, mon = prog.run(rl, goals, INIT, DM, {"strict_harvesting": strict}, "func", 0.42, ctx)
    ctx.outcome((len(mon.fired), mon.harvests))
    for sig, detail in errs:
        ctx.bad(sig, "\n".join(prog.rule_text(r) for r in rl) + f"\n delays {goals} strict {strict}: {detail}")


def final(total, tier):
    if len(total.outcomes) < 10:
        yield "vacuous", f"outcomes {dict(total.outcomes)}"
