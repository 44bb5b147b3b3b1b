"""C16 production compilation: a compiled rule is the two rules in one."""
import itertools

from mc import simrun
from mc.simrun import actr, frule

ID = "C16"
LEVEL = "model_checking"
RULE = ("every pair of rules over the alphabets of tests and actions (goal with two slots; goal, second goal buffer and retrieval), learned from every content in which they fire one after the other, "
        "every chain of three rules, and every chain in which a rule stands several times; the compiled rule and the uncompiled rules are run on every content and have to do the same; utilities of re-created rules compared with a reference; "
        "state = distinct (pair, learned from, content)")
ASSUMPTIONS = ["the control slot k orders the rules", "after a retrieval the compiled rule is compared with the rules in a memory that holds only the chunk that was retrieved, and may be restricted to the values of the request",
               "what the rules do to memory in between is not part of the result"]
CHUNK = 20

actr.chunktype("gt", "k a b")
actr.chunktype("ht", "c d")
actr.chunktype("ft", "e f")

# ------------------------------------------------------------ goal with two slots
LA = [None, "x", "=v", "~x"]
LB = [None, "y", "=v", "=w", "~=v"]
RA = [None, "x", "y", "=v", "=w"]
RB = [None, "x", "=v", "=w"]


def bound_ok(tested, used):
    bound = {x for x in tested if x and x.startswith("=")}
    return all(x in bound for x in used if x and x.startswith("="))


GOAL = [t for t in itertools.product(LA, LB, RA, RB) if bound_ok(t[:2], t[2:]) and not (t[1] == "~=v" and t[0] != "=v")]
VALS = ["x", "y", None]
CGOAL = [(("0", a, b), None) for a in VALS for b in VALS]

# ------------------------------------------------------------ two buffers and retrieval
GA = [None, "x", "=v", "~x"]
HA = [None, ("=v", None), ("x", "=w"), ("~=v", "=w"), ("=w", "=v")]
GR = [("=", None), ("=", "x"), ("=", "=v"), ("=", "=w"), ("*", "=v"), ("+", "x"), ("+", "=v"), ("@", "=w"), ("+", None)]
HACT = [None, ("=", "=v", None), ("=", "y", "=w"), ("+", "x", None), ("@", None, "=v"), ("~",), ("*", "y", None)]
RET1 = [None, ("+", "x"), ("+", "=v")]
RET2 = [None, ("=", "=u"), ("=", "x")]


def two_ok(s):
    ga, ha, gr, hact, ret = s
    tested = [ga] + list(ha or ()) + ([ret[1]] if ret and ret[0] == "=" else [])
    if ha and ha[0] == "~=v" and "=v" not in tested or hact and hact[0] in "=*" and not ha:
        return False
    return bound_ok(tested, [gr[1]] + list(hact[1:] if hact else []) + ([ret[1]] if ret and ret[0] == "+" else []))


TWO1 = [s for s in itertools.product(GA, HA, GR, HACT, RET1) if two_ok(s)]
TWO2 = [s for s in itertools.product(GA, HA, GR + [("=", "=u")], HACT, RET2) if two_ok(s)]
CTWO = [(("0", a, None), (c, d)) for a in VALS for c in VALS for d in VALS] + [(("0", a, None), None) for a in VALS]
LEARN = [(("0", "x", None), ("x", "y")), (("0", "y", None), ("x", None)), (("0", "y", None), ("y", "y")), (("0", None, None), ("x", "x")), (("0", "x", None), None), (("0", "y", None), None)]
MEMORY = [(("e", "x"), ("f", "y")), (("e", "y"), ("f", "x"))]


# a chunk that the first rule puts in, or changes in, a buffer that the second rule tests and changes
PUT1 = [s for s in itertools.product([None, "=v"], [None, ("=v", None), ("x", "=w")], [("=", None)],
                                     [("+", "x", None), ("+", None, "y"), ("+", None, None), ("@", "x", None), ("@", None, "y"), ("@", None, None), ("+", "=v", None), ("@", "=v", None), ("*", None, "x"), ("=", "y", "x")], [None]) if two_ok(s)]
PUT2 = [s for s in itertools.product([None, "=v"], [("=v", None), ("=v", "=w"), ("x", None), (None, None), (None, "~x")], [("=", None), ("=", "=v")],
                                     [None, ("=", "y", None), ("=", None, "x"), ("=", None, "=v"), ("=", "=w", "=v"), ("=", None, None), ("*", "y", None), ("*", None, "=v"), ("@", "=v", None), ("~",)], [None]) if two_ok(s)]

# variables with the name of a buffer that the rule tests stand for the chunk in that buffer
NAME1 = [s for s in itertools.product([None, "=h", "~=h", "=v"], [None, ("=v", None), ("=g", None), (None, "y")], [("=", None), ("=", "=h"), ("=", "=v"), ("=", "=g")], [None, ("=", "=g", None), ("=", "y", None), ("+", None, "=g"), ("=", "=h", None), ("=", "=v", None)], [None])]
JOIN = ("=v", ("=v", None), ("=", None), None, None)      # the second rule demands that two slots hold the same
HX = (("c", "x"), ("d", "y"))
CNAME = [(("0", a, None), h) for a in ("x", HX, None) for h in (("x", "y"), ("y", "x"), (HX, "y"), ("x", None), None)]


def named(s):
    return any(x.strip("~") in ("=g", "=h") for x in [s[0]] + list(s[1] or ()) + list(s[2][1:]) + list((s[3] or ())[1:]) if x)


def name_ok(s):
    """All variables are bound in the rule; the buffers are tested."""
    bound = {"=g"} | ({"=h"} if s[1] else set()) | {x for x in [s[0]] + list(s[1] or ()) if x and x[0] == "="} - ({"=h"} if not s[1] else set())
    used = [s[0]] + list(s[1] or ()) + list(s[2][1:]) + list((s[3] or ())[1:])
    return all(x.strip("~") in bound for x in used if x and "=" in x) and not (s[3] and s[3][0] == "=" and not s[1])


NAME1 = [s for s in NAME1 if name_ok(s)]


def gsize(s):
    return sum(x is not None for x in s)


# ------------------------------------------------------------ several excluded values of the same slot
NEG = [t for t in itertools.product([None, "~x", "~y", "~x~y", "~=v", "~x~=v", "~=v~=w", "~=w"], [None, "=v"], [None, "=v", "=w"]) if all(x not in (t[0] or "") or x in t[1:] for x in ("=v", "=w"))]
CNEG = [(("0", a, b), (c, None)) for a in ("x", "y", "z", None) for b in ("x", "y", None) for c in ("x", "z")]


def neg_rule(name, k, k2, s):
    lhs = {"=g": ("gt", {x: y for x, y in (("k", k), ("a", s[0]), ("b", s[1])) if y})}
    if s[2]:
        lhs["=h"] = ("ht", {"c": s[2]})
    return frule(name, lhs, {"=g": ("gt", {"k": k2})})


# ------------------------------------------------------------ a compiled rule followed by one of its rules
AGAIN1 = [((None, None), None), (("=v", None), None), (("=v", "=w"), ("=w", "=v")), (("=w", None), ("x", "=w")), (("=v", "~=v"), (None, "=v"))]
AGAIN2 = [(t, a) for t in itertools.product([None, "x", "=v", "=w"], [None, "y", "=v", "=w", "~=v"]) for a in itertools.product([None, "x", "y", "=v", "=w"], repeat=2)
          if t != ("=v", None) and bound_ok(t, a) and not (t[1] == "~=v" and t[0] != "=v") and any(a)]


def again_rule(name, k, k2, s):
    rhs = {"=g": ("gt", {"k": k2})} if k2 else {}
    if s[1]:
        rhs["=h"] = ("ht", {x: y for x, y in zip("cd", s[1]) if y})
    lhs = {"=g": ("gt", {"k": k})}
    if any(s[0]) or s[1]:
        lhs["=h"] = ("ht", {x: y for x, y in zip("cd", s[0]) if y})
    return frule(name, lhs, rhs)


def again(i, j, order, ctx):
    """r1 and r2 are compiled, and then the compiled rule and r2 (r2 and r2's successor), with a rule that stands twice in the chain."""
    s, t = AGAIN1[i], AGAIN2[j]
    rules = [again_rule("r1", "0", "1", s), again_rule("r2", "1", None, t)]
    n = 2 + order
    names = ["r1"] + ["r2"] * n
    until = round(.05 * (n + 1) + .01, 4)
    ref = {c: run(rules, c, [], ctx, until=until)[1:3] for c in CTWO}
    done = set()
    for c in LEARN:
        if ref[c][0] != names:
            continue
        f, name = rules[0], "r1"
        for _ in range(n):
            m, fired, _, _ = run([f, rules[1]], c, [], ctx, until=.21, production_compilation=True)
            if f.__name__ + " and r2" not in m.productions:
                ctx.bad("again", f"{s, t}, {c}: {name} was not compiled with r2 after {fired}: {sorted(m.productions)}")
                return
            text = repr(m.productions[f.__name__ + " and r2"])
            f = m.productions[f.__name__ + " and r2"]["rule"]
            f.__name__ = "r2 first"          # the name of one rule may be a part of the name of the other
            name += " and r2"
        if text in done:
            continue
        done.add(text)
        for c2 in CTWO:
            ctx.state(("again", i, j, order, c, c2))
            fired, want = ref[c2]
            _, f2, got, _ = run([f], c2, [], ctx, until=until)
            if bool(f2) != (fired == names) or f2 and got != want:
                ctx.bad("again", f"{s, t}, {c}: {name} is {text}; in {c2} it fires {len(f2)} times and leaves {got}, the rules fire as {fired} and leave {want}")
                return
        ctx.outcome("again")


# ------------------------------------------------------------ the same rules compiled again, in other situations
SITUATIONS = [(c, mem) for c, mem in itertools.product([(("0", "x", None), ("x", "y")), (("0", "y", None), ("x", "x"))], [[(("e", "x"), ("f", "y")), (("e", "y"), ("f", "y"))], [(("e", "x"), ("f", "x")), (("e", "y"), ("f", None))]])]
HISTORIES = [h for n in (2, 3) for h in itertools.product(range(len(SITUATIONS)), repeat=n) if h[0] != h[1]]


def relearn(i, j, strict, ctx):
    """Every compiled rule of a model in which two rules are compiled several times is the rule that is compiled in that situation alone."""
    rules = [two_rule("r1", "0", "1", TWO1[i], strict), two_rule("r2", "1", "2", TWO2[j], strict)]
    behaviour = {}

    def does(name, rule):
        key = repr(rule["rule"]) and repr(rule)
        if key not in behaviour:
            behaviour[key] = tuple(run([rule["rule"]], c, [], ctx, strict, until=.06)[1:3] for c in CTWO)
            behaviour[key] = tuple((bool(f), res if f else None) for f, res in behaviour[key])
        return behaviour[key]

    def compiled(history):
        m = actr.ACTRModel(strict_harvesting=strict, production_compilation=True)
        g, h = m.goals["g"], m.set_goal("h")
        m.set_productions(*rules)
        for n, k in enumerate(history):
            content, mem = SITUATIONS[k]
            for b in (g, h, m.retrieval):
                b.clear()
            for c in list(m.decmem):
                del m.decmem[c]
            for c in mem:
                m.decmem.add(simrun.mk(dict(x for x in c if x[1]), "ft"), time=n - 1)
            g.add(simrun.mk(dict(zip("kab", content[0])), "gt"))
            h.add(simrun.mk(dict(zip("cd", content[1])), "ht"))
            for name in list(m.productions):
                if name not in ("r1", "r2"):
                    m.productions[name]["utility"] = -1          # the two rules fire again
            events, _, _ = simrun.simulate(m, n + .9, initial_time=n)
            ctx.ran()
            ctx.step(len(events))
        return [does(n, m.productions[n]) for n in m.productions if n not in ("r1", "r2")]
    alone = [compiled((k,)) for k in range(len(SITUATIONS))]
    for h in HISTORIES if len({x for a in alone for x in a}) > 1 else HISTORIES[:1]:
        ctx.state(("relearn", i, j, strict, h))
        got, want = compiled(h), [x for k in h for x in alone[k]]
        if set(got) != set(want):
            ctx.bad("compiled again", f"{TWO1[i], TWO2[j]}, strict harvesting {strict}, in the situations {[SITUATIONS[k] for k in h]}: {len(got)} compiled rules, which do {set(got) - set(want) or 'too little'}; missing: {set(want) - set(got)}")
            return
        ctx.outcome("compiled again" if len(set(want)) > 1 else "the same again")


def tsize(s):
    return sum(x is not None for x in s[0:1] + (s[1] or ()) + s[2][1:] + (s[3] or ())[1:]) + (s[3] is not None) + (s[4] is not None) + (s[2][0] != "=")


def bounds(tier):
    q = tier == "quick"
    return {"goal rules": len(GOAL), "pairs of goal rules": f"all with at most {3 if q else 5} constraints and actions", "two-buffer rules": [len(TWO1), len(TWO2)], "harvesting": "strict and not",
            "pairs of two-buffer rules": f"all with at most {3 if q else 4}", "chains of three goal rules": f"all with at most {2 if q else 3}", "contents": [len(CGOAL), len(CTWO)],
            "utilities": "3 x 3 x 4 rates, 12 firings", "unsafe pairs": len(UNSAFE), "pairs that exclude values of the same slot": f"{len(NEG)} x {len(NEG)}", "compiled rules followed by one of their rules": f"{len(AGAIN1)} x {len(AGAIN2)} rules", "queries": "every pair of 12 queries x 4 actions of the first rule x 5 situations"}


def cases(tier):
    for u in itertools.product((0, 2, 5), (1, 4), (.2, .5, 1, None)):
        yield ("cycle", u)
    for i in range(len(MIXED)):
        yield ("mixed", i)
    for i in range(len(UNSAFE)):
        yield ("unsafe", i)
    for q1, q2 in itertools.product(QUERY, QUERY):
        for req in (None, "manual", "h", "mod"):
            if not (q1 and q2 and q1[:2] == q2[:2] and q1[2] != q2[2]) and not (req == "manual" and q2 and q2[0] == req and q2[1:] != ("state", "busy")):
                yield ("query", q1, q2, req)
    for i, j in itertools.product(range(len(AGAIN1)), range(len(AGAIN2))):
        for order in ((0,) if i < 3 and (i or j % 2) and gsize(sum(AGAIN2[j], ())) < 4 else ()) if tier == "quick" else (0, 1):
            yield ("again", i, j, order)
    for (i, s), (j, t) in itertools.product(enumerate(PUT1), enumerate(PUT2)):
        if tier == "thorough" or tsize(s) + tsize(t) <= 5:
            for strict in (False, True) if tier == "thorough" else ((i + j) % 3 == 0,):
                yield ("put", i, j, strict)
    for (i, s), (j, t) in itertools.product(enumerate(NAME1), repeat=2):
        if (named(s) or named(t)) and tsize(s) + tsize(t) <= (7 if t == JOIN else 4 if tier == "quick" else 6):
            yield ("name", i, j)
    for s, t in itertools.product(NEG, NEG):
        if s[0] and t[0]:
            yield ("neg", s, t)
    for how in ("run", "step", "parts", "off", "same"):
        yield ("end", how)
    q = tier == "quick"
    lim = 3 if q else 5
    by = {}
    for p in itertools.product(range(len(GOAL)), repeat=2):
        n = gsize(GOAL[p[0]]) + gsize(GOAL[p[1]])
        if n <= lim:
            by.setdefault(n, []).append(("goal",) + p)
    lim = 3 if q else 4
    for i, s in enumerate(TWO1):
        for j, t in enumerate(TWO2):
            n = tsize(s) + tsize(t)
            if s[4] and t[4] and n <= (4 if q else 5):
                by.setdefault(n, []).append(("relearn", i, j, False))
                if not q:
                    by.setdefault(n, []).append(("relearn", i, j, True))
            if n <= lim and (s[4] is None) == (t[4] is None):
                by.setdefault(n, []).append(("two", i, j))
                by.setdefault(n, []).append(("strict", i, j))
    small = [i for i, s in enumerate(GOAL) if gsize(s) <= (2 if q else 3)]
    for p in itertools.product(small, repeat=3):
        n = sum(gsize(GOAL[i]) for i in p)
        if n <= (2 if q else 3):
            by.setdefault(n, []).append(("chain",) + p)
    for n in sorted(by):
        yield from by[n]


def goal_rule(name, k, k2, s):
    return frule(name, {"=g": ("gt", dict(filter(lambda p: p[1], (("k", k), ("a", s[0]), ("b", s[1])))))},
                 {"=g": ("gt", dict(filter(lambda p: p[1], (("k", k2), ("a", s[2]), ("b", s[3])))))})


def two_rule(name, k, k2, s, strict=False):
    ga, ha, gr, hact, ret = s

    def chunk(t, **kw):
        return (t, {x: y for x, y in kw.items() if y})
    lhs = {"=g": chunk("gt", k=k, a=ga)}
    rhs = {gr[0] + "g": chunk("gt", k=k2, a=gr[1])}
    if ha is not None:
        lhs["=h"] = chunk("ht", c=ha[0], d=ha[1])
    if hact:
        rhs[hact[0] + "h"] = None if hact[0] == "~" else chunk("ht", c=hact[1], d=hact[2])
    if ret and ret[0] == "+":
        rhs["+retrieval"] = ("ft", {"e": ret[1]})
    elif ret:
        lhs["=retrieval"] = ("ft", {"f": ret[1]})
        if not strict:
            rhs["~retrieval"] = None
    return frule(name, lhs, rhs)


def run(rules, content, memory, ctx, strict=False, until=5, **par):
    """Returns model, fired rules, contents of buffers, the first retrieved chunk."""
    m = actr.ACTRModel(strict_harvesting=strict, **par)
    h = m.set_goal("h")
    g = m.goals["g"]
    gc, hc = content
    g.add(simrun.mk(dict(zip("kab", gc)), "gt"))
    if hc is not None:
        h.add(simrun.mk(dict(zip("cd", hc)), "ht"))
    for c in memory:
        m.decmem.add(simrun.mk(c, "ft"), time=-1)
    m.set_productions(*rules)
    got = []

    def on_event(e):
        if e[2].startswith("RETRIEVED"):
            got.append(simrun.content(m.retrieval))
    events, _, _ = simrun.simulate(m, until, on_event)
    ctx.ran()
    ctx.step(len(events))
    return m, [x[12:] for t, mod, x in events if x.startswith("RULE FIRED")], tuple(simrun.content(b) for b in (g, h, m.retrieval)), got[0] if got else None


def pair(rules, names, contents, learn, memory, desc, ctx, strict=False):
    """Rules fire one after the other; every compiled rule learned is compared with them."""
    last = {"goal": "2", "chain": "3", "two": "2", "strict": "2", "neg": "2", "name": "2"}[desc[0]]
    stop = frule("stop", {"=g": ("gt", {"k": last})}, {"=g": ("gt", {"k": "9"})})
    done = {}
    seqs = {}

    def seq(c, mem):
        key = (c, tuple(mem))
        if key not in seqs:
            _, fired, res, got = run(rules, c, mem, ctx, strict)
            seqs[key] = (fired == names, res, got)
        return seqs[key]
    for c in learn:
        ok, res, got = seq(c, memory)
        if not ok:
            continue
        if len(rules) == 2:
            m, fired, res2, _ = run(rules + [stop], c, memory, ctx, strict, production_compilation=True)
            name = " and ".join(names)
        else:
            m, fired, _, _ = run(rules, c, memory, ctx, strict, production_compilation=True)
            f = m.productions[" and ".join(names[:2])]["rule"] if " and ".join(names[:2]) in m.productions else None
            if f is None:
                ctx.bad("not compiled", f"{desc}, {c}: the first two of {names} were not compiled, only {sorted(m.productions)}")
                return
            f.__name__ = "first"
            m, fired, _, _ = run([f, rules[2], stop], c, memory, ctx, strict, production_compilation=True)
            name = "first and " + names[2]
            if fired[:2] != ["first", names[2]]:
                ctx.bad("inapplicable", f"{desc}, {c}: the compiled rule of the first two rules of {names} and the third one fired as {fired}")
                return
        compiled = [n for n in m.productions if n not in names and n != "first" and not n.endswith("and stop") and n != "stop"]
        if compiled != [name]:
            if compiled or not blocked(desc) and desc[0] != "name":
                ctx.bad("not compiled", f"{desc}, {c}: after firing of {fired} the compiled rules are {compiled}, expected {name}")
                return
            ctx.outcome("blocked")
            continue
        if blocked(desc):
            ctx.bad("compiled", f"{desc}, {c}: both rules put a chunk in the same buffer, and {compiled} was compiled")
            return
        f = m.productions[name]["rule"]
        key = repr(m.productions[name])
        if key in done:
            continue
        done[key] = True
        mem = [got] if got else memory
        for c2 in contents:
            try:
                _, fc, rc, _ = run([f], c2, memory, ctx, strict)
            except actr.utilities.ACTRError as e:
                fc, rc = "error", str(e)
            ok2, r2, _ = seq(c2, mem)
            ctx.state((desc, c, c2))
            what = None
            if fc == "error":
                what = f"crashes: {rc}"
            elif fc and not ok2:
                what = "fires although the rules do not fire one after the other"
            elif fc and rc != r2:
                what = f"leaves {rc} instead of {r2}"
            elif not fc and ok2 and (c2 == c or not got):
                what = "does not fire although the rules do"
            if what:
                ctx.bad("compiled rule", f"{desc} learned from {c}: {key}; in {c2} it {what}")
                return
            ctx.outcome("fires" if fc else "does not fire")


def blocked(desc):
    """Both rules put a chunk in the same buffer."""
    return desc[0] in ("two", "strict") and (desc[1][2][0] == "+" and desc[2][2][0] == "+" or (desc[1][3] or " ")[0] == "+" and (desc[2][3] or " ")[0] == "+")


# ------------------------------------------------------------ pairs that must (not) be compiled
PRESS = {"+manual": ("_manual", {"cmd": "press_key", "key": "A"})}
PRESSV = {"+manual": ("_manual", {"cmd": "press_key", "key": "=v"})}
REQ = {"+retrieval": ("ft", {"e": "x"})}
REQF = {"+retrieval": ("ft", {"e": "zz"})}
UNSAFE = [  # lhs1, rhs1, lhs2, rhs2, compiled?, keys pressed by the compiled rule
    ({}, PRESS, {}, PRESS, False, None), ({}, PRESS, {}, {}, True, "A"), ({}, {}, {}, PRESS, True, "A"), ({"a": "=v"}, PRESSV, {}, {}, True, "B"), ({}, {}, {"a": "=v"}, PRESSV, True, "B"),
    ({}, PRESS, {"?manual": {"state": "busy"}}, {}, True, "A"), ({}, PRESS, {"?manual": {"state": "free"}}, {}, False, None), ({}, PRESS, {"?manual": {"preparation": "free"}}, {}, False, None),
    ({}, REQF, {"?retrieval": {"state": "error"}}, {}, False, None), ({}, REQ, {"=retrieval": ("ft", {})}, {}, False, None), ({}, REQ, {"=retrieval": ("ft", {})}, {"~retrieval": None}, True, ""),
    ({"?manual": {"state": "free"}}, {}, {}, PRESS, True, "A"), ({}, {}, {"?manual": {"state": "free"}}, PRESS, True, "A"),
]
LOOK = {"+visual_location": ("_visuallocation", {"value": "A"})}
SHIFT = {"+visual": ("_visual", {"cmd": "move_attention", "screen_pos": "=p"})}
P = {"a": "=p"}
UNSAFE += [  # the value A is at the position in a; keys are the contents of visual_location and visual that the compiled rule leaves
    ({}, LOOK, {}, LOOK, False, None), ({}, LOOK, {}, {}, True, "loc -"), ({}, {}, {}, LOOK, True, "loc -"), ({}, LOOK, {"=visual_location": ("_visuallocation", {})}, {"~visual_location": None}, False, None),
    ({}, LOOK, {"?visual_location": {"buffer": "full"}}, {}, False, None), ({}, LOOK, {"?visual_location": {"state": "free"}}, {}, False, None),
    (P, SHIFT, P, SHIFT, False, None), (P, SHIFT, {}, {}, True, "- A"), ({}, {}, P, SHIFT, True, "- A"), (P, SHIFT, {"=visual": ("_visual", {"value": "A"})}, {"=visual": ("_visual", {})}, False, None),
    (P, SHIFT, {"?visual": {"state": "free"}}, {}, False, None), (P, SHIFT, {"?visual": {"buffer": "full"}}, {}, False, None),
    (P, SHIFT, {}, LOOK, True, "loc A"), ({}, LOOK, P, SHIFT, True, "loc A"), ({"?visual": {"state": "free"}}, {}, P, SHIFT, True, "- A"), (P, SHIFT, {}, PRESS, True, "- A"),
]


def sides(k, lhs, rhs):
    left = {"=g": ("gt", {"k": str(k), **{s: v for s, v in lhs.items() if s == "a"}})}
    left.update({s: v for s, v in lhs.items() if s != "a"})
    right = {"=g": ("gt", {"k": str(k + 1)})}
    right.update(rhs)
    return left, right


def unsafe(i, ctx):
    l1, r1, l2, r2, comp, left = UNSAFE[i]
    sees = "visual" in repr(UNSAFE[i])

    def go(rules, n, **par):
        env = actr.Environment(focus_position=(0, 0)) if sees else None
        m = actr.ACTRModel(environment=env, emma_noise=False, automatic_visual_search=False, strict_harvesting=False, **par)
        if sees:
            m.visualBuffer("visual", "visual_location", m.decmem)
            m.visbuffers["visual"].stop_automatic_buffering()
        m.goal.add(actr.chunks.Chunk("gt", k="0", a=actr.chunks.Chunk("_visuallocation", screen_x="100", screen_y="100") if sees else "B"))
        m.decmem.add(simrun.mk(MEMORY[0], "ft"), time=-1)
        m.set_productions(*rules)
        events, _, _ = simrun.simulate(m, 5, **({"environment_process": env.environment_process, "stimuli": [{"o": {"text": "A", "position": (100, 100), "vis_delay": 2}}], "triggers": "", "times": 4} if sees else {}))
        ctx.ran()
        ctx.step(len(events))
        fired = [x[12:] for t, mod, x in events if x.startswith("RULE FIRED")]
        if sees:
            v, w = simrun.content(m.visbuffers["visual_location"]), simrun.content(m.visbuffers["visual"])
            res = ("loc" if v else "-") + " " + (dict(w)["value"] if w else "-")
        else:
            res = "".join(x[13:] for t, mod, x in events if x.startswith("KEY PRESSED: "))
        return m, fired, res, dict(simrun.content(m.goal))["k"]
    m, fired, _, _ = go([frule("r1", *sides(0, l1, r1)), frule("r2", *sides(1, l2, r2))], 2, production_compilation=True)
    ctx.state(("unsafe", i))
    if fired != ["r1", "r2"]:
        ctx.bad("unsafe", f"{UNSAFE[i]}: fired {fired}")
        return
    if ("r1 and r2" in m.productions) != comp:
        ctx.bad("unsafe", f"{UNSAFE[i]} {'was not' if comp else 'was'} compiled: {sorted(m.productions)}")
        return
    ctx.outcome("compiled" if comp else "blocked")
    if comp:
        _, fired, res, k = go([m.productions["r1 and r2"]["rule"]], 1)
        if len(fired) != 1 or res != left or k != "2":
            ctx.bad("unsafe", f"{UNSAFE[i]}: the compiled rule fired {len(fired)} times and did {res}, expected {left}, k = {k}")


QUERY = [None] + [("manual", q, v) for q in ("state", "preparation", "execution") for v in ("free", "busy")] + [("retrieval", "state", v) for v in ("free", "busy", "error")] + [("h", "buffer", v) for v in ("empty", "full")]
SITUATION = ["idle", "pressing", "retrieving", "failed", "full"]


def situation(what, rules, ctx, **par):
    """The starter makes a module busy, fail, or fills a buffer; returns the model and times at which the rules fire."""
    m = actr.ACTRModel(strict_harvesting=False, latency_factor=.4, retrieval_threshold=-1, **par)
    h = m.set_goal("h")
    m.goals["g"].add(simrun.mk({"k": "s"}, "gt"))
    if what == "full":
        h.add(simrun.mk({"c": "x"}, "ht"))
    m.decmem.add(simrun.mk(MEMORY[0], "ft"), time=0)
    rhs = {"=g": ("gt", {"k": "0"})}
    if what == "pressing":
        rhs.update(PRESS)
    elif what == "retrieving":
        rhs.update(REQ)
    elif what == "failed":
        rhs.update(REQF)
    m.set_productions(frule("start", {"=g": ("gt", {"k": "s"})}, rhs), *rules)
    events, _, _ = simrun.simulate(m, 3)
    ctx.ran()
    ctx.step(len(events))
    return m, [(x[12:], t) for t, mod, x in events if x.startswith("RULE FIRED") and x != "RULE FIRED: start"]


def query(q1, q2, req, ctx):
    """The compiled rule waits for what both rules query."""
    def sides2(k, *qs):
        lhs = {"=g": ("gt", {"k": str(k)})}
        for q in qs:
            if q:
                lhs.setdefault("?" + q[0], {})[q[1]] = q[2]
        return lhs
    rhs1 = {"=g": ("gt", {"k": "1"}), **({"=h": ("ht", {"c": "y"})} if req == "mod" else PRESS if req == "manual" else {"+h": ("ht", {"c": "y"})} if req == "h" else {})}
    first, second = sides2(0, q1), sides2(0, q1, None if q2 and q2[0] == req else q2)
    if req == "mod":
        first["=h"] = second["=h"] = ("ht", {"c": "x"})
    r1, r2 = frule("r1", first, rhs1), frule("r2", sides2(1, q2), {"=g": ("gt", {"k": "2"})})
    both = frule("r1 and r2", second, {"=g": ("gt", {"k": "2"})})
    for learn in SITUATION:
        m, fired = situation(learn, [r1, r2], ctx, production_compilation=True)
        if [f[0] for f in fired] != ["r1", "r2"]:
            continue
        new = [r for r in m.productions if r not in ("start", "start and r1", "r1", "r2")]
        if new != ["r1 and r2"]:
            ctx.bad("query", f"queries {q1}, {q2}, request of the first rule {req}: compiled {new}")
            return
        f = m.productions["r1 and r2"]["rule"]
        f.__name__ = "r1 and r2"
        for what in SITUATION:
            ctx.state((q1, q2, req, learn, what))
            obs = situation(what, [f], ctx)[1]
            want = situation(what, [both], ctx)[1]
            if obs != want:
                ctx.bad("query", f"queries {q1}, {q2}, request of the first rule {req}: the compiled rule fires {obs} in the situation '{what}', expected {want}")
                return
        ctx.outcome("query")


def cycle(u1, u2, alpha, ctx):
    """r1 and r2 fire in turn; utilities of the compiled rules after every firing."""
    m = actr.ACTRModel(production_compilation=True, utility_learning=alpha is not None, **({"utility_alpha": alpha} if alpha else {}))
    m.goal.add(simrun.mk({"k": "0", "a": "x"}, "gt"))
    m.set_productions(frule("r1", {"=g": ("gt", {"k": "0"})}, {"=g": ("gt", {"k": "1"})}, utility=u1 + 10), frule("r2", {"=g": ("gt", {"k": "1"})}, {"=g": ("gt", {"k": "0"})}, utility=u2 + 10))
    ref, n, bad, times = {}, 0, [], {}

    def on_event(e):
        nonlocal n
        t, mod, x = e
        if x.startswith("RULE CREATED") or x.startswith("RULE RE-CREATED"):
            times.setdefault(t, []).append(x)
        if x.startswith("RULE FIRED"):
            n += 1
            want = []
            if n > 2:
                name, first = ("r1 and r2", u1) if n % 2 else ("r2 and r1", u2)
                if name in ref:
                    want = ["RULE RE-CREATED: " + name]
                    if alpha:
                        ref[name] = round(ref[name] + alpha * (first + 10 - ref[name]), 4)
                else:
                    want = ["RULE CREATED: " + name]
                    ref[name] = 0
            obs = {r: m.productions[r]["utility"] for r in m.productions if r not in ("r1", "r2")}
            if times.get(t, []) != want or set(obs) != set(ref) or any(abs(obs[r] - ref[r]) > 1e-3 for r in ref):
                bad.append(f"firing {n} at {t}: {times.get(t)}, utilities {obs}, expected {want}, {ref}")
            ctx.state((u1, u2, alpha, n, repr(sorted(obs.items()))))
    events, _, _ = simrun.simulate(m, .63, on_event)
    ctx.ran()
    ctx.step(len(events))
    if alpha == 1:
        bad = [b for b in bad if int(b.split()[1]) <= 5]      # ties with the compiled rule afterwards
    elif n != 12:
        bad.append(f"{n} firings")
    if bad:
        ctx.bad("utility", f"utilities {u1 + 10, u2 + 10}, rate {alpha}: {bad[0]}")
    ctx.outcome("utility")


def mixed(u, alpha, rewards, ctx):
    """r1 and r2 (and r3) fire in turn, and the rules compiled from them as soon as their utility is maximal; all utilities after every firing."""
    names = ["r1", "r2", "r3"][:len(u)]
    n = len(u)
    m = actr.ACTRModel(production_compilation=True, utility_learning=alpha is not None, **({"utility_alpha": alpha} if alpha else {}))
    m.goal.add(simrun.mk({"k": "0"}, "gt"))
    rules = []
    for i, name in enumerate(names):
        f = frule(name, {"=g": ("gt", {"k": str(i)})}, {"=g": ("gt", {"k": str((i + 1) % n)})}, utility=u[i])
        if rewards[i] is not None:
            f = frule(name, {"=g": ("gt", {"k": str(i)})}, {"=g": ("gt", {"k": str((i + 1) % n)})}, utility=u[i], reward=rewards[i])
        rules.append(f)
    m.set_productions(*rules)
    util = dict(zip(names, map(float, u)))
    bad, fired, created, used, pending, selected = [], [], {}, [], None, None
    k = lambda name: names.index(name.split(" and ")[0])
    after = lambda name: (names.index(name.split(" and ")[-1]) + 1) % n

    def on_event(e):
        nonlocal selected, pending
        t, mod, x = e
        if mod != "PROCEDURAL" or bad:
            return
        now = after(fired[-1]) if fired else 0
        if x.startswith("RULE SELECTED: "):
            selected = x[len("RULE SELECTED: "):]
            best = max(v for r, v in util.items() if k(r) == now)
            if selected not in util or k(selected) != now or abs(util[selected] - best) > 1e-6:
                bad.append(f"at {t} {selected} is selected, utilities {util}, k is {now}")
            used.append((selected, t))
        elif x.startswith("RULE CREATED: ") or x.startswith("RULE RE-CREATED: "):
            created.setdefault(t, []).append(x)
        elif x.startswith("RULE FIRED: "):
            name = x[len("RULE FIRED: "):]
            if name in names and rewards[names.index(name)] is not None and alpha is not None:
                for r, ts in used:
                    util[r] = round(util[r] + alpha * (rewards[names.index(name)] - (t - ts) - util[r]), 4)
                used.clear()
            want = []
            if pending:
                new = pending[0] + " and " + pending[1]
                want = [("RULE RE-CREATED: " if new in util else "RULE CREATED: ") + new]
                if new in util and alpha is not None:
                    util[new] = round(util[new] + alpha * (util[pending[0]] - util[new]), 4)
                util.setdefault(new, 0.0)
            pending = (fired[-1], name) if fired and fired[-1] != name else None
            fired.append(name)
            got = {r: m.productions[r]["utility"] for r in m.productions}
            if created.get(t, []) != want or set(got) != set(util) or any(abs(got[r] - util[r]) > 1e-3 for r in util):
                bad.append(f"after firing {fired[-3:]} at {t}: {created.get(t)}, utilities {got}, expected {want}, {util}")
            util.update({r: v for r, v in got.items() if r in util})
            ctx.state((u, alpha, rewards, fired[-1], repr(sorted(got.items()))))
    events, _, _ = simrun.simulate(m, .73, on_event)
    ctx.ran()
    ctx.step(len(events))
    if len(fired) != 14:
        bad.append(f"{len(fired)} firings")
    if bad:
        ctx.bad("mixed", f"utilities {u}, rate {alpha}, rewards {rewards}: {bad[0]}")
    ctx.outcome(("mixed", any(" and " in x for x in fired)))


MIXED = [(u, alpha, r) for n in (2, 3) for u in itertools.product((-2, -.5, 1) if n == 2 else (-1, 2), repeat=n) for alpha in (None, .2, .6, 1)
         for r in ([(None,) * n] if alpha is None else [(None,) * n, (None,) * (n - 1) + (4,), (0,) + (None,) * (n - 1), (-3, 1) + (None,) * (n - 2)])]


def end(how, ctx):
    """The last pair is compiled when the simulation is over."""
    m = actr.ACTRModel(production_compilation=how != "off")
    m.goal.add(simrun.mk({"k": "0", "a": "x"}, "gt"))
    rules = [goal_rule("r1", "0", "1", (None, None, None, "y")), goal_rule("r2", "1", "2", ("=v", None, None, "=v"))]
    if how == "same":
        rules = [goal_rule("r1", None, None, ("x", None, "x", None))]
    m.set_productions(*rules)
    sim = m.simulation(gui=False, trace=False)
    if how == "step":
        try:
            for _ in range(100):
                sim.step()
        except Exception as e:
            if type(e).__name__ != "EmptySchedule":
                raise
    elif how == "parts":
        for t in (.02, .05, .07, .2, .3, 1):
            sim.run(t)
    else:
        sim.run(.5)
    ctx.ran()
    ctx.state(("end", how))
    want = {"off": {"r1", "r2"}, "same": {"r1"}}.get(how, {"r1", "r2", "r1 and r2"})
    if set(m.productions) != want:
        ctx.bad("end", f"after the end of the simulation ({how}) the rules are {sorted(m.productions)}, expected {sorted(want)}")
    ctx.outcome("end")


def run_case(case, ctx):
    kind = case[0]
    if kind == "mixed":
        mixed(*MIXED[case[1]], ctx)
    elif kind == "cycle":
        cycle(*case[1], ctx)
    elif kind == "unsafe":
        unsafe(case[1], ctx)
    elif kind == "query":
        query(*case[1:], ctx)
    elif kind == "relearn":
        relearn(*case[1:], ctx)
    elif kind == "again":
        again(*case[1:], ctx)
    elif kind == "neg":
        s, t = case[1:]
        pair([neg_rule("r1", "0", "1", s), neg_rule("r2", "1", "2", t)], ["r1", "r2"], CNEG, CNEG, [], case, ctx)
    elif kind == "put":
        s, t = PUT1[case[1]], PUT2[case[2]]
        pair([two_rule("r1", "0", "1", s, case[3]), two_rule("r2", "1", "2", t, case[3])], ["r1", "r2"], CTWO, LEARN, [], ("strict" if case[3] else "two", s, t), ctx, case[3])
    elif kind == "name":
        s, t = NAME1[case[1]], NAME1[case[2]]
        pair([two_rule("r1", "0", "1", s), two_rule("r2", "1", "2", t)], ["r1", "r2"], CNAME, CNAME, [], ("name", s, t), ctx)
    elif kind == "end":
        end(case[1], ctx)
    elif kind == "goal":
        s, t = GOAL[case[1]], GOAL[case[2]]
        pair([goal_rule("r1", "0", "1", s), goal_rule("r2", "1", "2", t)], ["r1", "r2"], CGOAL, CGOAL, [], ("goal", s, t), ctx)
    elif kind == "chain":
        ss = [GOAL[i] for i in case[1:]]
        pair([goal_rule(f"r{i + 1}", str(i), str(i + 1), s) for i, s in enumerate(ss)], ["r1", "r2", "r3"], CGOAL, CGOAL, [], ("chain", *ss), ctx)
    else:
        s, t = TWO1[case[1]], TWO2[case[2]]
        strict = kind == "strict"
        pair([two_rule("r1", "0", "1", s, strict), two_rule("r2", "1", "2", t, strict)], ["r1", "r2"], CTWO, LEARN, MEMORY if s[4] else [], (kind, s, t), ctx, strict)


def final(total, tier):
    if len(total.outcomes) < 6:
        yield "vacuous", f"{total.outcomes}"
