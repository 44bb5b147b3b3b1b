"""C30 buffer variables: the name of a tested buffer is a variable that stands for the chunk in it."""
import itertools

from mc import simrun
from mc.simrun import actr, frule

ID = "C30"
LEVEL = "model_checking"
RULE = ("every condition over two goal buffers and retrieval whose slots are compared with whole chunks (=buffer, ~=buffer) or variables, in every order of the buffers, with actions that write, set and request such chunks, "
        "on every content, with and without strict harvesting, in both formats; every pair of such rules with production compilation; a shift of attention to a location held in a buffer; "
        "state = distinct (rule, content, outcome)")
ASSUMPTIONS = ["a variable that occurs only negated restricts nothing", "the order in which a rule mentions its buffers has no meaning"]
CHUNK = 40

actr.chunktype("bvt", "k, s, t")
A, B = (("s", "a"),), (("s", "b"),)
NEST = (("s", A),)
MEMORY = [A, B, NEST, (("t", B),)]
# constraints on a slot
GS = [None, "=h", "~=h", "=retrieval", "~=retrieval", "=x", "=g", "~=g", "=h~=retrieval", "=x~=h"]
GT = [None, "=h", "~=retrieval", "=x", "~=x", "=g"]
HS = [None, "=x", "=g", "~=g", "=retrieval", "~=retrieval"]
RS = [None, "=x", "~=h"]
NO = "untested"
ASK = "queried"       # not tested, but the buffer has to be full
VG = [None, "a", A, B]
CONTENT = [(g, t, h, r) for g in VG for t in (None, "a", A) for h in (None, A, B, NEST) for r in (None, A, B)]

ACT = {"g": [None, ("=", "s", "=h"), ("=", "t", "=retrieval"), ("=", "s", "=g"), ("+", "s", "=h"), ("@", "t", "=g"), ("*", "t", "=h"), ("=", "t", "=x")],
       "h": [None, ("+", "s", "=g"), ("=", "s", "=retrieval"), ("~",), ("@", "s", "=h"), ("+", "t", "=x")],
       "retrieval": [None, ("+", "s", "=h"), ("+", "s", "~=h"), ("~",), ("+", "t", "=retrieval")]}


def varsin(x):
    return set() if not x else {p for p in x.replace("~=", "=").split("=") if p}


def lhss(n):
    """Conditions with at most n constraints that mention variables."""
    for gs, gt in itertools.product(GS, GT):
        for hs in [NO, ASK] + HS:
            for rs in [NO] + RS:
                if hs == ASK and (rs not in (NO, None) or gt):
                    continue
                cons = [c for c in (gs, gt, hs, rs) if c and c not in (NO, ASK)]
                if len(cons) <= n and any(varsin(c) - {"x"} for c in cons):
                    yield (gs, gt), hs, rs


def actions(lhs):
    (gs, gt), hs, rs = lhs
    tested = {"g"} | ({"h"} if hs not in (NO, ASK) else set()) | ({"retrieval"} if rs != NO else set())
    bound = set(tested)
    for c in (gs, gt, hs, rs):
        if c and c not in (NO, ASK) and c.startswith("="):
            bound.add(c[1:].split("~")[0])
    out = []
    for acts in itertools.product(*ACT.values()):
        acts = tuple((b, *a) for b, a in zip(ACT, acts) if a)
        if acts and all(not (a[1] in "=*" and a[0] not in tested) and (len(a) < 3 or varsin(a[3]) <= bound) for a in acts):
            out.append(acts)
    return out, tested


def bounds(tier):
    return {"constraints per slot": {"g": [GS, GT], "h": HS, "retrieval": RS}, "conditions": sum(1 for _ in lhss(2 if tier == "quick" else 3)), "orders": "all orders of the tested buffers", "contents": len(CONTENT),
            "actions": {b: len(a) for b, a in ACT.items()}, "actions per condition": "all, in turn" if tier == "quick" else "all, in turn, two rounds", "pairs of rules compiled": sum(1 for _ in pairs(tier))}


def cases(tier):
    for i, l in enumerate(lhss(2 if tier == "quick" else 3)):
        yield ("rule", l, i)
    yield from pairs(tier)
    for pos in itertools.product((100, 200), (100, 150)):
        yield ("look", pos)


# ------------------------------------------------------------ reference
def lookup(c, slot):
    return dict(c or ()).get(slot)


def match(lhs, content):
    """Bindings, or None."""
    (gs, gt), hs, rs = lhs
    g, t, h, r = content
    b = {"g": gcont(content)}
    if hs != NO:
        if h is None:
            return None
        if hs != ASK:
            b["h"] = h
    if rs != NO:
        if r is None:
            return None
        b["retrieval"] = r
    cons = [(c, v) for c, v in ((gs, g), (gt, t), (hs, lookup(h, "s")), (rs, lookup(r, "s"))) if c and c not in (NO, ASK)]
    neg = []
    for c, v in cons:
        if c.startswith("="):
            n = c[1:].split("~")[0]
            if n in b and b[n] != v:
                return None
            b[n] = v
        if "~=" in c:
            neg.append((c.split("~=")[1], v))
    return None if any(n in b and b[n] == v for n, v in neg) else b


def gcont(content, k="0"):
    return tuple(sorted(((s, v) for s, v in zip("kst", (k,) + content[:2]) if v is not None)))


def put(c, slot, v):
    d = dict(c or ())
    d.pop(slot, None)
    if v is not None:
        d[slot] = v
    return tuple(sorted(d.items()))


def effects(lhs, acts, content, b, strict, tested):
    """Expected contents of g, h and the set of possible ones of retrieval."""
    cur = {"g": gcont(content), "h": content[2], "retrieval": content[3]}
    pos = None
    for a in acts:
        if a[1] == "~":
            cur[a[0]] = None
        elif a[0] == "retrieval":
            if a[3].startswith("~"):
                pos = [m for m in MEMORY if lookup(m, a[2]) != b[a[3][2:]]]
            else:
                v = b[a[3][1:]]
                pos = [m for m in MEMORY if lookup(m, a[2]) == v]
                if v is None:
                    pos += MEMORY       # a variable bound to an empty slot may stand for no constraint
        else:
            cur[a[0]] = put(cur[a[0]] if a[1] in "=*" else (), a[2], b[a[3][1:]])
    if strict:
        for n in tested - {a[0] for a in acts}:
            cur[n] = None
    return cur["g"], cur["h"], ([cur["retrieval"]] if not pos else pos)


# ------------------------------------------------------------ the real thing
def mk(c):
    return actr.chunks.Chunk("bvt", **{s: mk(v) if isinstance(v, tuple) else v for s, v in c})


def model(content, g, **par):
    m = actr.ACTRModel(**par)
    m.goals["g"].add(mk(g))
    m.set_goal("h")
    if content[2] is not None:
        m.goals["h"].add(mk(content[2]))
    if content[3] is not None:
        m.retrieval.add(mk(content[3]))
    for c in MEMORY:
        m.decmem.add(mk(c), -1)
    return m


def parts(lhs, acts, order, k=None):
    (gs, gt), hs, rs = lhs
    tests = {"=g": {"s": gs, "t": gt, "k": k}, "=h": {"s": hs}, "=retrieval": {"s": rs}}
    left = {t: ("bvt", {s: v for s, v in tests[t].items() if v}) for t in order}
    if hs == ASK:
        left["?h"] = {"buffer": "full"}
    right = {a[1] + a[0]: None if a[1] == "~" else ("bvt", {a[2]: a[3]}) for a in acts}
    return left, right


def split(v):
    """=x~=h is two mentions of the slot."""
    return [v] if v.startswith("~") or "~" not in v else [v.split("~")[0], "~" + v.split("~")[1]]


def as_text(left, right):
    def side(d):
        return "\n".join(k + ">" + ("" if v is None else " " + " ".join(f"{s} {x}" for s, x in v.items()) if k[0] == "?" else " isa bvt " + " ".join(f"{s} {x}" for s, y in v[1].items() for x in split(y))) for k, v in d.items())
    return side(left) + "\n==>\n" + side(right)


def run_case(case, ctx):
    if case[0] == "pair":
        pair(case, ctx)
        return
    if case[0] == "look":
        look(case[1], ctx)
        return
    _, lhs, i = case
    acts, tested = actions(lhs)
    orders = list(itertools.permutations([t for t in ("=g", "=h", "=retrieval") if t[1:] in tested]))
    for n, order in enumerate(orders):
        for j, content in enumerate(CONTENT):
            if lhs[1] == NO and content[2] == B or lhs[2] == NO and content[3] == B:
                continue
            a = acts[(i * 7 + j + n) % len(acts)]
            strict = bool((i + j // 3 + n) % 2)
            left, right = parts(lhs, a, order)
            m = model(content, gcont(content), strict_harvesting=strict)
            form = "text" if (i + j) % 29 == 0 else "function"
            if form == "text":
                m.productionstring(name="r", string=as_text(left, right))
            else:
                m.set_productions(frule("r", left, right))
            what = f"{as_text(left, right)}\n on g {gcont(content)}, h {content[2]}, retrieval {content[3]}, strict {strict}, {form}"
            b = match(lhs, content)
            try:
                events, _, _ = simrun.simulate(m, .06)
            except actr.utilities.ACTRError as e:
                ctx.bad("error", f"{what}: {e}")
                return
            ctx.ran()
            ctx.step(len(events))
            fired = [e[0] for e in events if "FIRED" in e[2]]
            if fired != ([] if b is None else [.05]):
                ctx.bad("match", f"{what}: fired at {fired}, the conditions {'do not hold' if b is None else 'hold'}")
                return
            got = simrun.content(m.goals["g"]), simrun.content(m.goals["h"]), simrun.content(m.retrieval)
            want = (gcont(content), content[2], [content[3]]) if b is None else effects(lhs, a, content, b, strict, tested)
            ctx.state((left, right, content, got))
            ctx.outcome((b is not None, strict, got[2] is not None))
            if got[:2] != want[:2] or got[2] not in want[2]:
                ctx.bad("effects", f"{what}: left g, h, retrieval = {got}, expected {want}")
                return


# ------------------------------------------------------------ compiled pairs
P1G = [None, "=x", "=h"]
P1H = [NO, None, "=x"]
P1A = {"g": [None, "=h", "=x"], "h": [None, ("=", "t", "z"), ("+", "s", "=g"), ("~",)], "retrieval": [None, ("+", "s", "a"), ("+", "s", "=h")]}
P2G = [None, "=y", "=h", "~=h", "=retrieval"]
P2H = [NO, None]
P2R = [NO, None]
P2A = {"g": [None, "=h", "=y", "=retrieval", "=g"], "h": [None, ("=", "t", "=g"), ("@", "s", "=h")], "retrieval": [None, ("~",)]}
PCONT = [(g, None, h, None) for g in (None, "a", A, B) for h in (A, B, NEST)]


def half(gs, hs, rs, ga, ha, ra):
    lhs = ((gs, None), hs, rs)
    acts = tuple(x for x in (ha and ("h", *ha), ra and ("retrieval", *ra)) if x)
    tested = {"g"} | ({"h"} if hs != NO else set()) | ({"retrieval"} if rs != NO else set())
    bound = tested | {c[1:] for c in (gs, hs, rs) if c and c[0] == "="}
    used = varsin(ga).union(*[varsin(a[3]) for a in acts if len(a) > 2 and "=" in a[3]])
    ok = used <= bound and all(not (a[1] == "=" and a[0] not in tested) for a in acts)
    names = used.union(*[varsin(c) for c in (gs, hs, rs) if c and c != NO]) & {"g", "h", "retrieval"}
    return (lhs, ga, acts, frozenset(tested), frozenset(names)) if ok else None


def pairs(tier):
    one = [x for x in (half(gs, hs, NO, ga, ha, ra) for gs in P1G for hs in P1H for ga in P1A["g"] for ha in P1A["h"] for ra in P1A["retrieval"]) if x]
    two = [x for x in (half(gs, hs, rs, ga, ha, ra) for gs in P2G for hs in P2H for rs in P2R for ga in P2A["g"] for ha in P2A["h"] for ra in P2A["retrieval"]) if x]
    for r1, r2 in itertools.product(one, two):
        req = any(a[0] == "retrieval" for a in r1[2])
        if not (r1[4] or r2[4]) or ("retrieval" in r2[3]) != req:
            continue
        if req and not any(a[0] == "retrieval" for a in r2[2]):
            continue        # the retrieved chunk would remain
        if "retrieval" in r2[4] and "retrieval" not in r2[3]:
            continue
        if tier == "quick" and len(r1[2]) + len(r2[2]) + sum(x is not None for x in (r1[0][0][0], r2[0][0][0], r1[1], r2[1])) > 3 + req:
            continue
        yield ("pair", r1, r2)


def half_rule(name, k, r):
    lhs, ga, acts, tested, _ = r
    left, right = parts(lhs, acts, [t for t in ("=g", "=h", "=retrieval") if t[1:] in tested], str(k))
    right["=g"] = ("bvt", {"k": str(k + 1), **({"s": ga} if ga else {})})
    return frule(name, left, right), left, right


def outcome(m, until=.5):
    try:
        events, _, _ = simrun.simulate(m, until)
    except actr.utilities.ACTRError as e:
        return "error", str(e), []
    return [e[2][12:] for e in events if e[2].startswith("RULE FIRED")], (simrun.content(m.goals["g"]), simrun.content(m.goals["h"]), simrun.content(m.retrieval)), events


def pair(case, ctx):
    _, r1, r2 = case
    f1, l1, x1 = half_rule("r1", 0, r1)
    f2, l2, x2 = half_rule("r2", 1, r2)
    desc = as_text(l1, x1) + "\nthen\n" + as_text(l2, x2)
    stop = frule("stop", {"=g": ("bvt", {"k": "2"})}, {"=g": ("bvt", {"k": "9"})})
    seq = {}
    for c in PCONT:
        m = model(c, gcont(c), strict_harvesting=False)
        m.set_productions(f1, f2)
        seq[c] = outcome(m)
        ctx.ran()
        ctx.step(len(seq[c][2]))
    done = set()
    for c in PCONT:
        fired, res, events = seq[c]
        if fired != ["r1", "r2"]:
            continue
        got = next((e[2] for e in events if e[2].startswith("RETRIEVED")), None)
        m = model(c, gcont(c), strict_harvesting=False, production_compilation=True)
        m.set_productions(f1, f2, stop)
        fired, _, _ = outcome(m)
        ctx.ran()
        if fired == "error":
            ctx.bad("compile", f"{desc}\n from {c}: the rules with production compilation end in an error")
            return
        name = "r1 and r2"
        if name not in m.productions:
            if not r2[4] and r2[0][0][0] is None and not (r1[4] and got) and not r1[4] & (r2[3] - r1[3]):
                ctx.bad("not compiled", f"{desc}\n from {c}: not compiled, though the second rule neither uses a chunk as a whole nor tests what the first one writes")
                return
            ctx.outcome("not compiled")
            continue
        f = m.productions[name]["rule"]
        key = repr(m.productions[name])
        if key in done:
            continue
        done.add(key)
        for c2 in PCONT:
            if got and not (seq[c2][0] == ["r1", "r2"] and next((e[2] for e in seq[c2][2] if e[2].startswith("RETRIEVED")), None) == got) and c2 != c:
                continue            # restricted to the retrieved chunk
            m2 = model(c2, gcont(c2), strict_harvesting=False)
            m2.set_productions(f)
            fired, res, _ = outcome(m2)
            ctx.ran()
            ok = seq[c2][0] == ["r1", "r2"]
            ctx.state((desc, c, c2))
            what = None
            if fired == "error":
                what = f"ends in an error: {res}"
            elif fired and not ok:
                what = "fires although the two rules do not fire one after the other"
            elif fired and res != seq[c2][1]:
                what = f"leaves {res} instead of {seq[c2][1]}"
            elif not fired and ok and (c2 == c or not got):
                what = "does not fire although the rules do"
            if what:
                ctx.bad("compiled", f"{desc}\n learned from {c}: {key}; in {c2} it {what}")
                return
        ctx.outcome("compiled")


# ------------------------------------------------------------ attention
def look(pos, ctx):
    """The position to attend to is the chunk found by the search, held in visual_location or passed on to another buffer."""
    for via in ("visual_location", "h"):
        env = actr.Environment(focus_position=(0, 0))
        m = actr.ACTRModel(environment=env, emma_noise=False, automatic_visual_search=False)
        m.goals["g"].add(mk((("k", "0"),)))
        m.set_goal("h")
        m.productionstring(name="find", string="=g> isa bvt k 0 ==> =g> isa bvt k 1 +visual_location> isa _visuallocation screen_x %d screen_y %d" % pos)
        m.productionstring(name="keep", string="=g> isa bvt k 1 =visual_location> isa _visuallocation ==> =g> isa bvt k 2 s =visual_location")
        if via == "h":
            m.productionstring(name="go", string="=g> isa bvt k 2 s =visual_location =visual_location> isa _visuallocation ==> =g> isa bvt k 3 +visual> isa _visual cmd move_attention screen_pos =visual_location")
        else:
            m.productionstring(name="go", string="=visual_location> isa _visuallocation =g> isa bvt k 2 s =p ==> =g> isa bvt k 3 +visual> isa _visual cmd move_attention screen_pos =p")
        stim = {f"{x}{y}": {"text": f"w{x}{y}", "position": (x, y), "vis_delay": 2} for x in (100, 200) for y in (100, 150)}
        m.visualBuffer("visual", "visual_location", m.decmem)
        events, _, _ = simrun.simulate(m, 3, environment_process=env.environment_process, stimuli=[stim], triggers="Q", times=4)
        ctx.ran()
        ctx.step(len(events))
        got = simrun.content(m.visbuffers["visual"])
        ctx.state((pos, via))
        ctx.outcome(("look", got is not None))
        if [e[2][12:] for e in events if "FIRED" in e[2]] != ["find", "keep", "go"] or dict(got or ()).get("value") != "w%d%d" % pos or env.current_focus != list(pos) and env.current_focus != pos:
            ctx.bad("look", f"position {pos} via {via}: {got}, eyes at {env.current_focus}; {events[-6:]}")
            return


def final(total, tier):
    if len(total.outcomes) < 7:
        yield "vacuous", f"{total.outcomes}"
