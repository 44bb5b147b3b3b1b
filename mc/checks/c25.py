"""C25 several buffers and memories: each buffer retrieves from and is harvested into its own memory, with its own parameters."""
import itertools

from mc import simrun
from mc.simrun import actr, frule

ID = "C25"
LEVEL = "model_checking"
RULE = ("every assignment of two memories (also one, also one empty) to a goal, two retrieval buffers and the visual buffers x every history of actions on them; buffers and both memories compared with a reference after every rule; "
        "every pair of parameter settings of two retrieval buffers; state = distinct (assignment, buffers, memories)")
ASSUMPTIONS = ["with several memories every buffer is given one by the user", "of several matching chunks any may be retrieved"]
CHUNK = 6

actr.chunktype("mcd", "k, a, b")
X, Y, Z, W = ({"a": "x", "b": "1"}, {"a": "y", "b": "1"}, {"a": "x", "b": "2"}, {"a": "w", "b": "3"})
H = [None, ("~", None), ("+", {"a": "n", "b": "1"}), ("+", {"a": "x", "b": "1"}), ("=", {"b": "4"})]
R1 = [None, ("~", None), ("+", {"a": "x"}), ("+", {"a": "w"}), ("+", {"b": "1"})]
R2 = [None, ("~", None), ("+", {"a": "y"}), ("+", {"a": "x"}), ("=", {"b": "5"})]
V = [None, ("+", {"value": "B"}), ("~", None)]
NAMES = ("h", "r1", "r2")
MEM = {"A": [X, W, Z], "B": [X, Y]}
PARAMS = [dict(), dict(latency_factor=.3), dict(retrieval_threshold=1), dict(decay=.2), dict(latency_exponent=2), dict(baselevel_learning=False)]
# not all buffers are given a memory: there is one, B is empty, A is empty, A is empty and given to h and r2
WHERE = {"one": dict(h="A", r1="A", r2="A"), "first": dict(h="A", r1="A", r2="A"), "second": dict(h="B", r1="B", r2="B"), "part": dict(h="A", r1="B", r2="A"), "three": dict(h="B", r1="B", r2="B")}
EMPTY = {"first": "B", "second": "A", "part": "A", "three": "AC"}       # three: one of three memories is not empty


def bounds(tier):
    return {"assignments": "A or B to each of 3 buffers; one memory; all but one of two or three empty, given to none or some of the buffers", "actions": [len(H), len(R1), len(R2)], "history length": "2" if tier == "quick" else "2 and 3 (with fewer actions)",
            "visual buffers": "given A, B or none, or made by the environment", "parameters": PARAMS}


def cases(tier):
    acts = [a for a in itertools.product(range(len(H)), range(len(R1)), range(len(R2)))]
    for first in acts:
        if tier == "quick" and sum(1 for x in first if x) > 2 and first[0] != 2:
            continue
        yield ("hist", (first,), tier)
    if tier != "quick":
        for h in itertools.product([a for a in acts if all(x < 3 for x in a)], repeat=2):
            yield ("hist", h, "three")
    for a in ("one", "A", "B", "none", "given"):
        for h in itertools.product(range(len(V)), repeat=3):
            yield ("visual", a, h)
    for i in range(len(UNGIVEN)):
        for which in (0, 1):
            yield ("ungiven", i, which)
    for p in itertools.product(range(len(PARAMS)), repeat=2):
        yield ("params", p)


def canon(d):
    return tuple(sorted((k, v) for k, v in d.items() if v is not None))


class Ref:
    """Buffers and memories; retrieval is immediate if it succeeds, and fails after a rule firing time."""

    def __init__(self, where, mem):
        self.where = where
        self.buf = {n: None for n in NAMES}
        self.mem = {m: {canon(c): [-1.0] for c in l} for m, l in mem.items()}

    def harvest(self, n, t):
        if self.buf[n] is not None:
            self.mem[self.where[n]].setdefault(self.buf[n], []).append(t)
        self.buf[n] = None

    def candidates(self, n, pattern, t):
        return [c for c, ts in self.mem[self.where[n]].items() if all(dict(c).get(s) == v for s, v in pattern.items()) and round(ts[0], 4) != t]


def memories(assignment):
    if assignment == "one":
        return {"A": actr.declarative.DecMem()}
    return {k: actr.declarative.DecMem() for k in ("ABC" if assignment == "three" else "AB")}


def hist(assignment, acts, strict, ctx):
    """acts: per rule, an index into H, R1, R2."""
    where = dict(zip(NAMES, assignment)) if isinstance(assignment, tuple) else WHERE[assignment]
    m = actr.ACTRModel()
    mems = memories(assignment)
    m.decmems = {"decmem" + k: v for k, v in mems.items()} if assignment != "one" else {"decmem": mems["A"]}
    m.set_goal("h")
    m.retrievals.clear()
    for r in ("r1", "r2"):
        m.set_retrieval(r)
    for k, d in mems.items():
        for c in MEM[k] if k not in EMPTY.get(assignment, ()) else ():
            d.add(simrun.mk(c, "mcd"), time=-1)
    if assignment == "part":
        m.goals["h"].default_harvest = mems["A"]
        m.retrievals["r2"].decmem = mems["A"]
    if isinstance(assignment, tuple):
        m.goals["g"].default_harvest = mems["A"]
        m.goals["h"].default_harvest = mems[where["h"]]
        m.retrievals["r1"].decmem = mems[where["r1"]]
        m.retrievals["r2"].decmem = mems[where["r2"]]
    m.goals["g"].add(simrun.mk({"k": "0"}, "mcd"))
    m.goals["h"].add(simrun.mk(X, "mcd"))
    ref = Ref(where, {k: MEM[k] if k not in EMPTY.get(assignment, ()) else [] for k in mems})
    ref.buf["h"] = canon(X)
    rules, plan = [], []
    full = {"h": True, "r1": False, "r2": False}
    for i, a in enumerate(acts):
        lhs, rhs = {"=g": ("mcd", {"k": str(i)})}, {"=g": ("mcd", {"k": str(i + 1)})}
        for n, options, j in zip(NAMES, (H, R1, R2), a):
            if options[j]:
                sign, x = options[j]
                if sign == "=":
                    lhs["=" + n] = ("mcd", {})
                rhs[sign + n] = x and ("mcd", x)
        rules.append(frule(f"t{i}", lhs, rhs))
    m.set_productions(*rules)
    buffers = {"h": m.goals["h"], "r1": m.retrievals["r1"], "r2": m.retrievals["r2"]}
    snaps = []

    def on_event(e):
        if e[1] == "PROCEDURAL" and e[2] == "CONFLICT RESOLUTION" or e[2].startswith("RULE FIRED"):
            snaps.append((e, {n: simrun.content(b) for n, b in buffers.items()}, {k: simrun.dm_content(d) for k, d in mems.items()}))
    # the moment of a rule is long after the previous one, so that all requests are completed
    m.model_parameters["rule_firing"] = .1
    events, _, _ = simrun.simulate(m, .1 * len(acts) + .35, on_event)
    ctx.ran()
    ctx.step(len(events))
    fired = [(t, int(a[len("RULE FIRED: t"):])) for t, _, a in events if a.startswith("RULE FIRED")]
    # a failed retrieval may be interrupted by the next request of the same buffer; otherwise it only changes the state
    states = [(dict(ref.buf), ref.mem)]
    exp_fired = []
    for i, a in enumerate(acts):
        t = round(.1 * (i + 1), 4)
        ok = all(not (o[j] and o[j][0] == "=") or ref.buf[n] is not None for n, o, j in zip(NAMES, (H, R1, R2), a))
        if not ok:
            break
        exp_fired.append((t, i))
        open_ = {}
        for n, options, j in zip(NAMES, (H, R1, R2), a):
            if not options[j]:
                continue
            sign, x = options[j]
            if sign == "=":
                ref.buf[n] = canon({**dict(ref.buf[n]), **x})
            elif sign == "~":
                ref.harvest(n, t)
            elif n == "h":
                ref.harvest(n, t)
                ref.buf[n] = canon(x)
        for n, options, j in zip(NAMES, (H, R1, R2), a):
            if options[j] and options[j][0] == "+" and n != "h":
                open_[n] = ref.candidates(n, options[j][1], t)
        # what the code chose has to be one of the candidates
        last = [s for s in snaps if s[0][0] <= t + .0999]
        now = [s for s in snaps if s[0][0] == t and s[0][2] == "CONFLICT RESOLUTION"]
        if not now:
            return "incomplete", f"{events[-3:]}"
        got = now[-1]
        for n, cand in open_.items():
            if cand:
                choice = got[1][n]
                if choice not in cand:
                    return "retrieved", f"after rule {i}, {n} has {choice}, expected one of {cand} from memory {where[n]}"
                ref.harvest(n, t)
                ref.buf[n] = choice
            ctx.outcome(("retrieved", bool(cand)))
        if got[1] != ref.buf:
            return "buffers", f"after rule {i}: {got[1]}, expected {ref.buf}"
        want = {k: {c: tuple(sorted(round(x, 4) for x in ts)) for c, ts in d.items()} for k, d in ref.mem.items()}
        if got[2] != want:
            return "memories", f"after rule {i}: {got[2]}, expected {want}"
        ctx.state((assignment, sorted(ref.buf.items()), sorted(want.items())))
    if fired != exp_fired:
        return "fired", f"{fired}, expected {exp_fired}"
    return None


def visual(a, h, ctx):
    """The visual location buffer is harvested into the memory it was given, or the only one."""
    env = actr.Environment(focus_position=(0, 0))
    m = actr.ACTRModel(environment=env, emma_noise=False, automatic_visual_search=False)
    mems = memories("one" if a in ("one", "none", "given") else "two")
    own = actr.declarative.DecMem()
    if len(mems) == 1:
        m.decmems = {"decmem": mems["A"]}
    else:
        m.decmems = {"decmem" + k: v for k, v in mems.items()}
        for b in (m.goals["g"],):
            b.default_harvest = mems["A"]
        m.retrieval.decmem = mems["B"]
        for d in mems.values():
            d.add(simrun.mk(W, "mcd"), time=-1)
    if a == "none":
        m.visualBuffer("visual", "visual_location")
    elif a == "given":
        m.visualBuffer("visual", "visual_location", own)
    elif a in mems:
        m.visualBuffer("visual", "visual_location", mems[a])
    target = own if a == "given" else mems[a] if a in ("A", "B") else mems["A"]
    m.goals["g"].add(simrun.mk({"k": "0"}, "mcd"))
    rules = []
    for i, v in enumerate(h):
        rules.append(frule(f"t{i}", {"=g": ("mcd", {"k": str(i)})}, {"=g": ("mcd", {"k": str(i + 1)}), **({V[v][0] + "visual_location": V[v][1] and ("_visuallocation", V[v][1])} if V[v] else {})}))
    m.set_productions(*rules)
    events, _, _ = simrun.simulate(m, .4, None, environment_process=env.environment_process, stimuli=[{"o": {"text": "B", "position": (30, 40)}}], triggers="", times=50)
    ctx.ran()
    ctx.step(len(events))
    full, pres = False, []
    for i, v in enumerate(h):
        if V[v]:
            if full:
                pres.append(round(.05 * (i + 1), 4))
            full = V[v][0] == "+"
    place = (("screen_x", "30"), ("screen_y", "40"))
    ctx.state(("visual", a, h))
    ctx.outcome(("visual", len(pres)))
    for name, d in [*mems.items(), ("own", own)]:
        got = simrun.dm_content(d).get(place, ())
        if got != (tuple(pres) if d is target else ()):
            return "visual", f"memory {name}: {got}, expected {pres if d is target else ()}"
    return None


UNGIVEN = [("h", "~", None), ("h", "+", {"a": "n"}), ("visual_location", "~", None)]


def ungiven(i, which, ctx):
    """With several memories that are not empty, a buffer without a memory of its own cannot be harvested into any of them."""
    name, sign, x = UNGIVEN[i]
    env = actr.Environment(focus_position=(0, 0))
    m = actr.ACTRModel(environment=env, emma_noise=False)
    mems = memories("two")
    m.decmems = {"decmem" + k: v for k, v in mems.items()}
    for k, d in mems.items():
        for c in MEM[k]:
            d.add(simrun.mk(c, "mcd"), time=-1)
    m.set_goal("h")
    m.goals["g"].default_harvest = mems["AB"[which]]
    m.retrieval.decmem = mems["BA"[which]]
    m.visualBuffer("visual", "visual_location")
    m.goals["g"].add(simrun.mk({"k": "0"}, "mcd"))
    m.goals["h"].add(simrun.mk(X, "mcd"))
    m.visbuffers["visual_location"].add(simrun.mk(Y, "mcd"), None)
    before = {k: simrun.dm_content(d) for k, d in mems.items()}
    m.set_productions(frule("r", {"=g": ("mcd", {"k": "0"})}, {"=g": ("mcd", {"k": "1"}), sign + name: x and ("mcd", x)}))
    refused = False
    try:
        simrun.simulate(m, .4, None, environment_process=env.environment_process, stimuli=[], triggers=[], times=[])
    except (actr.utilities.ACTRError, KeyError):
        refused = True
    ctx.ran()
    ctx.step()
    ctx.state(("ungiven", i, which))
    after = {k: simrun.dm_content(d) for k, d in mems.items()}
    held = simrun.content(m.goals["h"] if name == "h" else m.visbuffers[name])
    if not refused or after != before or held != canon(X if name == "h" else Y):
        return "ungiven", f"{sign}{name} without a memory: refused {refused}, memories {before} -> {after}, buffer {held}"
    return None


def params(p, ctx):
    """Two retrieval buffers with parameters of their own, asked for the same chunk at the same time."""
    for base in (dict(), dict(latency_factor=.5), dict(retrieval_threshold=-3)):
        got = []
        for both in (True, False, None):
            m = actr.ACTRModel(subsymbolic=True, **base)
            m.set_retrieval("r2")
            for r, i in zip(("retrieval", "r2"), p):
                m.retrievals[r].model_parameters = dict(PARAMS[i])
            m.goals["g"].add(simrun.mk({"k": "0"}, "mcd"))
            m.decmem.add(simrun.mk(X, "mcd"), time=-.9)
            req = {"+" + r: ("mcd", {"a": "x"}) for r, use in zip(("retrieval", "r2"), (both is not False, both is not None)) if use}
            m.set_productions(frule("r", {"=g": ("mcd", {"k": "0"})}, {"=g": ("mcd", {"k": "1"}), **req}))
            events, _, _ = simrun.simulate(m, 8)
            ctx.ran()
            ctx.step(len(events))
            got.append({mod: (t, a) for t, mod, a in events if a.startswith("RETRIEVED")})
        want = {}
        for r, i in zip(("retrieval", "r2"), p):
            q = {"latency_factor": .1, "latency_exponent": 1, "retrieval_threshold": 0, "decay": .5, "baselevel_learning": True, **base, **PARAMS[i]}
            act = .95 ** -q["decay"]
            import math
            act = math.log(act) if q["baselevel_learning"] else 0
            ok = act >= q["retrieval_threshold"]
            want[r] = (round(.05 + q["latency_factor"] * math.exp(-q["latency_exponent"] * (act if ok else q["retrieval_threshold"])), 4), ok)
        ctx.state(("params", p, sorted(base)))
        for r in ("retrieval", "r2"):
            for g in got:
                if r in g and (abs(g[r][0] - want[r][0]) > 2e-4 or ("None" not in g[r][1]) != want[r][1]):
                    return "parameters", f"model {base}, retrieval {PARAMS[p[0]]}, r2 {PARAMS[p[1]]}: {r} {g[r]}, expected {want[r]}"
        if set(got[0]) != {"retrieval", "r2"} or set(got[1]) != {"r2"} or set(got[2]) != {"retrieval"}:
            return "parameters", f"answers {got}"
        ctx.outcome(("params", want["r2"][1]))
    return None


def run_case(case, ctx):
    if case[0] == "visual":
        r = visual(case[1], case[2], ctx)
        if r:
            ctx.bad(r[0], f"visual buffers harvest into {case[1]}, actions {[V[i] for i in case[2]]}: {r[1]}")
    elif case[0] == "ungiven":
        r = ungiven(case[1], case[2], ctx)
        if r:
            ctx.bad(*r)
    elif case[0] == "params":
        r = params(case[1], ctx)
        if r:
            ctx.bad(*r)
    else:
        acts = [a for a in itertools.product(range(len(H)), range(len(R1)), range(len(R2)))]
        if case[2] == "quick":
            acts = [a for a in acts if sum(1 for x in a if x) <= 2 and a[0] != 3]
        elif case[2] == "three":
            acts = [a for a in acts if all(x < 3 for x in a)]
        for last in acts:
            for assignment in [*itertools.product("AB", repeat=3), *WHERE] if case[2] != "quick" else ["AAB", "ABA", "BAB", "BBA", *WHERE]:
                r = hist(assignment if assignment in WHERE else tuple(assignment), case[1] + (last,), False, ctx)
                if r:
                    ctx.bad(r[0], f"memories {assignment} for {NAMES}, actions {[[o[j] for o, j in zip((H, R1, R2), a)] for a in case[1] + (last,)]}: {r[1]}")
                    return


def final(total, tier):
    if len(total.outcomes) < 7:
        yield "vacuous", f"{total.outcomes}"
