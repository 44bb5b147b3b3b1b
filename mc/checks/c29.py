"""C29 ill-formed input is refused, and changes nothing."""
import contextlib
import copy
import itertools

from mc import simrun
from mc.simrun import actr, frule

ID = "C29"
LEVEL = "model_checking"
RULE = ("every ill-formed call out of a list x every content of the model (buffers full or empty, chunks in memory) x every pair of calls, the model compared before and after and in its run; "
        "every ill-formed action or condition x position in a program x contents x a well-formed action beside it, the run compared up to the error with that of the program without it; state = distinct (ill-formed input, situation)")
ASSUMPTIONS = ["which class of exception a call raises is left open; a run raises ACTRError"]
CHUNK = 20
UNTIL = .6

actr.chunktype("wgt", "k a")
actr.chunktype("wft", "e f")
RULE_TEXT = "=g> isa wgt k 0 ==> =g> isa wgt k 1"


class Other:
    pass


def bad_dm(b):
    b.default_harvest = "memory"


# name -> call on (model, environment)
CALLS = {
    "set_goal(5)": lambda m, e: m.set_goal(5), "set_goal(None)": lambda m, e: m.set_goal(None), "set_retrieval(5)": lambda m, e: m.set_retrieval(5), "goal delay -1": lambda m, e: m.set_goal("new", -1),
    "delay = -.1": lambda m, e: setattr(m.goals["h"], "delay", -.1), "retrieval finst -1": lambda m, e: setattr(m.retrieval, "finst", -1), "location finst -1": lambda m, e: setattr(m.visbuffers["visual_location"], "finst", -1),
    "visualBuffer finst -1": lambda m, e: m.visualBuffer("v", "w", m.decmem, -1),
    "goal.add text": lambda m, e: m.goals["g"].add("isa wgt k 0"), "goal.add None": lambda m, e: m.goals["g"].add(None), "retrieval.add text": lambda m, e: m.retrieval.add("x"), "retrieval.add number": lambda m, e: m.retrieval.add(3, .1),
    "visual.add text": lambda m, e: m.visbuffers["visual"].add("x", .1), "location.add text": lambda m, e: m.visbuffers["visual_location"].add("x", {"text": "x"}, .1), "goal.add list": lambda m, e: m.goals["g"].add([simrun.mk({"k": "0"}, "wgt")]),
    "memory.add text": lambda m, e: m.decmem.add("x", 1), "memory.add None": lambda m, e: m.decmem.add(None), "memory[text]": lambda m, e: m.decmem.__setitem__("x", [1]), "memory of texts": lambda m, e: m.set_decmem(["x", "y"]),
    "memory of text": lambda m, e: m.set_decmem("x"), "memory of numbers": lambda m, e: m.set_decmem({1: [2]}),
    "goal harvest": lambda m, e: bad_dm(m.goals["g"]), "visual harvest": lambda m, e: bad_dm(m.visbuffers["visual"]), "location harvest": lambda m, e: bad_dm(m.visbuffers["visual_location"]),
    "retrieval memory": lambda m, e: setattr(m.retrieval, "decmem", Other()), "goal memory": lambda m, e: setattr(m.goals["h"], "default_harvest", Other()),
    "similarity .0001": lambda m, e: m.set_similarities("y", "x", .0001), "similarity .1": lambda m, e: m.set_similarities("x", "q", .1), "similarity 1": lambda m, e: m.set_similarities("y", "z", 1),
    "focus (1,)": lambda m, e: setattr(e, "current_focus", (1,)), "focus (1, 2, 3)": lambda m, e: setattr(e, "current_focus", (1, 2, 3)), "focus 7": lambda m, e: setattr(e, "current_focus", 7),
    "environment focus (1,)": lambda m, e: actr.Environment(focus_position=(1,)), "environment focus 7": lambda m, e: actr.Environment(focus_position=7), "environment focus (1, 2, 3)": lambda m, e: actr.Environment(focus_position=[1, 2, 3]),
    "parameter": lambda m, e: actr.ACTRModel(subsymbolc=True), "parameters": lambda m, e: actr.ACTRModel(subsymbolic=True, decay=.3, noise=0), "parameter with environment": lambda m, e: actr.ACTRModel(environment=e, finst=3),
    "retrieve from goal": lambda m, e: m.goals["g"].retrieve(simrun.mk({"k": "0"}, "wgt")),
    "two goals": lambda m, e: m.goal, "rule attribute": lambda m, e: m.productions["r0"].__setitem__("utilty", 3),
    "modify ~": lambda m, e: m.goals["g"].modify(actr.chunks.Chunk("wgt", k=simrun.vv("~2"))), "modify unbound": lambda m, e: m.goals["g"].modify(actr.chunks.Chunk("wgt", k=simrun.vv("=x")), {}),
    "modify retrieval ~": lambda m, e: m.retrieval.modify(actr.chunks.Chunk("wft", e=simrun.vv("~=x")), {"=x": "2"}), "modify visual ~": lambda m, e: m.visbuffers["visual"].modify(actr.chunks.Chunk("_visual", value=simrun.vv("=x"))),
    "modify location ~": lambda m, e: m.visbuffers["visual_location"].modify(actr.chunks.Chunk("_visuallocation", value=simrun.vv("~x"))),
    **{f"modify empty {n}": (lambda b, c: lambda m, e: b().modify(c))(b, c) for n, b, c in (("goal", lambda: actr.goals.Goal(), actr.chunks.Chunk("wgt", k="2")), ("retrieval", lambda: actr.declarative.DecMemBuffer(), actr.chunks.Chunk("wft", e="2")))},
    "modify empty visual": lambda m, e: __import__("pyactr").vision.Visual(e, m.decmem).modify(actr.chunks.Chunk("_visual", value="2")),
    "modify empty location": lambda m, e: __import__("pyactr").vision.VisualLocation(e, m.decmem).modify(actr.chunks.Chunk("_visuallocation", value="2")),
    "press into manual buffer": lambda m, e: __import__("pyactr").motor.Motor().add(simrun.mk({"cmd": "press_key"}, "_manual")),
    **{f"rule {t!r}": (lambda t: lambda m, e: m.productionstring(name="new", string=t))(t) for t in (
        "", "==>", "=g> isa wgt k 0", "=g> isa wgt k 0 ==>", "==> =g> isa wgt k 1", "=g> isa wgt k ==> =g> isa wgt k 1", "+g> isa wgt k 0 ==> =g> isa wgt k 1", "=g> isa wgt k 0 ==> -g> isa wgt k 1", "=g isa wgt k 0 ==> =g> isa wgt k 1",
        "=g> isa wgt k 0 1 ==> =g> isa wgt k 1", "=g> isa wgt k 0 => =g> isa wgt k 1", "=g> isa wgt k (0 ==> =g> isa wgt k 1", "=g> isa wgt k '0 ==> =g> isa wgt k 1", "=g> isa wgt k 0 ==> =g> isa wgt k 1 ==> ~g>", "~g> ==> =g> isa wgt k 1", "g> isa wgt k 0 ==> =g> isa wgt k 1")},
    **{f"chunk {t!r}": (lambda t: lambda m, e: m.decmem.add(actr.chunkstring(string=t)))(t) for t in ("", "isa", "isa wgt k", "isa wgt k 0 1", "isa wgt k 0 k 1", "isa wgt (k 0", "isa wgt k '0")},
    "chunk type of a number": lambda m, e: actr.chunktype("wyt", 5), "special chunk type": lambda m, e: actr.chunktype("_visual", "k"), "manual chunk type": lambda m, e: actr.chunktype("_manual", ("cmd", "key", "hand")),
    "chunk type with isa": lambda m, e: actr.chunktype("wxt", "isa k"), "chunk type with ISA": lambda m, e: actr.chunktype("wxt", ("k", "ISA")), "chunk type without parent": lambda m, e: actr.chunktype("wxt", "k", include="nosuchtype"),
    "value list": lambda m, e: m.decmem.add(actr.chunks.Chunk("wgt", k=["0"])), "value dict": lambda m, e: m.goals["g"].add(actr.chunks.Chunk("wgt", k={})), "values": lambda m, e: m.decmem.add(actr.chunks.Chunk("wgt", k="=a=b")),
    "negated values": lambda m, e: actr.chunks.Chunk("wgt", k=actr.utilities.VarvalClass(variables=None, values="0", negvalues="x" and ["x"], negvariables=())), "value number": lambda m, e: actr.chunks.Chunk("wgt", k=actr.utilities.VarvalClass(variables=None, values=5, negvalues=(), negvariables=())),
    "activation": lambda m, e: m.decmem.add_activation(simrun.mk({"e": "none"}, "wft"), 1.5), "two in a buffer": lambda m, e: actr.goals.Goal({simrun.mk({"k": "0"}, "wgt"), simrun.mk({"k": "1"}, "wgt")}),
    "stimuli and triggers": lambda m, e: next(e.environment_process(stimuli=[{}, {}, {}], triggers=["A", "B"], times=1)), "stimuli and times": lambda m, e: next(e.environment_process(stimuli=[{}, {}], triggers="A", times=[1, 2, 3])),
    "triggers of numbers": lambda m, e: next(e.environment_process(stimuli=[{}, {}], triggers=[1, 2], times=1)), "stimulus without features": lambda m, e: next(e.environment_process(stimuli=[{"o": "A"}], triggers="A", times=1)),
    "steps 0": lambda m, e: m.simulation(gui=False, environment_process=e.environment_process, stimuli=[{}], triggers="", times=1).steps(0),
    "steps -1": lambda m, e: m.simulation(gui=False, environment_process=e.environment_process, stimuli=[{}], triggers="", times=1).steps(-1),
}
NAMES = list(CALLS)
CONTENTS = list(itertools.product((0, 1), repeat=3))

G = {"=g": ("wgt", {"k": "0", "a": "=a"})}
# what is wrong -> (left-hand side, right-hand side, buffer that is modified or None)
CONDITIONS = {"+g on the left": {"+g": ("wgt", {"k": "0"})}, "no sign": {"g": ("wgt", {"k": "0"})}, "~h on the left": {"~h": None}, "@g on the left": {"@g": ("wgt", {})}}
ACTIONS = {
    "- on the right": {"-h": ("wgt", {"k": "1"})}, "< on the right": {"<g": ("wgt", {})},
    **{f"{s}{b} {what}": {s + b: (t, {slot: v})} for s, b, t, slot in (("=", "g", "wgt", "k"), ("=", "h", "wgt", "a"), ("@", "g", "wgt", "k"), ("@", "h", "wgt", "a"), ("+", "g", "wgt", "a"), ("+", "h", "wgt", "k"), ("*", "g", "wgt", "a"), ("*", "h", "wgt", "k"), ("=", "retrieval", "wft", "e"))
       for what, v in (("unbound", "=x"), ("negated", "~7"), ("negated variable", "~=a"), ("two values", "7=a"), ("value and negated", "7~8"), ("variable and negated", "=a~8"))},
    "+retrieval unbound": {"+retrieval": ("wft", {"e": "=x"})}, "+retrieval negated unbound": {"+retrieval": ("wft", {"e": "~=x"})}, "+retrieval two values": {"+retrieval": ("wft", {"e": "7=a"})},
    "+visual_location unbound": {"+visual_location": ("_visuallocation", {"value": "=x"})}, "+visual_location negated unbound": {"+visual_location": ("_visuallocation", {"screen_x": "~=x"})},
    **{f"+manual {c}": {"+manual": ("_manual", c)} for c in ({"cmd": "hit", "key": "A"}, {"cmd": "press_key", "key": "AB"}, {"cmd": "press_key", "key": "="[:0] + "ENTER"}, {"cmd": "press_key", "key": "=x"}, {"cmd": "press_key", "key": "~A"}, {"cmd": "Press_Key", "key": "A"}, {"cmd": "PRESS_KEY", "key": "A"}, {"key": "A"}, {"cmd": "press_key"}, {})},
    **{f"+visual {c}": {"+visual": ("_visual", c)} for c in ({"cmd": "look"}, {"cmd": "move_attention"}, {"cmd": "move_attention", "screen_pos": "here"}, {"cmd": "move_attention", "screen_pos": "=x"}, {"cmd": "~clear"}, {"screen_pos": "=a"}, {"cmd": "Clear"}, {"cmd": "CLEAR"}, {"cmd": "Move_Attention", "screen_pos": "=a"}, {})},
}
BESIDE = {"nothing": {}, "=g": {"=g": ("wgt", {"k": "5"})}, "~h": {"~h": None}, "press": {"+manual": ("_manual", {"cmd": "press_key", "key": "A"})}, "retrieve": {"+retrieval": ("wft", {"e": "x"})}}


def bounds(tier):
    return {"ill-formed calls": NAMES, "contents": len(CONTENTS), "pairs of calls": tier != "quick", "ill-formed conditions": list(CONDITIONS), "ill-formed actions": list(ACTIONS), "beside": list(BESIDE), "rules before": [0, 1, 2]}


def cases(tier):
    for c in NAMES:
        for s in range(len(CONTENTS)):
            yield ("call", (c,), s)
    if tier != "quick":
        for c in itertools.product(NAMES, repeat=2):
            yield ("call", c, len(CONTENTS) - 1)
    for a in list(CONDITIONS) + list(ACTIONS):
        for before in (0, 1, 2):
            for b in BESIDE:
                for s in (0, 7):
                    yield ("run", a, before, b, s)


def build(content, rules):
    env = actr.Environment(focus_position=(10, 20))
    m = actr.ACTRModel(environment=env, emma_noise=False, decay=.4, subsymbolic=True, partial_matching=True, retrieval_threshold=-9)
    v, l = m.visualBuffer("visual", "visual_location", m.decmem)
    m.set_goal("h", .02)
    m.set_similarities("x", "z", -.5)
    m.decmem.add(simrun.mk({"e": "x", "f": "y"}, "wft"), -1)
    goal, full, memory = CONTENTS[content]
    m.goals["g"].add(simrun.mk({"k": "0", "a": "p"}, "wgt"))
    m.productions = m.set_productions(*rules)
    if goal:
        m.goals["h"].add(simrun.mk({"k": "8"}, "wgt"))
    if full:
        m.retrieval.add(simrun.mk({"e": "u"}, "wft"))
        v.add(actr.chunks.Chunk("_visual", cmd="move_attention", value="W"))
        l.add(actr.chunks.Chunk("_visuallocation", screen_x="5", screen_y="6"), None)
    if memory:
        m.decmem.add(simrun.mk({"e": "z"}, "wft"), [-3, -2])
    return m, env


def snapshot(m, env):
    return {"goals": {n: (simrun.content(b), b.delay) for n, b in m.goals.items()}, "retrievals": {n: (simrun.content(b), b.finst) for n, b in m.retrievals.items()},
            "visual": {n: simrun.content(b) for n, b in m.visbuffers.items()}, "memories": {n: simrun.dm_content(d) for n, d in m.decmems.items()},
            "rules": {r: (m.productions[r]["utility"], m.productions[r]["reward"]) for r in m.productions}, "parameters": copy.deepcopy(m.model_parameters), "focus": tuple(env.current_focus),
            "types": (set(actr.chunks.Chunk._chunktypes), {t: actr.chunks.Chunk._chunktypes[t]._fields for t in ("wgt", "wft", "_visual", "_manual", "_visuallocation")}), "activations": [dict(d.activations) for d in m.decmems.values()], "similarities": dict(actr.chunks.Chunk._similarities), "defaults": copy.deepcopy(actr.ACTRModel.MODEL_PARAMETERS)}


SCREEN = [{"o": {"text": "A", "position": (100, 100), "vis_delay": 4}}]


def go(m, env):
    w = simrun.TraceWriter()
    sim = m.simulation(gui=False, environment_process=env.environment_process, stimuli=SCREEN, triggers="", times=9)
    err = None
    with contextlib.redirect_stdout(w):
        try:
            sim.run(UNTIL)
        except Exception as e:
            err = e
    return w, err


def good():
    return [frule("r0", G, {"=g": ("wgt", {"k": "1"}), "+retrieval": ("wft", {"e": "q"})}), frule("r1", {"=g": ("wgt", {"k": "1"})}, {"=g": ("wgt", {"k": "2"}), "+h": ("wgt", {"k": "9"})})]


def run_case(case, ctx):
    if case[0] == "call":
        _, calls, s = case
        m, env = build(s, good())
        before = snapshot(m, env)
        for c in calls:
            try:
                r = CALLS[c](m, env)
            except Exception as e:
                ctx.outcome(type(e).__name__)
            else:
                ctx.bad("accepted", f"{c} is not refused, it returns {r!r}")
                return
            after = snapshot(m, env)
            if after != before:
                k = next(k for k in before if before[k] != after[k])
                ctx.bad("changed", f"{c} is refused, but {k} was {before[k]} and is now {after[k]}")
                return
        w, err = go(m, env)
        w2, _ = go(*build(s, good()))
        ctx.ran(2)
        ctx.step(len(w.events))
        ctx.state((calls, s))
        if err or w.events != w2.events:
            ctx.bad("run", f"after {calls} was refused, the model runs differently: {err!r}, {w.events} instead of {w2.events}")
        return
    _, what, before, beside, s = case
    rules = [frule(f"b{i}", {"=g": ("wgt", {"k": str(i), "a": "=a"})}, {"=g": ("wgt", {"k": str(i + 1)})}) for i in range(before)]
    lhs = {"=g": ("wgt", {"k": str(before), "a": "=a"})}
    rhs = dict(BESIDE[beside])
    if what in CONDITIONS:
        mine = dict(lhs), {**lhs, **CONDITIONS[what]}
        ill, well = frule("ill", mine[1], rhs), None
    else:
        act = ACTIONS[what]
        if {k[1:] for k in act} & {k[1:] for k in rhs}:
            return
        if any(k[0] in "=*@" and k[1:] != "g" for k in act) and s == 0:
            return              # there is nothing to modify
        ill, well = frule("ill", lhs, {**rhs, **act}), frule("ill", lhs, rhs)
    m, env = build(s, rules + [ill])
    m.retrieval.finst = 0
    w, err = go(m, env)
    ctx.ran(2)
    ctx.step(len(w.events))
    ctx.state(case)
    if not isinstance(err, Exception) or type(err).__name__ != "ACTRError":
        ctx.bad("silent", f"{what} beside {beside}: the run ends with {err!r} instead of ACTRError; {w.events[-4:]}")
        return
    m2, env2 = build(s, rules + ([well] if well else []))
    w2, err2 = go(m2, env2)
    want = w2.events
    if any(e not in want and not e[2].endswith("CLEARED") and e[1] not in ("manual", "visual") and "RETRIEV" not in e[2] for e in w.events):
        ctx.bad("events", f"{what} beside {beside}: events {w.events}, without the ill-formed part {want}")
        return
    fired = next((t for t, _, a in w.events if a == "RULE FIRED: ill"), None)
    end = w.events[-1][0] if w.events else 0
    due = None if fired is None else fired + (.02 if what[:2] in ("+h", "*h") else 0)
    ctx.outcome("while tested" if fired is None else "while fired")
    if well and (fired is None or end > due + 1e-6):
        ctx.bad("time", f"{what} beside {beside}: fired at {fired}, last event {w.events[-1:]}")
        return
    if not well and (fired is not None or abs(end - .05 * before) > 1e-6 and end > 0):
        ctx.bad("time", f"{what}: last event {w.events[-1:]}, fired at {fired}")
        return
    # no chunk gets lost: modified buffers hold what they held, set ones hold it or memory got it
    if well and what[0] in "=*@":
        b = what.split()[0][1:]
        buf, buf2 = (m.retrieval, m2.retrieval) if b == "retrieval" else (m.goals[b], m2.goals[b])
        keep = (("a", "p"), ("k", str(before))) if b == "g" else (("k", "8"),) if b == "h" else (("e", "u"),)
        if simrun.content(buf) != keep:
            ctx.bad("content", f"{what} beside {beside}: {b} holds {simrun.content(buf)} instead of {keep}")
    elif well:
        have = [simrun.content(b) for b in (*m.goals.values(), m.retrieval, *m.visbuffers.values())] + list(simrun.dm_content(m.decmem))
        for c in ((("a", "p"), ("k", str(before))),) + (((("k", "8"),), (("e", "u"),)) if s else ()):
            if c not in have and beside != "=g":
                ctx.bad("lost", f"{what} beside {beside}: {c} is neither in a buffer nor in memory: {have}")


def final(total, tier):
    if not {"while tested", "while fired"} <= set(total.outcomes):
        yield "vacuous", f"{total.outcomes}"
