"""C26 one model, several simulations: a later one runs as that of a new model with the same contents."""
import contextlib
import gc
import itertools

from mc import simrun
from mc.simrun import actr, frule

ID = "C26"
LEVEL = "model_checking"
RULE = ("every program of two rules (thorough: three), one action each, over an alphabet of actions of all modules, x module settings; the first simulation is cut between every two events, "
        "the second one runs on from what was left or from a reset goal; its events, screens and final state are compared with those of a newly built model with the same contents; state = distinct (program, cut)")
ASSUMPTIONS = ["the second simulation is created after the first one was left", "where the eyes and the attention are, what was remembered as recently retrieved or attended, and whether automatic buffering is stopped, are given to the new model as well"]
CHUNK = 4
UNTIL = 1.6

actr.chunktype("rgt", "k a")
actr.chunktype("rht", "c d")
actr.chunktype("rft", "e f")
LOC = {"screen_x": "300", "screen_y": "200"}
ACTIONS = {
    "nothing": {}, "+h": {"+h": ("rht", {"c": "x"})}, "*h": {"*h": ("rht", {"d": "y"})}, "~h": {"~h": None},
    "retrieve": {"+retrieval": ("rft", {"e": "x"})}, "fail": {"+retrieval": ("rft", {"e": "zz"})},
    "press": {"+manual": ("_manual", {"cmd": "press_key", "key": "A"})}, "press 5": {"+manual": ("_manual", {"cmd": "press_key", "key": "5"})},
    "look": {"+visual_location": ("_visuallocation", {"value": "B"})}, "look for nothing": {"+visual_location": ("_visuallocation", {"value": "C"})},
    "shift": {"+visual": ("_visual", {"cmd": "move_attention", "screen_pos": "=a"})}, "shift again": {"+visual": ("_visual", {"cmd": "move_attention", "screen_pos": "=a"})}, "stop": {"+visual": ("_visual", {"cmd": "clear"})},
}
NAMES = list(ACTIONS)
SETTINGS = {
    "symbolic, own visual buffers": dict(visual=True, start=0, par={}),
    "late screen": dict(visual=True, start=.12, par={}),
    "very late screen": dict(visual=False, start=.5, par=dict(motor_prepared=True, emma=False)),
    "subsymbolic, learning, compiling": dict(visual=False, start=0, par=dict(subsymbolic=True, retrieval_threshold=-4, latency_factor=.05, decay=.3, utility_learning=True, production_compilation=True, strict_harvesting=True)),
}
SCREENS = [{"o": {"text": "A", "position": (100, 100), "vis_delay": 4}, "p": {"text": "B", "position": (300, 200), "vis_delay": 6}}, {"p": {"text": "B", "position": (300, 202), "vis_delay": 4}, "q": {"text": "D", "position": (302, 200), "vis_delay": 4}}]
# rules wait for the modules they use: a module that stayed busy or in error is seen
WAITS = {"+h": "h", "*h": "h", "retrieve": "retrieval", "fail": "retrieval", "press": "manual", "press 5": "manual", "look": "visual_location", "shift": "visual", "shift again": "visual", "stop": "visual"}
COLLECTED = ["shift", "shift again", "look", "stop", "press 5"]
QUERIES = {"*h": {"buffer": "full"}, "press 5": {"preparation": "free", "processor": "free", "execution": "free"}, "shift again": {"preparation": "free", "processor": "free", "execution": "free"}}
ERRORS = [b for b in ("retrieval", "visual_location", "visual")]


def bounds(tier):
    return {"actions": NAMES, "programs": "all pairs" + ("" if tier == "quick" else " and triples"), "settings": list(SETTINGS), "cuts": "between every two events", "garbage collection of what the first simulation left": "at every event of the second simulation, for programs of " + ", ".join(COLLECTED), "then": ["continued at the same time", "goal reset, from 0"], "until": UNTIL}


def cases(tier):
    for n in ((2,) if tier == "quick" else (2, 3)):
        for s in SETTINGS:
            for p in itertools.product(NAMES, repeat=n):
                yield (s, p)
    for s in SETTINGS:
        if SETTINGS[s]["visual"]:
            for a in COLLECTED[:3]:
                for b in COLLECTED if tier == "quick" else NAMES:
                    yield (s, (a, b), "collected")


def rules(prog):
    out = []
    for i, a in enumerate(prog):
        lhs = {"=g": ("rgt", {"k": str(i), "a": "=a"})}
        if a in WAITS:
            lhs["?" + WAITS[a]] = {"state": "free", **QUERIES.get(a, {})}
        out.append(frule(f"r{i}", lhs, {"=g": ("rgt", {"k": str(i + 1)}), **ACTIONS[a]}, utility=i, reward=3 if i == 1 else None))
        if a in WAITS and WAITS[a] in ERRORS:
            lhs = {**lhs, "?" + WAITS[a]: {"state": "error"}}
            out.append(frule(f"e{i}", lhs, {"=g": ("rgt", {"k": str(i + 1)})}, utility=-1))
    return out


def build(setting, prog):
    s = SETTINGS[setting]
    env = actr.Environment(focus_position=(0, 0))
    m = actr.ACTRModel(environment=env, emma_noise=False, **s["par"])
    if s["visual"]:
        m.visualBuffer("visual", "visual_location", m.decmem)
    m.set_goal("h", .03)
    m.set_productions(*rules(prog))
    return m, env


def first(setting, prog):
    m, env = build(setting, prog)
    start(m)
    m.goals["h"].add(simrun.mk({"c": "w"}, "rht"))
    m.decmem.add(simrun.mk({"e": "x", "f": "y"}, "rft"), time=-1)
    return m, env


def start(m):
    if m.goals["g"]:
        m.goals["g"].pop()
    m.goals["g"].add(actr.chunks.Chunk("rgt", k="0", a=actr.chunks.Chunk("_visuallocation", **LOC)))


def again(m, env, setting, prog):
    """A new model with the contents of the model m."""
    n, env2 = build(setting, prog)
    for g in m.goals:
        for c in m.goals[g]:
            n.goals[g].add(c)
    for c in m.retrieval:
        n.retrieval.add(c)
    n.retrieval.recent = type(m.retrieval.recent)(m.retrieval.recent)
    for v in m.visbuffers:
        for c in m.visbuffers[v]:
            n.visbuffers[v].add(*(c, None) if v == "visual_location" else (c,))
    if m.visbuffers:
        n.visbuffers["visual"].attend_automatic = m.visbuffers["visual"].attend_automatic
        n.visbuffers["visual_location"].recent.extend(m.visbuffers["visual_location"].recent)
    for c in m.decmem:
        for t in m.decmem[c]:
            n.decmem.add(c, time=float(t))
    have = list(n.productions)
    for r in m.productions:
        p = m.productions[r]
        if r in have:
            n.productions[r]["utility"] = p["utility"]
        else:
            n.productions.update({r: {"rule": p["rule"], "utility": p["utility"], "reward": p["reward"]}})
    env2.current_focus = list(env.current_focus)
    if m.visbuffers:
        n.visbuffers["visual"].current_focus = list(m.visbuffers["visual"].current_focus)
    return n, env2


def go(m, env, until, start_time, at=0, collect=None):
    w = simrun.TraceWriter(lambda ev: gc.collect() if len(w.events) == collect else None)
    sim = m.simulation(gui=False, initial_time=at, environment_process=env.environment_process, stimuli=SCREENS, triggers="A", times=.9, start_time=start_time)
    if until is not None:
        with contextlib.redirect_stdout(w):
            sim.run(until)
    return w


def result(m, env, w):
    return {"events": w.events, "screens": w.lines, "goals": [simrun.content(m.goals[g]) for g in ("g", "h")], "retrieval": simrun.content(m.retrieval), "visual": [simrun.content(b) for b in m.visbuffers.values()],
            "memory": simrun.dm_content(m.decmem), "rules": {r: round(m.productions[r]["utility"], 6) for r in m.productions}, "focus": tuple(env.current_focus)}


def run_case(case, ctx):
    # what is left of the first simulation is garbage-collected when the check says so, not when it happens to be
    gc.collect()
    gc.freeze()
    gc.disable()
    try:
        explore(case[0], case[1], len(case) > 2, ctx)
    finally:
        gc.enable()
        gc.unfreeze()


def explore(setting, prog, collected, ctx):
    case = (setting, prog)
    late = SETTINGS[setting]["start"]
    m, env = first(setting, prog)
    w = go(m, env, UNTIL, late)
    times = sorted({t for t, _, _ in w.events})
    cuts = [None] + [round(t + .0003, 4) for t in times]
    for _, _, what in w.events:
        ctx.outcome(what)
    for cut in cuts:
        for then in ("continued", "reset"):
            m, env = first(setting, prog)
            go(m, env, cut, late)
            if then == "reset":
                start(m)
            at = cut or 0 if then == "continued" else 0
            n, env2 = again(m, env, setting, prog)
            want = result(n, env2, go(n, env2, at + UNTIL, late, at))
            for collect in [None] + (list(range(1, len(want["events"]) + 1)) if collected else []):
                if collect:
                    m, env = first(setting, prog)
                    go(m, env, cut, late)
                    if then == "reset":
                        start(m)
                got = result(m, env, go(m, env, at + UNTIL, late, at, collect))
                ctx.ran()
                ctx.step(len(got["events"]))
                ctx.state((case, cut, then, collect))
                for k in want:
                    if got[k] != want[k]:
                        if isinstance(want[k], list):
                            d = next(((i, x, y) for i, (x, y) in enumerate(itertools.zip_longest(want[k], got[k])) if x != y))
                            d = f"entry {d[0]} is {d[2]} instead of {d[1]}"
                        else:
                            d = f"{got[k]} instead of {want[k]}"
                        ctx.bad(k, f"first simulation left at {cut}, {then} at {at}{f', its remains collected at event {collect}' if collect else ''}: {k} of the second simulation: {d}")
                        return
        gc.collect()


def final(total, tier):
    if len(total.outcomes) < 20:
        yield "vacuous", f"outcomes {dict(total.outcomes)}"
