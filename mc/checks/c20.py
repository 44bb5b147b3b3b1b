"""C20 shifts of visual attention: what is encoded, when, and where the eyes go."""
import itertools
import math

from mc import simrun
from mc.simrun import actr

ID = "C20"
LEVEL = "model_checking"
RULE = ("every sequence of shifts of attention x positions x delays of encoding x pauses or queries between them x settings, and every moment at which the attended object "
        "disappears; simulated, and every event of the visual module, its buffer, the focus and the memory compared with a reference; state = distinct (phase, objects, delays, settings)")
ASSUMPTIONS = ["times without noise; the distance enters the encoding time as implemented (in radians)", "of overlapping shifts only those are checked in which the first object is encoded before the preparation of its eye movement is complete"]
CHUNK = 10

POS = {"A": (100, 100), "B": (1350, 700), "C": (110, 100)}
FOCUS = [(0, 0), (100, 100)]
DELAYS = [None, 5, 12, 19, 22, 40, 150]
SETTINGS = [dict(), dict(emma=False), dict(eye_mvt_scaling_parameter=.02, own={"eye_mvt_angle_parameter": 2}), dict(eye_mvt_angle_parameter=2, eye_mvt_scaling_parameter=.03, own={"eye_mvt_scaling_parameter": .02}), dict(rule_firing=.03), dict(size=(1366, 768), simulated_screen_size=(30, 17), viewing_distance=70)]
SCREEN = ("size", "simulated_screen_size", "viewing_distance")      # settings of the environment; own: of the visual buffer; the others are parameters of the model
OTHERS = {f"z{x}{y}": {"text": "Z", "position": (POS[x][0], POS[y][1]), "vis_delay": 9} for x, y in ("AB", "BA", "CB")}        # never attended, in line with those that are
EXTRA = {"B": {"color": "red", "size": 0, "visual_typename": "mcvisual"}}       # a feature of the object that only the visual buffer sees
actr.chunktype("mcvisual", "cmd, value, screen_pos, color, size")
GAPS = [("processor", 0), (None, 0), (None, 1), (None, 2), (None, 3), ("execution", 0), ("processor", 2)]

ENDS = [(None, "processor"), (0, "processor"), (0, "preparation"), (1, "processor"), (1, "preparation")]      # (cycles before the command clear, what the last rule waits for)


def bounds(tier):
    return {"objects": POS, "focus": FOCUS, "vis_delay": DELAYS, "settings": SETTINGS, "between shifts": GAPS, "shifts": "1 and 2" + ("" if tier == "quick" else " and 3"),
            "after the shifts": ENDS, "disappearing": "after 17 different times"}


def cases(tier):
    for t in "ABC":
        for d in range(len(DELAYS)):
            yield ("seq", t, (d,))
    for t in itertools.product("ABC", repeat=2):
        for d in itertools.product(range(len(DELAYS)) if tier != "quick" else (0, 1, 2, 4, 6), repeat=2):
            yield ("seq", "".join(t), d)
    if tier != "quick":
        for t in itertools.product("ABC", repeat=3):
            for d in itertools.product((0, 2, 4, 6), repeat=3):
                yield ("seq", "".join(t), d)
    for d in range(len(DELAYS)):
        for k in range(17):
            yield ("gone", d, k)


def rd(x):
    return round(x, 4)


def angle(a, b, env):
    return math.atan2(math.dist(a, b) / (env.size[0] / env.simulated_screen_size[0]), env.viewing_distance)


def plan(focus, target, delay, setting, env):
    """(encoding, preparation, execution, encoding left after the eyes have landed)."""
    if not setting.get("emma", True):
        return .085, 0, .085, None
    setting = dict(setting, **setting.get("own", {}))
    K, k = setting.get("eye_mvt_scaling_parameter", .01), setting.get("eye_mvt_angle_parameter", 1)
    ang = angle(focus, target, env)
    enc = K * delay * math.exp(k * ang) if delay else 0
    exe = .07 + .002 * math.degrees(ang)
    left = (1 - (.135 + exe) / enc) * K * delay if enc > .135 + exe else None
    return enc, .135, exe, left


def obj(t, delay):
    o = dict(EXTRA.get(t, {}), text=t, position=POS[t])
    if delay is not None:
        o["vis_delay"] = delay
    return o


def seen(t):
    d = {"cmd": "move_attention", "screen_pos": (("screen_x", str(POS[t][0])), ("screen_y", str(POS[t][1]))), "value": t}
    d.update({k: str(v) for k, v in EXTRA.get(t, {}).items() if k != "visual_typename"})
    return tuple(sorted(d.items()))


def rules_for(targets, gap, clear=False, end=(None, "processor")):
    rules = []
    k = 0

    def add(lhs, rhs, gate=None):
        nonlocal k
        d = {"=g": ("mcn", {"k": str(k)})}
        d.update(lhs)
        if gate:
            d["?visual"] = {gate: "free"}
        r = {"=g": ("mcn", {"k": str(k + 1)})}
        r.update(rhs)
        rules.append(simrun.frule(f"r{k}", d, r))
        k += 1
    if clear:
        add({}, {"+visual": ("_visual", {"cmd": "clear"})})
    at = []
    for i, t in enumerate(targets):
        gate, idle = gap
        for _ in range(idle if i else 0):
            add({}, {})
        add({}, {"+vl": ("_visuallocation", {"value": t})}, gate if i else None)
        at.append(k)
        add({"=vl": ("_visuallocation", {})}, {"=vl": ("_visuallocation", {}), "+visual": ("_visual", {"cmd": "move_attention", "screen_pos": "=vl"})})
    if end[0] is not None:
        for _ in range(end[0]):
            add({}, {})
        add({}, {"+visual": ("_visual", {"cmd": "clear"})})
    add({}, {}, end[1])
    return rules, at


def sequence(targets, delays, focus, gap, setting, end, ctx):
    env = actr.Environment(focus_position=focus, **{k: v for k, v in setting.items() if k in SCREEN})
    m = actr.ACTRModel(environment=env, emma_noise=False, automatic_visual_search=False, **{k: v for k, v in setting.items() if k not in SCREEN and k != "own"})
    vis, vl = m.visualBuffer("visual", "vl", m.decmem)
    vis.stop_automatic_buffering()
    vis.model_parameters.update(setting.get("own", {}))
    actr.chunktype("mcn", "k")
    m.goal.add(actr.chunks.Chunk("mcn", k="0"))
    rules, at = rules_for(targets, gap, end=end)
    m.set_productions(*rules)
    # a chunk differing only in its delay: the last object of each name counts, so give each target its own delay
    screen = {f"s{t}": obj(t, d) for t, d in zip(targets, delays)}
    screen.update(OTHERS)
    hist = []

    def on_event(e):
        hist.append((e, simrun.content(vis), tuple(env.current_focus), simrun.dm_content(m.decmem)))
    events, _, _ = simrun.simulate(m, 16, on_event, environment_process=env.environment_process, stimuli=[screen], triggers="", times=100)
    ctx.ran()
    ctx.step(len(events))
    fired = {int(a[len("RULE FIRED: r"):]): t for t, _, a in events if a.startswith("RULE FIRED")}
    # reference
    exp, encodings, moves = [], [], []
    last_mvt = 0
    free = ready = 0
    lastr = len(rules) - 1
    foc = [(0, tuple(focus))]
    starts = [fired.get(i) for i in at]
    if None in starts:
        return "incomplete", f"{fired}"
    if end[0] is not None:
        stopped = fired.get(lastr - 1)
        if stopped is None:
            return "incomplete", f"{fired}"
        exp.append((stopped, "VISUAL STOPPED FROM AUTOMATIC BUFFERING AT ITS CURRENT FOCUS"))
        starts.append(stopped)               # cancels a movement that is being prepared just as another shift does
    for i, (t, r) in enumerate(zip(targets, starts)):
        nxt = starts[i + 1] if i + 1 < len(starts) else None
        where = [p for x, p in foc if x <= r][-1]
        if any(x == r for x, _ in foc[1:]):
            return None
        enc, prep, exe, left = plan(where, POS[t], screen[f"s{t}"].get("vis_delay"), setting, env)
        exp.append((r, "PREPARATION TO SHIFT VISUAL ATTENTION STARTED"))
        if nxt is not None and nxt <= rd(r + prep + exe + (left or 0)):
            # overlapping
            if enc > prep or nxt in (rd(r + prep), rd(r + enc)) or not setting.get("emma", True):
                return None
            if enc <= prep and rd(r + enc) < nxt:
                encodings.append((rd(r + enc), t))
            if nxt < r + prep:
                ctx.outcome("movement cancelled")
                ready = nxt
                continue
            ctx.outcome("movement continues")
        elif left is None:
            encodings.append((rd(r + enc), t))
        exp.append((rd(r + prep), "PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED"))
        begin = max(r + prep, last_mvt)
        ready = r + prep
        last_mvt = begin + exe
        exp.append((rd(last_mvt), f"SHIFT COMPLETE TO POSITION: {list(POS[t])}"))
        foc.append((rd(last_mvt), POS[t]))
        foc.sort()
        free = max(free, last_mvt)
        if left is not None:
            encodings.append((rd(last_mvt + left), t))
            free = max(free, last_mvt + left)
        ctx.outcome("before movement" if enc <= prep else "during movement" if left is None else "after movement")
    encodings.sort()
    for x, t in encodings:
        exp += [(x, "CLEARED"), (x, "ENCODED " + t)]
    obs = [(t, "ENCODED " + a.split("value= ")[-1][0] if a.startswith("ENCODED VIS OBJECT") else a) for t, mod, a in events if mod == "visual"]
    if sorted(obs) != sorted(exp):
        return "events", f"unexpected {sorted(set(obs) - set(exp))}, missing {sorted(set(exp) - set(obs))}; {obs}"
    # content of the buffer, focus and memory at every event
    for (t, mod, a), buf, fc, dm in hist:
        ok = set()
        for eps in (-2e-4, 2e-4):
            ok.add(next((seen(x) for y, x in reversed(encodings) if y <= t + eps), None))
        if any(abs(y - t) < 2e-4 for y, _ in encodings):      # cleared, and set again, at the same moment
            ok.add(None)
        okf = {[p for x, p in foc if x <= t + eps][-1] for eps in (-1e-6, 1e-6) if t + eps >= 0}
        if buf not in ok or fc not in okf:
            return "content", f"at {t} ({a}): buffer {buf}, focus {fc}, expected {ok} and {okf}"
        ctx.state((targets, delays, setting, buf, fc, round(t, 2)))
        left_ = [(y, x) for j, (y, x) in enumerate(encodings)]
        want = {}
        for (y0, x0), (y1, _) in zip(left_, left_[1:]):
            want.setdefault(seen(x0), []).append(y1)
        got = {k: list(v) for k, v in dm.items() if dict(k).get("cmd")}
        if any(got.get(k, []) not in ([y for y in v if y < t - 1e-6], [y for y in v if y <= t]) for k, v in want.items()) or set(got) - set(want):
            return "memory", f"at {t} ({a}): memory {got}, expected {want} up to now"
    until = max(ready if end[1] == "preparation" else free, starts[-1])
    if lastr not in fired:
        return end[1], f"the {end[1]} never gets free: {events[-3:]}"
    if abs(fired[lastr] - rd(until + setting.get("rule_firing", .05))) > 2e-4:
        return end[1], f"the rule waiting for the {end[1]} fired at {fired[lastr]}, expected {rd(until + setting.get('rule_firing', .05))}"
    return None


def gone(delay, k, ctx):
    """The attended object disappears after some time; automatic buffering is stopped with the command 'clear'."""
    when = [.03, .07, .12, .17, .2, .22, .26, .29, .31, .35, .4, .5, .6, .7, .9, 1.3, 1.7][k]
    for setting in SETTINGS[:2]:
        env = actr.Environment(focus_position=(0, 0))
        m = actr.ACTRModel(environment=env, emma_noise=False, automatic_visual_search=False, **setting)
        vis, vl = m.visualBuffer("visual", "vl", m.decmem)
        actr.chunktype("mcn", "k")
        m.goal.add(actr.chunks.Chunk("mcn", k="0"))
        rules, at = rules_for("A", (None, 0), clear=True)
        rules += [simrun.frule("err" + k_, {"=g": ("mcn", {"k": k_}), "?visual": {"state": "error"}}, {"=g": ("mcn", {"k": "e"})}, utility=10) for k_ in "34"]
        m.set_productions(*rules)
        first, second = {"sA": obj("A", DELAYS[delay])}, {"sB": obj("B", None)}
        events, _, _ = simrun.simulate(m, 5, None, environment_process=env.environment_process, stimuli=[first, second], triggers="", times=[when, 100])
        ctx.ran()
        ctx.step(len(events))
        enc, prep, exe, left = plan((0, 0), POS["A"], DELAYS[delay], setting, env)
        req = .15
        found = when > .1
        obs = [(t, a) for t, mod, a in events if mod == "visual"]
        ctx.state(("gone", delay, k, setting))
        if not found:
            if any("ENCODED" in a for _, a in obs):
                ctx.bad("gone", f"object displayed until {when} was encoded although it was never found: {obs}")
            continue
        done = rd(req + enc) if left is None else rd(req + prep + exe + left)
        decided = req if left is None or when <= req else rd(req + prep + exe)      # nothing can be encoded if the object is gone then
        if when <= decided:
            ctx.outcome("gone")
            ok = [(decided, "ENCODED VIS OBJECT:'None'")] == [x for x in obs if "ENCODED" in x[1]] and any(a.startswith("RULE FIRED: err") for _, _, a in events)
            if not ok or simrun.content(vis) is not None:
                ctx.bad("gone", f"object displayed until {when}, attended at {req}: expected an error at {decided}; {obs}, buffer {simrun.content(vis)}")
        else:
            ctx.outcome("still there")
            if [x for x in obs if "ENCODED" in x[1]] != [x for x in obs if x[0] == done and "value= A" in x[1]] or simrun.content(vis) != seen("A"):
                ctx.bad("gone", f"object displayed until {when}, attended at {req}: expected encoding at {done}; {obs}, buffer {simrun.content(vis)}")


def run_case(case, ctx):
    if case[0] == "gone":
        gone(case[1], case[2], ctx)
        return
    _, ts, ds = case
    delays = [DELAYS[i] for i in ds]
    if len(set(ts)) < len(ts) and len(set(zip(ts, delays))) != len(set(ts)):
        return
    for focus in FOCUS:
        for setting in SETTINGS:
            for gap in GAPS if len(ts) == 2 else GAPS[:1]:
                if gap[0] == "execution" and len(ts) > 1:
                    continue
                for end in ENDS if len(ts) == 2 and gap in (GAPS[2], GAPS[4], GAPS[6]) else ENDS[:1]:
                    r = sequence(ts, delays, focus, gap, setting, end, ctx)
                    if r:
                        ctx.bad(r[0], f"attending to {ts}, delays {delays}, focus {focus}, between {gap}, at the end {end}, {setting}: {r[1]}")
                        return


def final(total, tier):
    if len(total.outcomes) < 7:
        yield "vacuous", f"{total.outcomes}"
