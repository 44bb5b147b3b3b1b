"""C21 new screens: automatic search of the visual location buffer, automatic buffering at the focus."""
import itertools
import math

from mc import simrun
from mc.simrun import actr

ID = "C21"
LEVEL = "model_checking"
RULE = ("every sequence of screens from a list of layouts x durations x what the rules do (nothing, stop buffering, attend to an object, find one, harvest) x remembered objects, focus, size and "
        "parameters; simulated, and every event of the visual modules, their buffers, the focus, the memory and rules waiting for them compared with a reference; state = distinct (screens, program, buffers, remembered objects)")
ASSUMPTIONS = ["if several objects are equally close, or several are in the foveal region, any of them may be found or buffered", "of screens that change at the very moment of another event of vision, only that nothing crashes or waits forever", "times without noise; attention moves to an object when it is encoded, the eyes when they land; automatic buffering takes the time of EMMA with twice the angle, as implemented"]
CHUNK = 20

OBJ = {
    "a": {"text": "A", "position": (100, 100), "vis_delay": 5, "color": "red", "externally_visible": ["color"]},
    "b": {"text": "B", "position": [108, 95], "vis_delay": 3},
    "c": {"text": "b", "position": (105.0, 100), "color": "blue"},
    "d": {"text": "D", "position": (300, 100), "vis_delay": 5},
    "e": {"text": "B", "position": (111, 100), "vis_delay": 3},
    "f": {"text": "A", "position": (112, 100)},
    "h": {"text": "H", "position": (304, 101), "vis_delay": 4},
    "g": {"position": (100, 90), "vis_delay": 2},
    "i": {"text": "I", "position": (300, 100), "vis_delay": 2},     # at the position of d
}
LAYOUTS = ["", "a", "b", "d", "g", "ab", "ba", "ad", "da", "ce", "df", "bf", "gd", "aed", "h", "i"]
FEW = ["", "b", "ad", "ba", "ce", "gd", "h"]
PROGS = ["none", "watch", "stop", "find D", "clear", "attend D", "stop, attend D"]
SETTINGS = [dict(), dict(automatic_visual_search=False), dict(emma=False), dict(eye_mvt_scaling_parameter=.05, eye_mvt_angle_parameter=2)]
FINST = [4, 0, 1]
FOCUS = [(100, 100), (290.0, 105)]
SIZES = [((640, 360), (50, 28), 50), ((1366, 768), (50, 28), 50), ((640, 360), (30, 17), 72)]        # pixels, centimetres, viewing distance
DUR = [(1.01,), (.013,), (.033, 1.01)]


OFF = [-40, -27, -26, -24, -23, -18, -12, -11, -5, 0, 5, 11, 12, 18, 23, 24, 26, 27, 40]
for f_, dx_, dy_ in itertools.product(range(len(FOCUS)), OFF, OFF):        # objects around the positions looked at
    OBJ[f_, dx_, dy_] = {"text": "O", "position": (FOCUS[f_][0] + dx_, FOCUS[f_][1] + dy_), "vis_delay": 1 + abs(dx_ + dy_) % 7}


def bounds(tier):
    return {"layouts": LAYOUTS, "around the focus": f"all {len(OFF) ** 2} offsets from {OFF}", "screens": "all pairs of all layouts, all triples of seven" + (" (two settings)" if tier == "quick" else ", all triples with the first two from seven layouts, all sequences of four of seven"), "programs": PROGS, "settings": SETTINGS, "remembered": FINST,
            "focus": FOCUS, "size, size in cm, viewing distance": SIZES, "durations": DUR, "screen changing during a shift": "after 12 different times, and at 10 moments of other events"}


def cases(tier):
    for f in range(len(FOCUS)):
        for dx in OFF:
            yield ("around", f, dx)
    for p in PROGS:
        for x in LAYOUTS:
            for y in LAYOUTS:
                if not ("attend" in p and "i" in (x, y)):       # i is where the rules that attend to d expect d
                    yield ("screens", p, (x, y), False)
        for x in itertools.product(FEW, repeat=3):
            yield ("screens", p, x, tier == "quick")
        if tier != "quick":
            for x in itertools.product(FEW, FEW, LAYOUTS):
                yield ("screens", p, x, False)
            for x in itertools.product(FEW, repeat=4):
                yield ("screens", p, x, False)
    for k in range(12):
        for x in ("d", "da", "b", ""):
            yield ("shift", k, x)
    for x in itertools.product(("d", "da", "b", "", "h"), repeat=2):
        yield ("moment", *x)


def rd(x):
    return round(x, 4)


def posn(o):
    return int(o["position"][0]), int(o["position"][1])


def foveal(size):
    return size[0][0] / size[1][0] * math.tan(math.radians(1)) * size[2]


def angle(a, b, size):
    return math.atan2(math.dist(a, b) / (size[0][0] / size[1][0]), size[2])


def loc(o):
    d = {"screen_x": str(posn(o)[0]), "screen_y": str(posn(o)[1])}
    for f in o.get("externally_visible", []):
        d[f] = o[f]
    return tuple(sorted(d.items()))


def seen(o, cmd=None):
    d = {"screen_pos": loc(o)}
    if o.get("text"):
        d["value"] = o["text"]
    if cmd:
        d["cmd"] = cmd
    if "color" in o:
        d["color"] = o["color"]
    return tuple(sorted(d.items()))


def content(buf):
    """An object without text has an empty value, or none."""
    c = simrun.content(buf)
    return c and tuple(x for x in c if x[1] != "")


def encoding(o, focus, size, setting, times=2):
    K, k = setting.get("eye_mvt_scaling_parameter", .01), setting.get("eye_mvt_angle_parameter", 1)
    return K * o["vis_delay"] * math.exp(k * times * angle(focus, o["position"], size)) if o.get("vis_delay") else 0


def program(prog):
    """(rules, wait) of a program."""
    G = lambda k: {"=g": ("mco", {"k": str(k)})}
    LOC, VIS = ("_visuallocation", {"value": "D"}), ("_visual", {"cmd": "clear"})
    shift = {"+visual": ("_visual", {"cmd": "move_attention", "screen_pos": "=visual_location"})}
    out = []

    def seq(*pairs):
        for i, (lhs, rhs) in enumerate(pairs):
            out.append(simrun.frule(f"r{i}", {**G(i), **lhs}, {**G(i + 1), **rhs}))
    if prog == "stop":
        seq(({}, {"+visual": VIS}))
    elif prog == "find D":
        seq(({}, {"+visual_location": LOC}))
    elif prog == "clear":
        seq(({}, {"~visual_location": None}))
    elif prog == "attend D":
        seq(({}, {"+visual_location": LOC}), ({"=visual_location": ("_visuallocation", {"screen_x": "300"})}, shift))
    elif prog == "stop, attend D":
        seq(({}, {"+visual": VIS}), ({}, {"+visual_location": LOC}), ({"=visual_location": ("_visuallocation", {"screen_x": "300"})}, shift))
    elif prog == "watch":
        out.append(simrun.frule("watch", {"=g": ("mco", {"k": "0"}), "=visual_location": ("_visuallocation", {"screen_x": "=x"}), "?visual_location": {"state": "free"}}, {"=g": ("mco", {"k": "=x"})}))
    return out


def model(prog, setting, finst, focus, size):
    env = actr.Environment(focus_position=focus, size=size[0], simulated_screen_size=size[1], viewing_distance=size[2])
    m = actr.ACTRModel(environment=env, emma_noise=False, **setting)
    vis, vl = m.visualBuffer("visual", "visual_location", m.decmem, finst)
    actr.chunktype("mco", "k")
    m.goal.add(actr.chunks.Chunk("mco", k="0"))
    m.set_productions(*program(prog))
    return env, m, vis, vl


def screens(prog, layouts, durs, setting, finst, focus, size, ctx):
    env, m, vis, vl = model(prog, setting, finst, focus, size)
    scr = [{n: OBJ[n] for n in l} for l in layouts]
    times = [durs[min(i, len(durs) - 1)] for i in range(len(scr))]
    starts = [sum(times[:i]) for i in range(len(scr))]
    # the reference: a list of things that happen, in time order
    agenda = [(s, "screen", i) for i, s in enumerate(starts)]
    nothing = .05
    if prog == "stop":
        agenda.append((.05, "stop"))
    elif prog == "find D":
        agenda.append((.05, "find"))
    elif prog == "clear":
        agenda.append((.05, "clear vl"))
    elif prog in ("attend D", "stop, attend D"):
        t = .05
        if prog != "attend D":
            agenda.append((t, "stop"))
            t = rd(t + .05)
        agenda.append((t, "find"))
        agenda.append((rd(t + .05), "shift"))
    agenda.sort()
    V = L = None
    recent, mem, foc, auto = [], {}, tuple(focus), True
    shown, want = {}, []          # want: (time, module, kind, acceptable contents)
    pending = None                # automatic buffering: (time, acceptable objects)
    attending = None

    def remember(n):
        recent.append(OBJ[n])
    waiting = False
    while agenda or pending:
        if pending and (not agenda or pending[0] <= agenda[0][0]):
            t, names = pending
            if agenda and abs(t - agenda[0][0]) < 1e-6:
                return None
            pending = None
            if len(names) > 1:
                ctx.outcome("several foveal")
            want.append((t, "visual", "AUTOMATIC BUFFERING", tuple(seen(OBJ[n]) for n in names)))
            V = {n: seen(OBJ[n]) for n in names}
            continue
        t, what, *x = agenda.pop(0)
        if what == "screen":
            if attending and t < attending[1]:
                return None                      # checked in shift()
            shown = scr[x[0]]
            if setting.get("automatic_visual_search", True):
                new = [n for n, o in shown.items() if not finst or o not in recent[-finst:]]
                if new:
                    best = min(math.dist(foc, posn(OBJ[n])) for n in new)
                    names = [n for n in new if math.dist(foc, posn(OBJ[n])) < best + 1e-9]
                    if len(names) > 1:
                        return None
                    L = loc(OBJ[names[0]])
                    remember(names[0])
                    if waiting and names[0] == "d":
                        if any(t < s < t + .0501 for s in starts):
                            return None
                        agenda.append((rd(t + .05), "shift"))
                        agenda.sort()
                    want.append((t, "visual_location", "ENCODED LOCATION", (L,)))
                    ctx.outcome("found")
                else:
                    ctx.outcome("nothing new" if shown else "nothing shown")
            pending = None
            if auto:
                d = foveal(size)
                near = [n for n, o in shown.items() if abs(posn(o)[0] - foc[0]) < d and abs(posn(o)[1] - foc[1]) < d and (V is None or all(dict(v).get("value", "") != o.get("text", "") for v in V.values()))]
                if V is not None and len(V) > 1 and len(shown) > 0:
                    return None                  # depends on which one was buffered
                ctx.outcome(("near", len(near) > 0))
                if near:
                    if len({rd(encoding(OBJ[n], foc, size, setting)) for n in near}) > 1:
                        return None
                    pending = (rd(t + encoding(OBJ[near[0]], foc, size, setting)), near)
        elif what == "stop":
            if pending is not None:
                ctx.outcome("stopped while buffering")
                pending = None
            auto = False
            want.append((t, "visual", "VISUAL STOPPED", None))
        elif what == "clear vl":
            if L is not None:
                mem.setdefault(L, []).append(t)
            L = None
            want.append((t, "visual_location", "CLEARED", None))
        elif what == "find":
            if "d" in shown:
                if L is not None:
                    mem.setdefault(L, []).append(t)
                L = loc(OBJ["d"])
                remember("d")
                want.append((t, "visual_location", "CLEARED", None))
                want.append((t, "visual_location", "ENCODED LOCATION", (L,)))
            else:
                want.append((t, "visual_location", "ENCODED LOCATION", "none"))
        elif what == "shift":
            if L is None or dict(L)["screen_x"] != "300":
                waiting = True                   # the rule applies when an object is found there
                continue
            waiting = False
            if "d" not in shown:
                return None
            pending = None
            enc = encoding(OBJ["d"], foc, size, setting, 1)
            prep, exe = .135, .07 + .002 * math.degrees(angle(foc, OBJ["d"]["position"], size))
            if not setting.get("emma", True):
                enc, prep, exe = .085, 0, .085
            end = done = t + prep + exe
            if enc > prep + exe:                 # the rest of the encoding, from the new focus
                done = end + (1 - (prep + exe) / enc) * encoding(OBJ["d"], OBJ["d"]["position"], size, setting, 1)
                enc = done - t
                ctx.outcome("encoded after the movement")
            attending = (t, rd(max(end, done)))
            agenda += [(rd(t + enc), "encoded"), (rd(end), "landed"), (rd(done), "completed")]
            agenda.sort(key=lambda x: (x[0], ("screen", "encoded", "landed", "completed").index(x[1]) if x[1] in ("encoded", "landed", "completed") else 0))
            want.append((t, "visual", "PREPARATION TO SHIFT VISUAL ATTENTION STARTED", None))
            want.append((rd(t + prep), "visual", "PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED", None))
        elif what == "encoded":
            for v in (V or {}).values():
                mem.setdefault(v, []).append(t)
                if len(V) > 1:
                    return None
            V = {"d": seen(OBJ["d"], "move_attention")}
            want.append((t, "visual", "CLEARED", None))
            want.append((t, "visual", "ENCODED VIS", (V["d"],)))
        elif what == "landed":
            foc = posn(OBJ["d"])
            want.append((t, "visual", "SHIFT COMPLETE", None))
        elif what == "completed":
            auto = True
            ctx.outcome("attended")
        if what in ("find", "stop", "clear vl") and any(abs(t - s) < 1e-6 for s in starts):
            return None
    # now the simulation
    hist = []

    def on_event(e):
        hist.append((e, content(vis), content(vl)))
    events, _, _ = simrun.simulate(m, sum(times) + 2, on_event, environment_process=env.environment_process, stimuli=scr, triggers="", times=times)
    ctx.ran()
    ctx.step(len(events))
    got = [(t, mod, act, v if mod == "visual" else l) for (t, mod, act), v, l in hist if mod in ("visual", "visual_location")]
    key = lambda x: (rd(x[0]), x[1])
    for mod in ("visual", "visual_location"):
        g, w = [x for x in got if x[1] == mod], sorted((x for x in want if x[1] == mod), key=lambda x: rd(x[0]))
        ok = len(g) == len(w)
        for a, b in zip(g, w):
            if abs(a[0] - b[0]) > 2e-4 or not a[2].startswith(b[2]) or (b[3] == "none") != ("None" in a[2].split("'")) or (isinstance(b[3], tuple) and a[3] not in b[3]):
                return "events", f"{a}, expected {b}"
        if not ok:
            return "events", f"{g}, expected {w}"
    end = (content(vis), content(vl), simrun.dm_content(m.decmem), tuple(env.current_focus))
    ctx.state((layouts, prog, end, str(recent[-finst:] if finst else [])))
    if end[0] not in (V.values() if V else [None]) or end[1] != L or end[3] != tuple(foc):
        return "end", f"visual {end[0]}, location {end[1]}, focus {end[3]}, expected {V}, {L}, {foc}"
    if {tuple(y for y in k if y[1] != ""): [round(x, 3) for x in v] for k, v in end[2].items()} != {k: [round(x, 3) for x in v] for k, v in mem.items()}:
        return "memory", f"memory {end[2]}, expected {mem}"
    if prog == "watch":
        first = next((x for x in want if x[1] == "visual_location"), None)
        fired = [t for t, _, a in events if a == "RULE FIRED: watch"]
        if first is None and fired or first is not None and (not fired or fired[0] != rd(first[0] + .05) and all(abs(fired[0] - rd(s + .05)) > 1e-6 for s in starts)):
            return "rule", f"location found at {first and first[0]}, the rule that uses it fired at {fired}"
    return None


WHEN = [.101, .12, .148, .17, .2, .23, .236, .26, .3, .33, .35, .5]


def shift(k, layout, setting, gate, stop, ctx):
    """A screen that appears while attention is shifted cancels a movement being prepared, and leaves the module free."""
    env, m, vis, vl = model("none", setting, 4, (100, 100), SIZES[0])
    shiftrule = {"+visual": ("_visual", {"cmd": "move_attention", "screen_pos": "=visual_location"})}
    G = lambda i: {"=g": ("mco", {"k": str(i)})}
    rules = [simrun.frule("r0", G(0), {**G(1), "+visual_location": ("_visuallocation", {"value": "D"})}),
             simrun.frule("r1", {**G(1), "=visual_location": ("_visuallocation", {"screen_x": "300"})}, {**G(2), **shiftrule}),
             simrun.frule("r2", {**G(2), "?visual": {gate: "free"}}, G(3))]
    m.set_productions(*rules)
    when = WHEN[k]
    if stop:
        vis.stop_automatic_buffering()
    events, _, _ = simrun.simulate(m, 3, None, environment_process=env.environment_process, stimuli=[{"d": OBJ["d"]}, {n: OBJ[n] for n in layout}], triggers="", times=[when, 100])
    ctx.ran()
    ctx.step(len(events))
    enc = encoding(OBJ["d"], (100, 100), SIZES[0], setting, 1)
    ends = rd(.1 + .135 + .07 + .002 * math.degrees(angle((100, 100), (300, 100), SIZES[0])))
    cancelled = not stop and when < .235
    obs = [(t, a.split(":")[0]) for t, mod, a in events if mod == "visual"]
    want = [(.1, "PREPARATION TO SHIFT VISUAL ATTENTION STARTED")]
    if not cancelled or rd(.1 + enc) < when:
        want += [(rd(.1 + enc), "CLEARED"), (rd(.1 + enc), "ENCODED VIS OBJECT")]
    full = not cancelled or rd(.1 + enc) < when
    if not cancelled:
        want += [(.235, "PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED"), (ends, "SHIFT COMPLETE TO POSITION")]
    focus = (300, 100) if not stop and not cancelled and when > ends else (100, 100)
    near = [n for n in layout if all(abs(p - q) < foveal(SIZES[0]) for p, q in zip(posn(OBJ[n]), (300, 100) if full and when > .1 + enc else focus)) and not (full and when > .1 + enc and OBJ[n]["text"] == "D")]
    if near and not stop:
        want.append((rd(when + encoding(OBJ[near[0]], focus, SIZES[0], setting)), "AUTOMATIC BUFFERING"))
    ctx.state(("shift", k, layout, setting, gate, stop))
    ctx.outcome(("shift cancelled" if cancelled else "shift goes on", bool(near)))
    if len(obs) != len(want) or any(abs(a[0] - b[0]) > 2e-4 or a[1] != b[1] for a, b in zip(sorted(obs), sorted(want))):
        return "shift", f"new screen {layout} at {when}, attended at .1, stopped {stop}: {sorted(obs)}, expected {sorted(want)}"
    fired = [t for t, _, a in events if a == "RULE FIRED: r2"]
    free = when if cancelled else {"preparation": .235, "processor": ends, "execution": None}[gate]
    if free and (not fired or abs(fired[0] - rd(free + .05)) > 2e-4):
        return "shift", f"new screen {layout} at {when}, attended at .1, stopped {stop}: rule waiting for {gate} fired at {fired}, expected at {rd(free + .05)}"
    return None


def moment(first, second, when, start, strict, fast, ctx):
    """A screen that appears at the very moment of another event: nothing breaks and nothing waits forever."""
    env, m, vis, vl = model("none", dict(strict_harvesting=strict, automatic_visual_search=fast), 4, (100, 100), SIZES[0])
    G = lambda i: {"=g": ("mco", {"k": str(i)})}
    m.set_productions(simrun.frule("r0", G(0), {**G(1), "+visual_location": ("_visuallocation", {"value": "D"})}),
                      simrun.frule("r1", {**G(1), "=visual_location": ("_visuallocation", {"screen_x": "300"})}, {**G(2), "+visual": ("_visual", {"cmd": "move_attention", "screen_pos": "=visual_location"})}),
                      simrun.frule("r2", {**G(2), "?visual": {"processor": "free"}}, {**G(3), "+visual": ("_visual", {"cmd": "clear"})}),
                      simrun.frule("r3", {**G(3), "?visual": {"state": "free", "preparation": "free", "processor": "free", "execution": "free"}, "?visual_location": {"state": "free"}}, G(4)))
    what = f"screens {first} from {start}, {second} at {when}, strict harvesting {strict}, automatic search {fast}"
    events, _, _ = simrun.simulate(m, 4, None, environment_process=env.environment_process, stimuli=[{n: OBJ[n] for n in first}, {n: OBJ[n] for n in second}], triggers="", times=[when - start, 100], start_time=start)
    ctx.ran()
    ctx.step(len(events))
    fired = [a[-1] for _, _, a in events if "FIRED: r" in a]
    ctx.state(("moment", first, second, when, start, strict, fast))
    ctx.outcome(("moment", len(fired)))
    loc_ = simrun.content(vl)
    if fired not in (["0"], ["0", "1", "2"], ["0", "1", "2", "3"]) or fired == ["0"] and loc_ and ("screen_x", "300") in loc_:
        return "moment", f"{what}: rules fired {fired}, location {loc_}; {[e for e in events if e[1] != 'PROCEDURAL'][-4:]}"
    if fired == ["0", "1", "2"] and not any("ENCODED LOCATION:'None'" in a for _, _, a in events):
        return "moment", f"{what}: a visual module is not free at the end; {[e for e in events if e[1] != 'PROCEDURAL'][-4:]}"
    return None


def run_case(case, ctx):
    if case[0] == "around":
        for dy in OFF:
            for setting in SETTINGS:
                for size in SIZES:
                    r = screens("none", ("", ((*case[1:], dy),)), (.5,), setting, 4, FOCUS[case[1]], size, ctx)
                    if r:
                        ctx.bad(r[0], f"object at an offset of {case[2], dy} from the focus {FOCUS[case[1]]}, {setting}, size {size}: {r[1]}")
                        return
        return
    if case[0] == "moment":
        for when in (.05, .1, .15, .1677, .2, .235, .25, .3397, .3897, .4397):
            for start in (0, .05, .1):
                for strict in (False, True):
                    for fast in (True, False):
                        r = when > start and moment(*case[1:], when, start, strict, fast, ctx)
                        if r:
                            ctx.bad(*r)
                            return
        return
    if case[0] == "shift":
        for setting in (SETTINGS[0], SETTINGS[1]):
            for gate in ("processor", "preparation"):
                for stop in (False, True):
                    r = shift(case[1], case[2], setting, gate, stop, ctx)
                    if r:
                        ctx.bad(*r)
                        return
        return
    _, prog, layouts, few = case
    long = len(layouts) > 2
    for setting in SETTINGS[:2] if few else SETTINGS:
        for finst in FINST if setting == {} else FINST[:1]:
            for focus in FOCUS:
                for size in SIZES[::2] if not long else SIZES[:1]:
                    for durs in DUR:
                        r = screens(prog, layouts, durs, setting, finst, focus, size, ctx)
                        if r:
                            ctx.bad(r[0], f"screens {layouts} lasting {durs}, rules: {prog}, {setting}, remembered {finst}, focus {focus}, size {size}: {r[1]}")
                            return


def final(total, tier):
    if len(total.outcomes) < 11:
        yield "vacuous", f"{total.outcomes}"
