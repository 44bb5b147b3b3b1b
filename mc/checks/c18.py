"""C18 environment: screens are shown one after another, each until its time runs out or a key among its triggers is pressed."""
import ast
import itertools

from mc import core, simrun
from mc.simrun import actr

ID = "C18"
LEVEL = "model_checking"
RULE = ("every sequence of screens x times x triggers x sequence of key presses x starting time, simulated; the moments at which screens are printed (and what the "
        "environment then contains) are compared with the reference; state = distinct (screen, trigger, time since shown, pressed key) situation")
ASSUMPTIONS = ["the time at which a screen runs out is counted from the start of the environment (the sum of the times so far), as implemented, not from the moment at which the screen was shown",
               "a key pressed at the very moment a screen is replaced may count for the old or for the new one"]
CHUNK = 20

TRIG = ["", "A", ["A", "J"], "SPACE", "j", "AJ", ["space", "J"], ["SPACE", "A"], ["J", "SPACE"]]
TIMES = [.26, .3045, .56, 1.2033]
KEYSEQ = [()] + [(a,) for a in "AJ"] + list(itertools.product("AJ", repeat=2)) + [("SPACE",), ("A", "SPACE"), ("SPACE", "A", "J"), ("A", "A", "A"), ("J", "A", "J"), ("A", "J", "A")]
ALLKEYS = list("1234567890QWERTYUIOPASDFGHJKLZXCVBNM") + ["SPACE"]
BIG = ["JKA", "ajk", ["J", "K", "A"], ["SPACE", "j", "K", "A", "5"], ("A", "SPACE", "J"), {"K", "A", "J", "SPACE"}, ["K", "L", "M", "N", "B", "V"], "Space", ["Space"], list("ZXCVBNM") + ["space"]]   # triggers of many keys
STARTS = [(0, 0), (.2, 0), (0, 2), (.2, 2)]     # start_time of the environment, initial time of the simulation


def bounds(tier):
    return {"screens": "1, 2 and 3; 4 and 5 (thorough 6) with times LONG", "triggers": TRIG, "large_triggers": [str(b) for b in BIG], "keys": ALLKEYS, "times": TIMES, "presses": KEYSEQ, "starts": STARTS, "busy": "other rules firing all the time (every 10, 30 or 50 ms), overlapping presses", "forms": "scalars, lists, one value for all screens"}


def cases(tier):
    for tr in range(len(TRIG)):
        for t in range(len(TIMES)):
            yield (1, (t,), (tr,))
    for trs in itertools.product(range(len(TRIG)), repeat=2):
        for ts in itertools.product((0, 1, 3) if tier == "quick" and max(trs) > 5 else range(len(TIMES)), repeat=2):
            yield (2, ts, trs)
    n = 3 if tier == "quick" else len(TRIG)
    for trs in itertools.product(range(n), repeat=3):
        for ts in itertools.product((0, 2) if tier == "quick" else range(4), repeat=3):
            yield (3, ts, trs)
    yield ("forms",)
    for firing in (.05, .01, .03) if tier == "quick" else (.05, .01, .03, .1, .025, .005):
        for state in ("state", "preparation"):
            for idle in (True, False):
                yield ("busy", firing, state, idle)
    for i in range(0, len(ALLKEYS), 6):
        yield ("keys", i)
    for i in range(len(BIG)):
        yield ("big", i)
    for n in (4, 5) if tier == "quick" else (4, 5, 6):
        for t in range(len(LONG)):
            yield ("long", n, t)


def keyset(trigger):
    if isinstance(trigger, str):
        return {"SPACE"} if trigger.upper() == "SPACE" else set(trigger.upper())
    return {x.upper() for x in trigger}


def screens(n, same=False):
    return [{f"s{0 if same else k}": {"text": f"w{0 if same else k}", "position": (100 + 10 * k, 100)}} for k in range(n)]


def build(keys, start, firing=None, state="state", idle=False):
    """Rules that press the keys one after another when the motor module has its state free. idle: as long as it has not, another rule fires again and again."""
    env = actr.Environment(focus_position=(0, 0))
    m = actr.ACTRModel(environment=env, emma_noise=False, automatic_visual_search=False, **({} if firing is None else {"rule_firing": firing}))
    actr.chunktype("mcn", "n")
    m.goal.add(actr.chunks.Chunk("mcn", n="0"))
    for i, k in enumerate(keys):
        m.productionstring(name=f"r{i}", string=f"=g>\nisa mcn\nn {i}\n?manual>\n{state} free\n==>\n=g>\nisa mcn\nn {i + 1}\n+manual>\nisa _manual\ncmd 'press_key'\nkey {k}")
    if idle:
        m.productionstring(name="idle", string=f"=g>\nisa mcn\nn =x\n?manual>\nstate busy\n==>\n=g>\nisa mcn\nn =x", utility=-1)
    return env, m


def go(env, m, initial, kw, until=8):
    shown, presses, wrong = [], [], []
    sim = m.simulation(gui=False, initial_time=initial, environment_process=env.environment_process, **kw)

    def on_line(line):
        if line.startswith("****Environment:"):
            shown.append((round(sim.show_time(), 4), ast.literal_eval(line[len("****Environment:"):].strip())))

    def on_event(e):
        if e[2].startswith("KEY PRESSED: "):
            presses.append((e[0], e[2][len("KEY PRESSED: "):]))
        if shown and env.stimulus != shown[-1][1]:
            wrong.append((e, env.stimulus, shown[-1]))
    events, _, _ = simrun.simulate(m, initial + until, on_event, on_line, sim=sim)
    return shown, presses, wrong, events


def validate(scr, times, trigs, shown, presses, t0):
    """None, or what is wrong with the sequence of screens."""
    if not shown or shown[0] != (round(t0, 4), scr[0]):
        return f"first screen {shown[:1]}, expected {scr[0]} at {t0}"
    used = set()
    out = t0
    for k in range(len(scr)):
        at = shown[k][0]
        out = round(out + times[k], 4)
        keys = keyset(trigs[k])
        hits = [j for j, (t, key) in enumerate(presses) if key in keys and j not in used]
        inside = [j for j in hits if at < presses[j][0] < out]
        allowed = {presses[inside[0]][0] if inside else out} | {at for j in hits if presses[j][0] == at and at > t0}
        if k + 1 == len(scr):
            return None if len(shown) == len(scr) else f"more screens than there are: {shown[k + 1:]}"
        if len(shown) <= k + 1:
            return f"screen {k + 1} never shown (expected at {allowed})"
        t, s = shown[k + 1]
        if t not in allowed:
            return f"screen {k + 1} shown at {t}, expected {allowed}"
        if s != scr[k + 1]:
            return f"screen {k + 1} is {s}, expected {scr[k + 1]}"
        used |= {j for j in hits[:1] if presses[j][0] == t and t != out}
        for j, (pt, key) in enumerate(presses):
            if pt < t:
                used.add(j)
    return None


def run_case(case, ctx):
    if case[0] == "forms":
        forms(ctx)
        return
    if case[0] == "keys":       # every key that can be pressed: as a trigger, and among other triggers
        for key in ALLKEYS[case[1]:case[1] + 6]:
            other = "B" if key != "B" else "V"
            for trig in (key, [key.lower()], [other, key], [other], ALLKEYS, [k for k in ALLKEYS if k != key]):
                for ks in ((key,), (other, key), (key, key)):
                    one(ctx, [9, 9, 9], [trig, key, other], ks, STARTS[:1])
        return
    if case[0] == "big":
        for ks in [(k,) for k in "AJKM5Z"] + [("SPACE",), ("P",), ("S",), ("A", "SPACE"), ("K", "J"), ("L", "A", "K")]:
            one(ctx, [3, .6, 9], [BIG[case[1]], "A", "J"], ks, STARTS[::3])
            one(ctx, [.3, 9, 9], ["", BIG[case[1]], BIG[case[1]]], ks, STARTS[:1])
        return
    if case[0] == "busy":       # rules fire all the time, also at the moments of the presses; the next press is requested while the last one is being executed
        _, firing, state, idle = case
        for ks in [("A",), ("Q",), ("A", "Q"), ("Q", "Q"), ("A", "A", "A"), ("Q", "A", "J"), ("Q", "Q", "Q"), ("5", "A"), ("SPACE", "Q", "A")]:
            for trigs in (["A", "A", "A"], ["Q", "Q", "Q"], [["A", "Q", "5", "SPACE"]] * 3, ["Q", "A", "J"], ["A", ["J", "Q"], "A"]):
                for times in ([9, 9, 9], [.41, .35, 9], [.5, .5, .5]):
                    one(ctx, times, trigs, ks, STARTS[:1], dict(firing=firing, state=state, idle=idle))
        return
    if case[0] == "long":       # more screens
        _, n, t = case
        for ks in [(), ("A",) * 4, ("J",) * 4, tuple("AJAJAJ"), tuple("AAJJAA"), ("SPACE", "A") * 3]:
            for trigs in (["A"] * n, ["A", "J"] * 3, ["", "A", ["J", "A"]] * 2, ["J", "SPACE", "A", ""] * 2):
                one(ctx, (LONG[t] * n)[:n], trigs[:n], ks, STARTS[:1])
        return
    n, ts, trs = case
    times, trigs = [TIMES[i] for i in ts], [TRIG[i] for i in trs]
    for ks in KEYSEQ:
        if n == 3 and len(ks) < 2:
            continue
        one(ctx, times, trigs, ks, STARTS if n == 1 else STARTS[::3] if n == 2 else STARTS[:1])


LONG = [[.1], [.5], [.2, .7], [1, .05, .3], [9, .3], [0, .4], [.35, 0]]


def one(ctx, times, trigs, ks, starts, kw={}):
        n = len(times)
        for start, initial in starts:
            env, m = build(ks, start, **kw)
            scr = screens(n)
            shown, presses, wrong, events = go(env, m, initial, dict(stimuli=screens(n), triggers=list(trigs), times=list(times), start_time=start), until=max(8, sum(times) + 1))
            ctx.ran()
            ctx.step(len(events) + len(shown))
            err = validate(scr, times, trigs, shown, presses, initial + start)
            if not err and wrong:
                err = f"the environment does not contain the screen last shown: {wrong[0]}"
            if not err and [k for _, k in presses] != list(ks):
                err = f"keys pressed {presses}, expected {ks}"
            if err:
                ctx.bad("screens", f"times {times}, triggers {trigs}, keys {ks}, start {start}, initial {initial}{' ' + str(kw) if kw else ''}: {err}; shown {shown}, pressed {presses}")
                return
            for t, s in shown:
                ctx.state((s, times, trigs, [(k, round(p - t, 3)) for p, k in presses]))
            out = [round(sum(times[:k]) + start + initial, 4) for k in range(1, n)]
            ctx.outcome((n, tuple(t < o for (t, _), o in zip(shown[1:], out))))


def forms(ctx):
    """One value stands for all screens; wrong lengths and wrong types are errors."""
    w = {"w": {"text": "w", "position": (1, 1)}}
    good = [
        (dict(stimuli=w, triggers="A", times=1), [w], ["A"], [1]),
        (dict(stimuli=[w], triggers=["A"], times=[1]), [w], ["A"], [1]),
        (dict(stimuli=screens(3), triggers="A", times=.5), screens(3), ["A"] * 3, [.5] * 3),
        (dict(stimuli=screens(3), triggers=["A"], times=[.5]), screens(3), ["A"] * 3, [.5] * 3),
        (dict(stimuli=w, triggers=["A", "J"], times=.5), [w] * 2, ["A", "J"], [.5] * 2),
        (dict(stimuli=[w], triggers=["A", "J"], times=[.5, .3]), [w] * 2, ["A", "J"], [.5, .3]),
        (dict(stimuli=screens(2), triggers=[["A"], ["J", "K"]], times=[.5, .3]), screens(2), [["A"], ["J", "K"]], [.5, .3]),
        (dict(stimuli="word", triggers="A", times=1), [{"word": {"position": (320, 180)}}], ["A"], [1]),
        (dict(stimuli=["w1", "w2"], triggers="A", times=1), [{"w1": {"position": (320, 180)}}, {"w2": {"position": (320, 180)}}], ["A"] * 2, [1, 1]),
    ]
    for kw, scr, trigs, times in good:
        for ks in ((), ("A",), ("J", "A"), ("A", "J")):
            env, m = build(ks, 0)
            shown, presses, wrong, events = go(env, m, 0, kw)
            ctx.ran()
            err = validate(scr, times, trigs, shown, presses, 0)
            if err or wrong:
                ctx.bad("forms", f"{kw} keys {ks}: {err} {wrong[:1]}; shown {shown}, pressed {presses}")
    bad = [dict(stimuli=screens(3), triggers=["A", "J"], times=1), dict(stimuli=screens(3), triggers="A", times=[1, 2]), dict(stimuli=screens(1), triggers=[1], times=1),
           dict(stimuli=[{"a": "text"}], triggers="A", times=1), dict(stimuli=screens(1), triggers=1, times=1), dict(stimuli=screens(2), triggers=["A", "J"], times=[1, 2, 3]), dict(stimuli=w, triggers="A", times=[1, 2]), dict(stimuli=[w], triggers=["A"], times=[1, 2])]
    for kw in bad:
        env, m = build((), 0)
        try:
            go(env, m, 0, kw)
        except actr.utilities.ACTRError:
            ctx.outcome("rejected")
        else:
            ctx.bad("accepted", f"environment with {kw} is not rejected")
        ctx.ran()


def final(total, tier):
    if len(total.outcomes) < 7:
        yield "vacuous", f"{total.outcomes}"
