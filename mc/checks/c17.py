"""C17 motor: key presses take their times, come one after another, and the module reports its state."""
import itertools

from mc import simrun
from mc.simrun import actr

ID = "C17"
LEVEL = "model_checking"
RULE = ("every sequence of key presses up to the length x the query each rule waits for x settings of the model, simulated; every event of the motor "
        "module and every conflict resolution is compared with a reference motor module; state = distinct (phases of the presses, queries, outcome) at a conflict resolution")
ASSUMPTIONS = ["the space bar may count as pressed by either hand", "at the very moment a phase ends, a query may see either state, but the last conflict resolution of that moment sees the new one",
               "whether the processor is busy is specified only when presses do not overlap"]
CHUNK = 20

LEFT = set("12345QWERTASDFGZXCVB")
HOME = ("A", "S", "D", "F", "J", "K", "L", "SPACE")
PHASES = {"home": (.15, .05, .01, .09), "slow": (.25, .05, .11, .16), "other": (.25, .05, .1, .15)}
KEYS = ["A", "J", "Q", "U", "5", "6", "SPACE", "s", "=k"]        # s: lower case; =k: the key (F) is the value of a variable
GATES = [None, ("state", "free"), ("preparation", "free"), ("execution", "free"), ("processor", "free"), ("state", "busy"), ("execution", "busy"), ("preparation", "busy")]
SETTINGS = [dict(), dict(motor_prepared=True), dict(rule_firing=.1), dict(rule_firing=.03)]
ALLKEYS = sorted(LEFT) + list("67890YUIOPHJKLNM") + ["SPACE"]


def bounds(tier):
    return {"keys": KEYS, "gates": GATES, "settings": SETTINGS, "lengths": "2 over all keys, gates and settings; 3 over 6 keys, all gates"
            + ("; 4 over 3 keys" if tier == "quick" else " and settings; 4 over 5 keys"), "pairs": "every ordered pair of the 38 keys"}


def cases(tier):
    n = len(GATES)
    for ks in itertools.product(range(len(KEYS)), repeat=2):
        yield ("seq", ks)
    for a in range(len(ALLKEYS)):
        yield ("pairs", a)
    for ks in itertools.product(range(6), repeat=3):
        yield ("seq", ks)
    for ks in itertools.product(range(3 if tier == "quick" else 5), repeat=4):
        yield ("seq", ks)


def kind(k):
    return "home" if k in HOME else ("slow" if k in "56" else "other")


def preps(key, last, prepared):
    base = PHASES[kind(key)][0]
    if key == last or (last is None and prepared):
        return [0]
    if last is None or (kind(key) == "home") != (kind(last) == "home"):
        return [base]
    if "SPACE" in (key, last):
        return [base - .1, base - .05]
    return [base - (.1 if (key in LEFT) == (last in LEFT) else .05)]


def rd(x):
    return round(x, 4)


class Press:
    def __init__(self, key, t):
        self.key, self.t = key, t
        self.ready = self.fin = self.exec0 = None
        self.superseded = False


def simulate(keys, gates, setting, ctx, rule_gap=0):
    """Run the model and check every event; yields (signature, detail) of deviations."""
    m = actr.ACTRModel(**setting)
    actr.chunktype("mcn", "n, k")
    m.goal.add(actr.chunks.Chunk("mcn", n="0", k="f"))
    for i, k in enumerate(keys):
        gate = gates[i - 1] if i else None
        m.productionstring(name=f"r{i}", string=f"=g>\nisa mcn\nn {i}\nk =k\n" + (f"?manual>\n{gate[0]} {gate[1]}\n" if gate else "")
                           + f"==>\n=g>\nisa mcn\nn {i + 1}\n+manual>\nisa _manual\ncmd 'press_key'\nkey {k}")
    events, sim, w = simrun.simulate(m, 12)
    ctx.ran()
    ctx.step(len(events))
    rf = setting.get("rule_firing", .05)
    real = [("F" if k == "=k" else k.upper()) for k in keys]
    obs = [e for e in events if e[1] == "manual"]
    presses = []
    for t, mod, act in events:
        if act.startswith("RULE FIRED"):
            i = int(act[len("RULE FIRED: r"):])
            if i != len(presses):
                yield "order", f"{act} out of order"
                return
            presses.append(Press(real[i], t))
    # reference
    expected = []
    last, busy = None, 0
    for i, p in enumerate(presses):
        expected.append((p.t, "manual", "COMMAND: press_key"))
        options = [rd(p.t + x) for x in preps(p.key, last, setting.get("motor_prepared"))]
        done = [t for t, _, a in obs if a == "PREPARATION COMPLETE"]
        p.ready = next((o for o in options if o in done), options[0])
        nxt = presses[i + 1].t if i + 1 < len(presses) else None
        if nxt is not None and nxt < p.ready or nxt == p.ready and p.ready not in done:
            p.superseded = True
            continue
        if nxt is not None and nxt == p.ready and (p.ready, "manual", "INITIATION COMPLETE") not in obs:
            # replaced at the very moment it was prepared
            n_exec = sum(1 for e in obs if e[2].startswith("KEY PRESSED"))
            if n_exec < len([q for q in presses if not q.superseded]):
                p.superseded = True
                if p.ready in done:
                    expected.append((p.ready, "manual", "PREPARATION COMPLETE"))
                continue
        _, ini, act, fin = PHASES[kind(p.key)]
        p.exec0 = max(p.ready, busy)
        p.init = rd(p.exec0 + ini)
        p.press = rd(p.exec0 + ini + act)
        p.fin = busy = rd(p.exec0 + ini + act + fin)
        last = p.key
        expected += [(p.ready, "manual", "PREPARATION COMPLETE"), (p.init, "manual", "INITIATION COMPLETE"),
                     (p.press, "manual", f"KEY PRESSED: {p.key}"), (p.fin, "manual", "MOVEMENT FINISHED")]
    if sorted(expected) != sorted(obs):
        yield "motor-events", f"unexpected {sorted(set(obs) - set(expected))} missing {sorted(set(expected) - set(obs))} (or number); trace {obs}"
        return
    # order of the printed events is the order of time
    if [e[0] for e in events] != sorted(e[0] for e in events):
        yield "time-order", f"{events}"
    # queries at each conflict resolution
    crs = [(j, t) for j, (t, _, a) in enumerate(events) if a == "CONFLICT RESOLUTION"]
    lastcr = {}
    for j, t in crs:
        lastcr[t] = j
    fired_before = 0
    it = iter(range(len(events)))
    for j in it:
        t, _, a = events[j]
        if a.startswith("RULE FIRED"):
            fired_before += 1
        if a != "CONFLICT RESOLUTION":
            continue
        res = events[j + 1][2] if j + 1 < len(events) else ""
        sel = res.startswith("RULE SELECTED")
        i = fired_before
        if i == 0 or i >= len(keys):
            truth = {i == 0}
        else:
            truth = query(presses[:i], gates[i - 1], t, lastcr[t] == j)
        ctx.state((tuple((p.key, round(t - p.t, 3)) for p in presses[:i][-3:]), gates[i - 1] if 0 < i < len(keys) else None, sel))
        ctx.outcome((gates[i - 1] if 0 < i < len(keys) else "-", sel))
        if sel not in truth:
            yield "query", f"at {t} rule r{i} (gate {gates[i - 1] if i else None}) selected={sel}, expected {truth}; presses {[(p.key, p.t, p.ready, p.exec0, p.fin) for p in presses[:i]]}"
            return
    if len(presses) < len(keys) and (gates[len(presses) - 1] or ("", "free"))[1] == "free":
        yield "stuck", f"only {len(presses)} presses; last events {events[-4:]}"


def query(presses, gate, t, settled):
    """The set of possible answers of a query at time t, after all the given presses were requested."""
    if gate is None:
        return {True}
    what, want = gate
    eps = 1e-6
    res = set()
    for x in ([t + eps] if settled else [t - eps, t + eps]):
        prep = any(not p.superseded and p.t <= x < p.ready for p in presses[-1:]) or any(p.superseded and p.t <= x < p.ready for p in presses[-1:])
        execu = any(not p.superseded and p.ready <= x < p.fin for p in presses)
        if what == "preparation":
            busy = {prep}
        elif what == "execution":
            busy = {execu}
        elif what == "state":
            busy = {prep or execu}
        else:
            live = [p for p in presses if not p.superseded and x < p.init]
            lone = all(q.fin is not None and q.fin <= presses[-1].t for q in presses[:-1])
            busy = {bool(live) or prep} if lone else {True, False}
        res |= {b == (want == "busy") for b in busy}
    return res


def run_case(case, ctx):
    if case[0] == "pairs":
        a = ALLKEYS[case[1]]
        for b in ALLKEYS:
            for sig, d in simulate([a, b], [("state", "free")], {}, ctx):
                ctx.bad(sig, f"keys {a} {b}: {d}")
                return
        return
    ks = [KEYS[i] for i in case[1]]
    n = len(ks)
    if n == 2:
        space = [((g,), s) for g in GATES for s in SETTINGS]
    elif n == 3:
        space = [(g, s) for g in itertools.product(GATES[:5], repeat=2) for s in SETTINGS[:1]] + [(g, s) for g in itertools.product(GATES[:3], repeat=2) for s in SETTINGS[1:2]] \
            + [((GATES[2], g), SETTINGS[3]) for g in GATES[1:5]]        # a press is requested between the preparation and the initiation of the one before
    else:
        space = [(g, SETTINGS[0]) for g in itertools.product((GATES[0], GATES[2]), repeat=3)]
    for g, s in space:
        for sig, d in simulate(ks, g, s, ctx):
            ctx.bad(sig, f"keys {ks}, gates {g}, setting {s}: {d}")
            return


def final(total, tier):
    if len(total.outcomes) < 12:
        yield "vacuous", f"{total.outcomes}"
