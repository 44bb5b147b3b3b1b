"""C22 time: a run in parts, a stepped run and a run started later are the same run."""
import contextlib
import itertools

from mc import simrun
from mc.simrun import actr, frule

ID = "C22"
LEVEL = "model_checking"
RULE = ("every program of two or three rules, one action each, over an alphabet of actions of all modules; for each program every single cut (at, before and after every event), every pair of cuts, "
        "every number of steps followed by a run, and every starting time; events, printed time, clock and final state compared; state = distinct (program, way of running, cut)")
ASSUMPTIONS = ["whether a run up to time t includes events at t is left open", "symbolic memory, without noise"]
CHUNK = 4
UNTIL = 2.6

actr.chunktype("cgt", "k a")
actr.chunktype("cht", "c d")
actr.chunktype("cft", "e f")
ACTIONS = {
    "=g": {}, "+h": {"+h": ("cht", {"c": "x"})}, "@h": {"@h": ("cht", {"c": "y"})}, "~h": {"~h": None},
    "retrieve": {"+retrieval": ("cft", {"e": "x"})}, "fail": {"+retrieval": ("cft", {"e": "zz"})},
    "press": {"+manual": ("_manual", {"cmd": "press_key", "key": "A"})}, "press5": {"+manual": ("_manual", {"cmd": "press_key", "key": "5"})},
    "look": {"+visual_location": ("_visuallocation", {"value": "B"})}, "lookno": {"+visual_location": ("_visuallocation", {"value": "C"})},
    "shift": {"+visual": ("_visual", {"cmd": "move_attention", "screen_pos": "=a"})},
}
NAMES = list(ACTIONS)
COMPILED = ["=g", "+h", "retrieve"]        # programs of three of these are also compiled
SETTINGS = [{}, {"utility_learning": True, "production_compilation": True}]
STARTS = [.1, 1 / 3, 7, 1000.1234, 123456.7]
SCREENS = [{"o": {"text": "A", "position": (100, 100), "vis_delay": 4}, "p": {"text": "B", "position": (300, 200), "vis_delay": 6}}, {"p": {"text": "B", "position": (300, 100), "vis_delay": 4}}]


def bounds(tier):
    q = tier == "quick"
    return {"actions": NAMES, "programs": "all pairs" + ("" if q else " and triples") + ", triples of " + ", ".join(COMPILED) + " compiled", "settings": SETTINGS, "cuts": "all single ones, all pairs" + (" of event times" if q else ""), "steps": "all", "starts": STARTS,
            "until": UNTIL}


def cases(tier):
    for start in [0] + STARTS:
        yield ("clock", start)
    for s in range(len(SETTINGS)):
        for p in itertools.product(range(len(NAMES)), repeat=2):
            yield ("prog", s, p, tier)
    for p in itertools.product([NAMES.index(n) for n in COMPILED], repeat=3):
        yield ("prog", 1, p, tier)
    if tier != "quick":
        for p in itertools.product(range(len(NAMES)), repeat=3):
            yield ("prog", 0, p, tier)


def build(prog, setting, automatic=True):
    env = actr.Environment(focus_position=(0, 0))
    m = actr.ACTRModel(environment=env, emma_noise=False, automatic_visual_search=automatic, **setting)
    m.visualBuffer("visual", "visual_location", m.decmem)
    m.set_goal("h", .03)
    m.goals["g"].add(actr.chunks.Chunk("cgt", k="0", a=actr.chunks.Chunk("_visuallocation", screen_x="300", screen_y="200")))
    m.decmem.add(simrun.mk({"e": "x", "f": "y"}, "cft"), time=-1)
    rules = []
    for i, a in enumerate(prog):
        act = ACTIONS[NAMES[a]]
        lhs = {"=g": ("cgt", {"k": str(i), "a": "=a"})}
        if i:
            lhs["?manual"] = {"preparation": "free"}
        if i == len(prog) - 1:
            lhs["?retrieval"] = {"state": "free"} if prog[0] != NAMES.index("fail") else {"state": "error"}
        rules.append(frule(f"r{i}", lhs, {"=g": ("cgt", {"k": str(i + 1)}), **act}, utility=i, reward=3 if i == 1 else None))
    m.set_productions(*rules)
    return m, env


class Run:
    def __init__(self, prog, setting, start=0, **kw):
        self.m, self.env = build(prog, setting)
        self.w = simrun.TraceWriter(self.event)
        self.w.on_line = lambda line: self.lines.append((rd(self.sim.show_time()), line))
        self.lines = []
        self.bad = None
        self.last = rd(start)
        self.sim = self.m.simulation(gui=False, initial_time=start, environment_process=self.env.environment_process, stimuli=SCREENS, triggers="A", times=.7, start_time=.04 if setting else 0, **kw)

    def event(self, e):
        now = self.sim.show_time()
        if abs(e[0] - now) > 1e-4 or e[0] < self.last - 1e-9:
            self.bad = self.bad or f"{e} printed at simulated time {now}, after an event at {self.last}"
        if tuple(self.sim.current_event[0:3])[1:] != e[1:] or abs(self.sim.current_event[0] - e[0]) > 1e-4:
            self.bad = self.bad or f"current event is {self.sim.current_event}, {e} printed"
        self.last = e[0]

    def run(self, t):
        with contextlib.redirect_stdout(self.w):
            self.sim.run(t)

    def steps(self, n):
        with contextlib.redirect_stdout(self.w):
            try:
                self.sim.steps(n)
            except Exception as e:
                if type(e).__name__ != "EmptySchedule":
                    raise
                return False
        return True

    def result(self, start=0):
        m = self.m
        shift = lambda t: rd(t - start)         # noqa: E731
        return {"events": [(shift(t), a, b) for t, a, b in self.w.events],
                "screens": [(shift(t), x) for t, x in self.lines], "goals": [simrun.content(m.goals[g]) for g in ("g", "h")], "retrieval": simrun.content(m.retrieval),
                "visual": [simrun.content(b) for b in m.visbuffers.values()], "memory": {c: tuple(shift(t) if t > -1 else t for t in ts) for c, ts in simrun.dm_content(m.decmem).items()},
                "rules": {r: m.productions[r]["utility"] for r in m.productions}, "focus": tuple(self.env.current_focus)}


def rd(x):
    return round(float(x), 4)


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], list):
                for i, (x, y) in enumerate(itertools.zip_longest(a[k], b[k])):
                    if x != y:
                        return f"{k}: {y} instead of {x} (entry {i})"
            return f"{k}: {b[k]} instead of {a[k]}"


def run_case(case, ctx):
    if case[0] == "clock":
        start = case[1]
        for real in (False, True):
            m, env = build((0, 0), {})
            sim = m.simulation(realtime=real, gui=False, initial_time=start, environment_process=env.environment_process, stimuli=SCREENS, triggers="A", times=.7)
            ctx.state((start, real))
            if abs(sim.show_time() - start) > 1e-4:
                ctx.bad("clock", f"simulation with initial_time={start}, realtime={real} starts at {sim.show_time()}")
        return
    _, s, prog, tier = case
    setting = SETTINGS[s]
    what = f"program {[NAMES[a] for a in prog]}, {setting}"
    base = Run(prog, setting)
    base.run(UNTIL)
    ctx.ran()
    ctx.step(len(base.w.events))
    if base.bad:
        ctx.bad("time", f"{what}: {base.bad}")
        return
    want = base.result()
    ctx.outcome(repr(sorted({e[1] for e in base.w.events})))
    times = sorted({rd(e[0]) for e in base.w.events})
    cuts = sorted({rd(x) for t in times for x in (t, t + .001, t - .001) if 0 < x < UNTIL})

    def compare(how, r, w=want, start=0):
        ctx.ran()
        ctx.step(len(r.w.events))
        ctx.state((s, prog, how))
        d = r.bad or diff(w, r.result(start))
        if d:
            ctx.bad("split", f"{what}: {how}: {d}")
        return d
    pairs = itertools.combinations([t for t in times if t > 0] if tier == "quick" else cuts, 2) if s == 0 else ()
    for cut in itertools.chain(((c,) for c in cuts), pairs):
        r = Run(prog, setting)
        for c in cut:
            r.run(c)
            if any(e[0] > c + 1e-9 for e in r.w.events) or abs(r.sim.show_time() - c) > 1e-9:
                ctx.bad("cut", f"{what}: run until {c}: events {r.w.events[-2:]}, clock {r.sim.show_time()}")
                return
        r.run(UNTIL)
        if compare(f"run until {cut}", r):
            return
    r = Run(prog, setting, trace=False)
    r.run(UNTIL)
    if compare("without trace", r, {**want, "events": []}):
        return
    seen = []
    r, r2 = Run(prog, setting), Run(prog, setting, trace=False)     # the steps are the same without the printed trace
    while True:
        a, b = r.steps(1), r2.steps(1)
        seen.append(tuple(r.sim.current_event[0:3]))
        if a != b or seen[-1] != tuple(r2.sim.current_event[0:3]) or r.sim.show_time() != r2.sim.show_time():
            ctx.bad("steps", f"{what}: step {len(seen)} without trace: {r2.sim.current_event if b else None} at {r2.sim.show_time()}, with trace: {seen[-1] if a else None} at {r.sim.show_time()}")
            return
        if not a or r.sim.show_time() >= UNTIL:
            break
        if len(seen) > 500:
            ctx.bad("steps", f"{what}: no end after {len(seen)} steps")
            return
    n = 0
    while True:
        n += 1
        r = Run(prog, setting)
        if not r.steps(n):
            break
        seen = len(r.w.events)
        if n == 1 or seen % 3 == 0:
            r2 = Run(prog, setting)
            for _ in range(n):
                k = len(r2.w.events)
                r2.steps(1)
                if len(r2.w.events) != k + 1 and (len(r2.w.events) != k or r2.sim.current_event[1] != "ENVIRONMENT"):
                    r2.bad = r2.bad or f"a step printed {r2.w.events[k:]}"
            if r2.w.events != r.w.events or r2.bad:
                ctx.bad("steps", f"{what}: {n} single steps: {r2.bad or r2.w.events[-2:]}; steps({n}): {r.w.events[-2:]}")
                return
        if r.sim.show_time() >= UNTIL:
            break
        r.run(UNTIL)
        if compare(f"{n} steps", r):
            return
        if n > 500:
            ctx.bad("steps", f"{what}: no end after {n} steps")
            return
    if n < len(base.w.events):
        ctx.bad("steps", f"{what}: {n} steps, {len(base.w.events)} events")
    for start in STARTS:
        r = Run(prog, setting, start)
        r.run(start + UNTIL)
        if compare(f"start at {start}", r, dict(want), start):
            return


def final(total, tier):
    if len(total.outcomes) < 3:
        yield "vacuous", f"{total.outcomes}"
