"""C23 isolation and determinism: a simulation depends on its own model only."""
import contextlib
import copy
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from mc import simrun
from mc.simrun import actr, frule, vv

ID = "C23"
LEVEL = "model_checking"
RULE = ("every interleaving of building, creating the simulation and running (in two parts) of every pair of models from a list that covers all modules, each compared with the same model alone; "
        "every model run again in fresh processes whose hash seeds realise every iteration order of a set of three words; arguments given by the user compared before and after; state = distinct (pair, interleaving)")
ASSUMPTIONS = ["chunk types and named chunks are global, models that share their names declare them alike", "noise: the same seed of numpy's generator, models not interleaved"]
CHUNK = 8
SEEDS = range(1, 25)

actr.chunktype("igt", "k a b")
actr.chunktype("iht", "c d")
actr.chunktype("ift", "e f")
STIMULI = [{"o": {"text": "A", "position": (100, 100), "vis_delay": 4}, "p": {"text": "B", "position": (300, 200), "vis_delay": 6}}, {"p": {"text": "B", "position": (300, 100), "vis_delay": 4}}]


def start(m, **kw):
    m.goals["g"].add(simrun.mk({"k": "0", **kw}, "igt"))


def steps(*rhs, lhs=None, names="r", **opts):
    out = []
    for i, r in enumerate(rhs):
        left = {"=g": ("igt", {"k": str(i)})}
        left.update((lhs or {}).get(i, {}))
        out.append(frule(f"{names}{i}", left, {"=g": ("igt", {"k": str(i + 1)}), **r}, **{k: v[i] for k, v in opts.items()}))
    return out


def memory(m, *pairs):
    for e, f in pairs:
        m.decmem.add(simrun.mk({"e": e, "f": f}, "ift"), time=-2)


FREE = {"?retrieval": {"state": "free"}}
NOT = {2: FREE}


def goals():
    m = actr.ACTRModel(strict_harvesting=True)
    m.set_goal("h", .03)
    start(m, a="x")
    m.set_productions(*steps({"+h": ("iht", {"c": "x"})}, {"~h": None}, {"+h": ("iht", {"c": "y"})}, {"@h": ("iht", {"d": "z"})}))
    return m, {}


def retrieval(**par):
    def build():
        m = actr.ACTRModel(subsymbolic=True, retrieval_threshold=-5, strength_of_association=4, **copy.deepcopy(par))
        if "buffer_spreading_activation" not in par and "partial_matching" not in par:
            m.model_parameters["buffer_spreading_activation"]["g"] = 2
        start(m, a="x", b="y")
        memory(m, ("x", "u"), ("y", "u"), ("y", "v"), ("z", "w"))
        if par.get("mismatch_penalty") == 3:
            m.set_similarities("q", "y", -.3)
            m.set_similarities("z", "q", -.6)
        m.set_productions(*steps({"+retrieval": ("ift", {"e": vv("~z")})}, {"~retrieval": None}, {"+retrieval": ("ift", {"e": "q" if "partial_matching" in par else "z"})}, {}, lhs={1: FREE, 3: FREE}))
        return m, {}
    return build


def recent():
    m = actr.ACTRModel()
    m.retrieval.finst = 2
    start(m)
    memory(m, ("x", "u"), ("y", "u"), ("z", "w"))
    old = {"?retrieval": {"recently_retrieved": False}, "+retrieval": ("ift", {})}
    m.set_productions(*steps(old, old, old, old, lhs={1: FREE, 2: FREE, 3: FREE}))
    return m, {}


def seeing(auto, key):
    def build():
        env = actr.Environment(focus_position=(0, 0))
        m = actr.ACTRModel(environment=env, emma_noise=False, automatic_visual_search=auto, motor_prepared=key == "A")
        if not auto:
            m.visualBuffer("visual", "visual_location", m.decmem, 2)
        start(m)
        m.set_productions(*steps({"+visual_location": ("_visuallocation", {"value": "B"})}, {"+manual": ("_manual", {"cmd": "press_key", "key": key})}, {}, lhs={2: {"?manual": {"state": "free"}}}),
                          frule("look", {"=g": ("igt", {"k": "3"}), "=visual_location": ("_visuallocation", {"screen_x": "=x"})},
                                {"=g": ("igt", {"k": "4"}), "=visual_location": ("_visuallocation", {"screen_x": "=x"}), "+visual": ("_visual", {"cmd": "move_attention", "screen_pos": "=visual_location"})}))
        return m, dict(environment_process=env.environment_process, stimuli=copy.deepcopy(STIMULI), triggers=[key, "Q"], times=[.9, 2])
    return build


def plain():
    env = actr.Environment(focus_position=(0, 0))
    m = actr.ACTRModel(environment=env, automatic_visual_search=False)
    start(m)
    m.set_productions(*steps({"+visual_location": ("_visuallocation", {"screen_x": ">5"})}, {"+manual": ("_manual", {"cmd": "press_key", "key": "A"})}, {}, lhs={2: {"?manual": {"state": "free"}}}))
    return m, dict(environment_process=env.environment_process, stimuli=["A", "B"], triggers=["A", ["Q", "A"]], times=[.9, 2])


def learning():
    m = actr.ACTRModel(production_compilation=True, utility_learning=True, utility_alpha=.3)
    start(m, a="x")
    m.set_productions(*[frule(f"{n}{i}", {"=g": ("igt", {"k": str(i), "a": "=v", "b": vv("~x~y") if n == "r" else vv("~z~x")})}, {"=g": ("igt", {"k": str((i + 1) % 3), "a": "=v"})}, utility=2, reward=4 if i == 2 else None) for n in "rs" for i in range(3)])
    return m, {}


def text():
    m = actr.ACTRModel()
    start(m, a="x")
    memory(m, ("x", "u"), ("y", "u"))
    m.productionstring(name="t0", string="=g> isa igt k 0 a ~q ==> =g> isa igt k 1 +retrieval> isa ift e ~x")
    m.productionstring(name="t1", string="=g> isa igt k 1 =retrieval> isa ift e =e f ~w ==> =g> isa igt k 2 a =e")
    return m, {}


def noisy():
    m = actr.ACTRModel(subsymbolic=True, instantaneous_noise=.3, utility_noise=.5, retrieval_threshold=-5)
    start(m)
    memory(m, ("x", "u"), ("y", "u"), ("z", "u"))
    m.set_productions(*steps({"+retrieval": ("ift", {"f": "u"})}, {"+retrieval": ("ift", {"f": "u"})}, {}, lhs={1: FREE, 2: FREE}), *steps({}, {}, {}, names="n"))
    return m, {}


MODELS = {"goals": goals, "spreading": retrieval(buffer_spreading_activation={"g": 1}), "spreading, set later": retrieval(), "similarities": retrieval(partial_matching=True, mismatch_penalty=3),
          "no similarities": retrieval(partial_matching=True, mismatch_penalty=2.9), "recent": recent, "seeing": seeing(False, "A"), "automatic": seeing(True, "B"), "plain screens": plain, "learning": learning, "text": text}
NAMES = list(MODELS)
OPS = 4
ORDERS = [o for o in itertools.product((0, 1), repeat=2 * OPS) if sum(o) == OPS]
THREE = [sum(x, ()) + (0, 1, 2) for x in itertools.product(itertools.permutations(range(3)), repeat=3)]
CUT, UNTIL = .26, 1.4


class Sim:
    def __init__(self, name):
        self.name = name
        self.done = 0
        self.w = simrun.TraceWriter()

    def op(self):
        if self.done == 0:
            self.m, self.kw = (MODELS.get(self.name) or noisy)()
            self.before = copy.deepcopy({k: v for k, v in self.kw.items() if k != "environment_process"})
        elif self.done == 1:
            self.sim = self.m.simulation(gui=False, **self.kw)
        else:
            with contextlib.redirect_stdout(self.w):
                self.sim.run(CUT if self.done == 2 else UNTIL)
        self.done += 1

    def result(self):
        m = self.m
        return repr((self.w.events, self.w.lines, [(n, simrun.content(b)) for n, b in m.goals.items()], simrun.content(m.retrieval), [simrun.content(b) for b in m.visbuffers.values()],
                     sorted(simrun.dm_content(m.decmem).items(), key=repr), sorted((r, m.productions[r]["utility"]) for r in m.productions), sorted(m.model_parameters.items())))


def alone(name):
    np.random.seed(7)
    s = Sim(name)
    for _ in range(OPS):
        s.op()
    return s


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{b[max(0, i - 60):i + 60]}... instead of ...{a[max(0, i - 60):i + 60]}..."


def bounds(tier):
    return {"models": NAMES, "interleavings": f"{len(ORDERS)} of 2 x {OPS} operations for every ordered pair" + ("" if tier == "quick" else ", and every order of building and running of three models"), "hash seeds": len(SEEDS)}


def cases(tier):
    for s in SEEDS:
        yield ("hash", s)
    for n in NAMES:
        yield ("again", n)
    for a, b in itertools.combinations_with_replacement(NAMES, 2):
        yield ("pair", a, b)
    if tier != "quick":
        for t in itertools.combinations(NAMES, 3):
            yield ("three", *t)


def child(names):
    """In a fresh process: the order of a set of three words, and the results of the models."""
    print(json.dumps([list({"x", "y", "z"}), {n: alone(n).result() for n in names}]))


def fresh(seed, names=(*NAMES, "noisy")):
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", f"from mc.checks import c23; c23.child({list(names)})"], env={**os.environ, "PYTHONHASHSEED": str(seed), "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    return json.loads(r.stdout.splitlines()[-1])


BASE = {}


def base(name):
    if name not in BASE:
        BASE[name] = fresh(SEEDS[0], (name,))[1][name]      # in a process of its own, where no other model has been
    return BASE[name]


def run_case(case, ctx):
    if case[0] == "hash":
        order, res = fresh(case[1])
        ctx.ran(len(res))
        ctx.state(("order", tuple(order)))
        ctx.outcome("order " + "".join(order))
        _, first = fresh(SEEDS[0])
        for n in res:
            if res[n] != first[n]:
                ctx.bad("hash", f"model {n} in processes with hash seeds {SEEDS[0]} and {case[1]}: {diff(first[n], res[n])}")
        return
    if case[0] == "again":
        before = copy.deepcopy(actr.ACTRModel.MODEL_PARAMETERS)
        s = alone(case[1])
        ctx.ran()
        ctx.step(len(s.w.events))
        if s.result() != base(case[1]):
            ctx.bad("again", f"model {case[1]} run again: {diff(base(case[1]), s.result())}")
        if s.before != {k: v for k, v in s.kw.items() if k != "environment_process"}:
            ctx.bad("arguments", f"model {case[1]}: arguments {s.before} changed into {s.kw}")
        if before != actr.ACTRModel.MODEL_PARAMETERS:
            ctx.bad("defaults", f"model {case[1]} changed the default parameters: {actr.ACTRModel.MODEL_PARAMETERS}")
        ctx.outcome("events" if s.w.events else "none")
        return
    names = case[1:]
    orders = ORDERS if case[0] == "pair" else THREE
    want = [base(n) for n in names]
    for order in orders:
        sims = [Sim(n) for n in names]
        for i in order:
            sims[i].op()
        ctx.ran(len(sims))
        ctx.state((names, order))
        for s, w in zip(sims, want):
            ctx.step(len(s.w.events))
            if s.result() != w:
                ctx.bad("interleaved", f"{names} built, started and run in two parts in the order {order}: model {s.name}: {diff(w, s.result())}")
                return
    ctx.outcome("same")


def final(total, tier):
    orders = [o for o in total.outcomes if "order " in str(o)]
    if len(orders) < 6:
        yield "vacuous", f"iteration orders {orders}"
