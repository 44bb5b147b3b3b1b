"""C27 the noise of EMMA: which times and positions are drawn, from which distributions, and what they do."""
import itertools
import math

import numpy as np

from mc import simrun
from mc.checks import c20
from mc.simrun import actr

ID = "C27"
LEVEL = "model_checking"
RULE = ("one and two shifts of attention x positions x delays of encoding x focus x settings of noise x every script of what the generators return (each time a small, middle or large multiple of its mean, each landing "
        "site one of several offsets); simulated, and every visual event, the focus and the buffer compared with a reference; also the automatic buffering of an object; state = distinct (case, script)")
ASSUMPTIONS = ["numpy's generators are owned by the harness: what a draw returns depends on its mean, in whatever order and number the draws are made", "the distance enters the encoding time as implemented (in radians)"]
CHUNK = 10
POS = c20.POS
FACTORS = (.4, 1, 2.6)
OFFSETS = ((0, 0), (2.4, -3.7), (-8.6, 40.2))
DELAYS = (None, 5, 22, 150)
FOCUS = ((0, 0), (100, 100))
SETTINGS = [dict(emma_noise=True), dict(emma_noise=True, emma_landing_site_noise=True, eye_mvt_angle_parameter=1.5), dict(emma_noise=False, emma_landing_site_noise=True, eye_mvt_scaling_parameter=.02),
            dict(emma_noise=True, emma_landing_site_noise=True, emma=False), dict(emma_noise=False)]

actr.chunktype("ngt", "k")


def bounds(tier):
    return {"objects": POS, "vis_delay": DELAYS, "focus": FOCUS, "settings": SETTINGS, "factors": FACTORS, "offsets": OFFSETS, "shifts": "1 with all scripts, 2 with " + ("equal delays and factors per kind of time and different landings" if tier == "quick" else "all factors per kind of time")}


def cases(tier):
    for s in range(len(SETTINGS)):
        st = SETTINGS[s]
        noisy = st["emma_noise"] and st.get("emma", True)
        fs = FACTORS if noisy else (1,)
        os_ = OFFSETS if st.get("emma_landing_site_noise") and st.get("emma", True) else OFFSETS[:1]
        for t in "ABC":
            for d in DELAYS:
                for script in itertools.product(fs, fs, fs, fs):
                    for o in os_:
                        yield ("shift", s, t, (d,), (script,), (o,))
        for t in itertools.product("ABC", repeat=2):
            if t[0] == t[1]:
                continue
            for d in itertools.product(DELAYS[1:], repeat=2):
                if tier == "quick" and d[0] != d[1]:
                    continue
                for a, b in itertools.product([(x, y, z, z) for x in fs for y in fs for z in fs], repeat=2):
                    if tier == "quick" and a != b:
                        continue
                    for o in itertools.product(os_, repeat=2) if tier != "quick" else zip(os_, os_[1:] + os_[:1]):
                        yield ("shift", s, "".join(t), d, (a, b), o)
        for d in DELAYS:
            for f in FACTORS if st["emma_noise"] else (1,):
                yield ("auto", s, d, f)


class Draws:
    """Scripted generators: what a draw returns is the factor of its mean."""

    def __init__(self):
        self.means = []         # (mean, factor)
        self.sites = []         # (site, variance, offset)
        self.bad = None

    def gamma(self, shape, scale=1.0, size=None):
        mean = float(shape) * float(scale)
        if abs(shape - 9) > 1e-9:
            self.bad = self.bad or f"gamma noise of shape {shape}"
        if mean == 0:
            return 0.0 if size is None else np.zeros(size)
        best = min(self.means, key=lambda x: abs(x[0] - mean), default=(0, 1))
        if abs(best[0] - mean) > 1e-6:
            self.bad = self.bad or f"a time with the mean {mean} is drawn, expected means {[x for x, _ in self.means]}"
        return mean * best[1] if size is None else np.full(size, mean * best[1])

    def multivariate_normal(self, mean, cov, *a, **kw):
        cov = np.asarray(cov, dtype=float)
        best = min(self.sites, key=lambda x: abs(x[1] - cov[0][0]) + math.dist(x[0], mean), default=None)
        if best is None or math.dist(best[0], mean) > 1e-6 or np.abs(cov - np.eye(2) * best[1]).max() > 1e-6:
            self.bad = self.bad or f"a landing site around {list(mean)} with covariances {cov.tolist()} is drawn, expected {self.sites}"
            return np.array(mean, dtype=float)
        return np.array([mean[0] + best[2][0], mean[1] + best[2][1]])

    def __enter__(self):
        self.real = np.random.gamma, np.random.multivariate_normal
        np.random.gamma, np.random.multivariate_normal = self.gamma, self.multivariate_normal
        return self

    def __exit__(self, *_):
        np.random.gamma, np.random.multivariate_normal = self.real


def run_case(case, ctx):
    if case[0] == "auto":
        return auto(case, ctx)
    _, s, ts, ds, scripts, offsets = case
    for focus in FOCUS:
        setting = SETTINGS[s]
        env = actr.Environment(focus_position=focus)
        m = actr.ACTRModel(environment=env, automatic_visual_search=False, **setting)
        vis, vl = m.visualBuffer("visual", "vl", m.decmem)
        vis.stop_automatic_buffering()
        actr.chunktype("mcn", "k")
        m.goal.add(actr.chunks.Chunk("mcn", k="0"))
        rules, at = c20.rules_for(ts, ("processor", 0))
        # the second object is searched when the first shift is over
        m.set_productions(*rules)
        screen = {f"s{t}": c20.obj(t, d) for t, d in zip(ts, ds)}
        # what is expected of each shift, given the positions of the eyes
        where, shifts, draws = focus, [], Draws()
        for t, d, (fe, fp, fx, fr), off in zip(ts, ds, scripts, offsets):
            enc, prep, exe, _ = c20.plan(where, POS[t], d, setting, env)
            deg = math.degrees(c20.angle(where, POS[t], env))
            land = POS[t]
            left = None
            if setting.get("emma", True):
                if setting["emma_noise"]:
                    draws.means += [(enc, fe), (prep, fp), (exe, fx)]
                    enc, prep, exe = enc * fe, prep * fp, exe * fx
                if setting.get("emma_landing_site_noise") and deg:
                    draws.sites.append((POS[t], .1 * deg, off))
                    land = (POS[t][0] + off[0], POS[t][1] + off[1])
                foc = (int(land[0]), int(land[1]))
                again, _, exe2, _ = c20.plan(foc, POS[t], d, setting, env)
                if enc > prep + exe:
                    left = (1 - (prep + exe) / enc) * again * (fr if setting["emma_noise"] else 1)
                    if setting["emma_noise"]:
                        draws.means += [(again, fr), (exe2, 1)]
                    deg2 = math.degrees(c20.angle(foc, POS[t], env))
                    if setting.get("emma_landing_site_noise") and deg2:
                        draws.sites.append((POS[t], .1 * deg2, off))
            foc = (int(land[0]), int(land[1]))
            shifts.append((t, enc, prep, exe, left, foc))
            where = foc
        if any(abs(x - y) < 1e-6 and f != g for (x, f), (y, g) in itertools.combinations(draws.means, 2)):
            ctx.outcome("two draws of the same mean")
            continue
        foci = []
        with draws:
            events, _, _ = simrun.simulate(m, 25, lambda e: foci.append((e[0], tuple(env.current_focus))), environment_process=env.environment_process, stimuli=[screen], triggers="", times=100)
        ctx.ran()
        ctx.step(len(events))
        ctx.state((case, focus))
        fired = {int(a[len("RULE FIRED: r"):]): t for t, _, a in events if a.startswith("RULE FIRED")}
        exp = []
        last = 0
        moves = [(0, tuple(focus))]
        for (t, enc, prep, exe, left, foc), k in zip(shifts, at):
            if k not in fired:
                ctx.bad("incomplete", f"focus {focus}: the shift to {t} was not requested: {events[-4:]}")
                return
            r = fired[k]
            exp += [(r, "PREPARATION TO SHIFT VISUAL ATTENTION STARTED"), (r + prep, "PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED"), (max(last, r + prep) + exe, f"SHIFT COMPLETE TO POSITION: {list(foc)}")]
            last = max(last, r + prep) + exe
            moves.append((last, foc))
            e = r + enc if left is None else last + left
            ctx.outcome("before" if enc <= prep else "during" if left is None else "after")
            exp += [(e, "CLEARED"), (e, "ENCODED " + t)]
        obs = [(t, "ENCODED " + a.split("value= ")[-1].rstrip(")'\"") if a.startswith("ENCODED VIS OBJECT") else a) for t, mod, a in events if mod == "visual"]
        exp.sort(key=lambda x: (x[1], x[0]))
        obs.sort(key=lambda x: (x[1], x[0]))
        what = f"focus {focus}, {setting}: "
        if draws.bad:
            ctx.bad("draws", what + draws.bad)
            return
        if [a for _, a in obs] != [a for _, a in exp] or any(abs(x[0] - y[0]) > 1.5e-4 for x, y in zip(obs, exp)):
            ctx.bad("events", what + f"observed {sorted(obs)}, expected {sorted(exp)}")
            return
        for t, f in foci:
            if f not in {[p for x, p in moves if x <= t + eps][-1] for eps in (-2e-4, 2e-4) if t + eps >= 0}:
                ctx.bad("focus", what + f"at {t} the eyes are at {f}, expected {moves}")
                return
        if simrun.content(vis) != c20.seen(max(zip([e for e, a in exp if a.startswith("ENCODED")], [a[-1] for e, a in exp if a.startswith("ENCODED")]))[1]):
            ctx.bad("content", what + f"{simrun.content(vis)}")
            return


def auto(case, ctx):
    """An object that appears at the focus is buffered after its encoding time."""
    _, s, d, f = case
    setting = SETTINGS[s]
    env = actr.Environment(focus_position=(100, 103))
    m = actr.ACTRModel(environment=env, automatic_visual_search=False, **setting)
    m.goal.add(actr.chunks.Chunk("ngt", k="0"))
    m.set_productions(simrun.frule("r", {"=g": ("ngt", {"k": "7"})}, {"=g": ("ngt", {"k": "8"})}))
    K, k = setting.get("eye_mvt_scaling_parameter", .01), setting.get("eye_mvt_angle_parameter", 1)
    enc = K * d * math.exp(k * 2 * c20.angle((100, 103), (100, 100), env)) if d else 0
    draws = Draws()
    draws.means = [(enc, f)] if setting["emma_noise"] else []
    with draws:
        events, _, _ = simrun.simulate(m, 9, None, environment_process=env.environment_process, stimuli=[{}, {"sA": c20.obj("A", d)}], triggers="", times=[.3, 100])
    ctx.ran()
    ctx.state(case)
    ctx.outcome("automatic")
    want = .3 + enc * f
    obs = [t for t, mod, a in events if mod == "visual" and a.startswith("AUTOMATIC BUFFERING")]
    if draws.bad or len(obs) != 1 or abs(obs[0] - want) > 1.5e-4:
        ctx.bad("auto", f"{setting}: an object at the focus is buffered at {obs}, expected {want}; {draws.bad}")


def final(total, tier):
    if not {"before", "during", "after", "automatic"} <= set(total.outcomes):
        yield "vacuous", f"{total.outcomes}"
