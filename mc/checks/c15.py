"""C15 utility learning: rewards update exactly the rules used since the last reward, and selection follows the utilities."""
import itertools

import numpy as np

from mc import prog, simrun
from mc.prog import pat, sp

ID = "C15"
LEVEL = "model_checking"
RULE = ("every assignment of initial utilities, rewards and learning rates to a cyclic program with two competing rules in each "
        "of two or three states, run for many cycles; utilities are compared with U + alpha (R - elapsed - U) after every firing and the "
        "selected rule must have maximal utility; state = distinct (utilities, state)")
ASSUMPTIONS = ["utilities compared to 1e-3 (the code rounds them to four decimals at every update)", "no rule is stopped between selection and firing"]
CHUNK = 16

PAIRS = [(0, 0), (0, 2), (5, 1), (-1, -2)]
REW = [None, 10, -5]
ALPHA = [0.2, 1.0]


def bounds(tier):
    return {"initial utilities per state": PAIRS, "rewards": REW + [0, 3.5], "learning rates": ALPHA + [0.05], "cycles": 16, "rule firing times": [0, 0.05, 0.3],
            "variants": ["learning on", "learning off", "constant utility noise", "textual rules", "three states"]}


def cases(tier):
    for u in itertools.product(PAIRS, repeat=2):
        for r in itertools.product(REW, repeat=4):
            for a in ALPHA:
                yield (u, r, a, 0.05, "on")
    for u in itertools.product(PAIRS, repeat=2):
        for r in itertools.product((None, 0, 3.5), repeat=4):
            if tier == "thorough" or sum(x is not None for x in r) <= 2:
                yield (u, r, 0.2, 0.3, "text")
    for u in itertools.product(PAIRS, repeat=2):
        for r in ((10, None, None, None), (None, None, 10, -5)):
            for v in ("off", "noise"):
                yield (u, r, 0.2, 0.05, v)
    # words of rule uses: the same rule may be used any number of times before a reward
    for n in range(1, (5 if tier == "quick" else 7) + 1):
        for w in itertools.product("ABRS", repeat=n):
            if "R" in w or "S" in w:
                for a in ALPHA:
                    yield (w, (0, 2) if n % 2 else (1, 1), a, 0.05, "word")
                    if n < 5:
                        yield (w, (0, 2) if n % 2 else (1, 1), a, 0, "zero")    # rules that take no time
    # many different rules before a reward
    for n in (6, 9, 12) if tier == "quick" else range(6, 17):
        for at in (n - 1, n - 4, 0):
            for a in ALPHA:
                yield (n, at, a, 0.05, "long")
    for u in itertools.product(PAIRS, repeat=3):
        for r in itertools.product((None, 10), repeat=6):
            if tier == "thorough" or sum(x is not None for x in r) == 1:
                yield (u, r, 0.05, 0.05, "on")


class Utilities(prog.Monitor):
    alpha = 0.2
    learning = True

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.u = {n: float(prog.Monitor.utility(self, n)) for n in self.rules}
        self.used = []

    def utility(self, name):
        # rounded utilities may tie: such choices are not decided
        return round(self.u[name], 3)

    def procedural(self, t, action, snap, st):
        super().procedural(t, action, snap, st)
        if action.startswith("RULE SELECTED: "):
            self.used.append((action[len("RULE SELECTED: "):], t))
        for n in self.u:
            real = self.m.productions[n]["utility"]
            if abs(real - self.u[n]) > 1e-3:
                return self.err("utility", f"rule {n} has utility {real}, predicted {self.u[n]}")
        if self.ctx is not None:
            self.ctx.state((sorted((n, round(x, 2)) for n, x in self.u.items()), action))

    def fire(self, rule, b, t):
        reward = rule[3].get("reward")
        if self.learning and reward is not None:
            for n, ts in self.used:
                self.u[n] += self.alpha * (reward - (t - ts) - self.u[n])
            self.used = []
        super().fire(rule, b, t)


def word_rules(u):
    """Rules A, B (two competitors each), R and S (rewarded) consume a tape of symbols in the goal."""
    shift = tuple((x, sp(var=v)) for x, v in (("s", "x"), ("t", "y"), ("u", "z"), ("v", "w"), ("w", "q")))
    src = tuple((x, sp(var=v)) for x, v in (("t", "x"), ("u", "y"), ("v", "z"), ("w", "w"), ("x", "q")))
    rl = []
    for name, sym, ut, rew in (("A1", "A", u[0], None), ("A2", "A", u[1], None), ("B1", "B", u[0], None), ("B2", "B", 0.5, None), ("R", "R", 0, 10), ("S", "S", 1, -4)):
        rl.append((name, (("=", "g", (("s", sp(sym)),) + src),), (("=", "g", shift + (("x", sp(None)),)),), {"utility": ut, "reward": rew}))
    return rl


def run_case(case, ctx):
    u, r, alpha, rf, variant = case
    rl = []
    if variant == "long":
        return run_long(u, r, alpha, rf, ctx)
    n = len(u)
    if variant == "zero":
        return run_zero(u, r, alpha, ctx)
    if variant == "word":
        return run_word(u, r, alpha, rf, ctx)
    for s in range(n):
        for j in (0, 1):
            rl.append((f"s{s}r{j}", (("=", "g", pat(s=str(s))),), (("=", "g", pat(s=str((s + 1) % n))),), {"utility": u[s][j], "reward": r[2 * s + j]}))
    goals = (("g", 0),)
    params = {"utility_learning": variant != "off", "utility_alpha": alpha, "rule_firing": rf}
    if variant == "noise":
        params.update(subsymbolic=True, utility_noise=0.5)
    m = prog.build(rl, goals, (("g", (("s", "0"),)),), (), params, "text" if variant == "text" else "func")
    orig = np.random.logistic
    np.random.logistic = lambda loc=0.0, scale=1.0, size=None: np.full(size, 1.5) if size is not None else 1.5
    try:
        sim = m.simulation(gui=False)
        mon = Utilities(m, rl, goals, ctx, rule_firing=rf)
        mon.alpha, mon.learning = alpha, variant != "off"
        simrun.simulate(m, rf * 16.5, mon, sim=sim)
        errs = mon.finish(rf * 16.5)
        if not errs:
            # a second simulation starts afresh, with the learned utilities
            m.goals["g"].add(prog.mkc((("s", "0"),)))
            sim = m.simulation(gui=False)
            mon2 = Utilities(m, rl, goals, ctx, rule_firing=rf)
            mon2.alpha, mon2.learning, mon2.u = alpha, variant != "off", dict(mon.u)
            simrun.simulate(m, rf * 5.5, mon2, sim=sim)
            errs = mon2.finish(rf * 5.5)
            ctx.step(mon2.events)
    finally:
        np.random.logistic = orig
    ctx.ran()
    ctx.step(mon.events)
    ctx.outcome((sorted(mon.u, key=lambda x: -mon.u[x])[0], len(mon.fired)))
    for sig, detail in errs:
        ctx.bad(sig, f"utilities {u} rewards {r} alpha {alpha} rule firing {rf} {variant}: {detail}")


def run_long(n, at, alpha, rf, ctx):
    """A cycle of n rules, one of them (rule number at) with a reward."""
    rl = [(f"s{i}", (("=", "g", pat(s=str(i))),), (("=", "g", pat(s=str((i + 1) % n))),), {"utility": i % 3, "reward": 20 if i == at else None}) for i in range(n)]
    m = prog.build(rl, (("g", 0),), (("g", (("s", "0"),)),), (), {"utility_learning": True, "utility_alpha": alpha, "rule_firing": rf}, "func")
    sim = m.simulation(gui=False)
    mon = Utilities(m, rl, (("g", 0),), ctx, rule_firing=rf)
    mon.alpha = alpha
    end = rf * (2 * n + 1.5)
    simrun.simulate(m, end, mon, sim=sim)
    errs = mon.finish(end)
    ctx.ran()
    ctx.step(mon.events)
    if not errs and len(mon.fired) != 2 * n + 1:
        errs = [("not fired", f"{mon.fired}")]
    ctx.outcome(("long", n))
    for sig, detail in errs:
        ctx.bad(sig, f"cycle of {n} rules, reward at {at}, alpha {alpha}: {detail}")


def run_word(word, u, alpha, rf, ctx):
    rl = word_rules(u)
    goals = (("g", 0),)
    tape = tuple(zip("stuvwx", word))
    extra = word[6:]
    m = prog.build(rl, goals, (("g", tape),), (), {"utility_learning": True, "utility_alpha": alpha, "rule_firing": rf}, "func")
    end = rf * (len(word) + 2)
    for k, more in enumerate((None, extra)):
        if more is not None:
            m.goals["g"].add(prog.mkc(tuple(zip("stuvwx", more or ("A", "R")))))
        sim = m.simulation(gui=False)
        mon2 = Utilities(m, rl, goals, ctx, rule_firing=rf)
        mon2.alpha = alpha
        if more is not None:
            mon2.u = dict(mon.u)
        mon = mon2
        simrun.simulate(m, end, mon, sim=sim)
        errs = mon.finish(end)
        ctx.step(mon.events)
        if errs:
            break
        if more is None and len(mon.fired) != min(6, len(word)):
            errs = [("not fired", f"{mon.fired}")]
            break
    ctx.ran()
    ctx.outcome(("word", len(word), mon.fired[-1] if mon.fired else None))
    for sig, detail in errs:
        ctx.bad(sig, f"word {word} utilities {u} alpha {alpha}: {detail}")


def run_zero(word, u, alpha, ctx):
    """Rules that take no time: a rule may be used several times at one moment; every use counts."""
    rl = word_rules(u)
    m = prog.build(rl, (("g", 0),), (("g", tuple(zip("stuvwx", word))),), (), {"utility_learning": True, "utility_alpha": alpha, "rule_firing": 0}, "func")
    events, _, _ = simrun.simulate(m, 1)
    util = {x[0]: float(x[3]["utility"]) for x in rl}
    reward = {x[0]: x[3]["reward"] for x in rl}
    used, fired, bad = [], [], None
    for t, _, action in events:
        if action.startswith("RULE SELECTED: "):
            n = action[len("RULE SELECTED: "):]
            used.append(n)
            if max(v for x, v in util.items() if x[0] == n[0]) > util[n] + 1e-3:
                bad = f"selected {n} with utilities {util}"
        if action.startswith("RULE FIRED: "):
            n = action[len("RULE FIRED: "):]
            fired.append(n)
            if reward[n] is not None:
                for x in used:
                    util[x] += alpha * (reward[n] - util[x])
                used = []
    real = {x: m.productions[x]["utility"] for x in util}
    if not bad and "".join(n[0] for n in fired) != "".join(word):
        bad = f"fired {fired}"
    if not bad and any(abs(real[x] - util[x]) > 1e-3 for x in util):
        bad = f"utilities {real}, predicted {util}"
    ctx.ran()
    ctx.step(len(events))
    ctx.outcome(("zero", len(word)))
    if bad:
        ctx.bad("zero", f"rules that take no time, word {word} utilities {u} alpha {alpha}: {bad}")


def final(total, tier):
    if len(total.outcomes) < 4:
        yield "vacuous", f"{total.outcomes}"
