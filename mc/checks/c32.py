"""C32 a simulation uses the buffers, memories, rules and parameters last set in the model."""
import itertools


from mc import simrun
from mc.simrun import actr

ID = "C32"
LEVEL = "model_checking"
RULE = ("every sequence of operations that set, replace, delete and change goal and retrieval buffers, memories, rules, utilities and "
        "parameters of a model, with simulations in between and at the end; after each operation the collections and accessors of the "
        "model, and in each simulation the events and the final buffers and memories, are compared with a reference that keeps what was "
        "set last; state = distinct (buffers, memories, rules, parameters)")
ASSUMPTIONS = ["writing over a chunk in a goal buffer by hand is left out (its documentation contradicts itself on whether the old chunk is harvested)",
               "no simulation is run while a rule mentions a buffer that was removed from the model (or never set), and none with two memories (C25 covers those)"]
CHUNK = 16

START, MEM = (("s", "start"),), (("s", "mem"),)
OPS = [("goal", "g", 0), ("goal", "g", 0.1), ("goal", "h", 0.2), ("goal=", "g"), ("nogoals",), ("put", "g"), ("put", "h"),
       ("retrieval", "retrieval"), ("retrieval", "r2"), ("retrieval=", "retrieval"),
       ("memory", (MEM,)), ("memory=", ()), ("present",), ("second memory",),
       ("functions", (("a", "G", 1), ("h1", "H", 0))), ("functions", (("a", "H", 0.25), ("b", "G", 0.5), ("c", "G", -0.5))),
       ("text", "a", "G", 0, None), ("text", "b", "R", 1.5, 3), ("text", "h1", "H", 1, 0),
       ("delete", "a"), ("update", "b", "G", 2, 4), ("utility", "a", -1), ("utility", "h1", 3), ("reward", "a", 7),
       ("firing", 0.2), ("learning",), ("run",)]
DEPTH = {"quick": (0, 1, 2, 3), "thorough": (0, 1, 2, 3, 4)}
BASE = (("put", "g"), ("memory", (MEM,)), ("functions", (("a", "G", 0),)))


def bounds(tier):
    return {"operations": OPS, "lengths of sequences": DEPTH[tier], "done before each": BASE}


def cases(tier):
    for n in DEPTH[tier]:
        if n < 2:
            for h in itertools.product(range(len(OPS)), repeat=n):
                yield (h, 0)
        else:
            for h in itertools.product(range(len(OPS)), repeat=n - 1):
                yield (h, 1)


def sides(kind, tag):
    """What a rule tests and does: G and R read g, clear or modify it, and start a retrieval, H reads h and sets g."""
    if kind == "H":
        return {"=h": ("mccfg", {"s": "start"})}, {"=h": ("mccfg", {"s": "done"}), "+g": ("mccfg", {"s": tag})}
    if kind == "G":
        return {"=g": ("mccfg", {"s": "start"})}, {"~g": None, "+retrieval": ("mccfg", {"s": "mem"})}
    return {"=g": ("mccfg", {"s": "start"})}, {"=g": ("mccfg", {"s": tag}), "+r2": ("mccfg", {"s": "mem"})}


def text(kind, tag):
    def side(d):
        return " ".join(f"{k}> " + (f"isa {v[0]} " + " ".join(f"{s} {x}" for s, x in v[1].items()) if v else "") for k, v in d.items())
    l, r = sides(kind, tag)
    return side(l) + " ==> " + side(r)


def mk(c):
    return actr.chunks.Chunk("mccfg", **dict(c))


MENTIONS = {"G": {"g", "retrieval"}, "R": {"g", "r2"}, "H": {"h", "g"}}


class Ref:
    """What was set last, together with the real model."""

    def __init__(self):
        self.m = actr.ACTRModel()
        self.goals = {"g": [None, 0]}
        self.retrievals = {"retrieval": None}
        self.memories = {"decmem": {}}
        self.rules = {}         # name -> [kind, tag, utility, reward]
        self.firing = 0.05
        self.learning = False
        self.removed = set()    # buffers removed from the collections
        self.tags = 0
        self.objects = {}

    def tag(self):
        self.tags += 1
        return f"tag{self.tags}"

    def do(self, op, ctx, where):
        """Carry out an operation; False if it does not apply."""
        m, what = self.m, op[0]
        if what in ("goal", "goal="):
            name, delay = op[1], op[2] if what == "goal" else 0
            if what == "goal":
                got = m.set_goal(name, delay)
                if got is not m.goals[name]:
                    ctx.bad("returned", f"{where}: set_goal returns another buffer than the one in the model")
            else:
                m.goal = name
            if self.objects.get(name) is m.goals[name]:
                ctx.bad("not-replaced", f"{where}: the goal buffer {name} is the previous one")
            self.objects[name] = m.goals[name]
            self.goals[name] = [None, delay]
            self.removed.discard(name)
        elif what == "nogoals":
            m.goals = {}
            self.removed |= set(self.goals)
            self.goals = {}
        elif what == "put":
            if op[1] not in self.goals or self.goals[op[1]][0] is not None:
                return False
            m.goals[op[1]].add(mk(START))
            self.goals[op[1]][0] = START
        elif what in ("retrieval", "retrieval="):
            if what == "retrieval":
                got = m.set_retrieval(op[1])
                if got is not m.retrievals[op[1]]:
                    ctx.bad("returned", f"{where}: set_retrieval returns another buffer than the one in the model")
            else:
                m.retrieval = op[1]
            self.retrievals[op[1]] = None
        elif what in ("memory", "memory="):
            data = {mk(c): 0 for c in op[1]}
            if what == "memory":
                got = m.set_decmem(data)
            else:
                m.decmem = data
            name = "decmem" if len(self.memories) == 1 else "decmem" + str(len(self.memories))
            self.memories[name] = {c: (0.0,) for c in op[1]}
            if what == "memory" and got is not m.decmems.get(name):
                ctx.bad("returned", f"{where}: set_decmem returns another memory than the one in the model")
        elif what == "present":
            if len(self.memories) > 1:
                return False
            m.decmem.add(mk(MEM), 0)
            d = self.memories["decmem"]
            d[MEM] = d.get(MEM, ()) + (0.0,)
        elif what == "second memory":
            if len(self.memories) > 1:
                return False
            m.decmems["other"] = actr.declarative.DecMem()
            self.memories["other"] = {}
        elif what == "functions":
            self.rules, fs = {}, []
            for name, kind, utility in op[1]:
                tag = self.tag()
                fs.append(simrun.frule(name, *sides(kind, tag), utility=utility))
                self.rules[name] = [kind, tag, utility, None]
            got = m.set_productions(*fs)
            if got is not m.productions:
                ctx.bad("returned", f"{where}: set_productions returns other rules than those of the model")
        elif what == "text":
            _, name, kind, utility, reward = op
            tag = self.tag()
            got = m.productionstring(name=name, string=text(kind, tag), utility=utility, reward=reward)
            if got is not m.productions[name]:
                ctx.bad("returned", f"{where}: productionstring returns another rule than the one in the model")
            self.rules[name] = [kind, tag, utility, reward]
        elif what == "update":
            _, name, kind, utility, reward = op
            tag = self.tag()
            m.productions.update({name: {"rule": simrun.frule(name, *sides(kind, tag)), "utility": utility, "reward": reward}})
            self.rules[name] = [kind, tag, utility, reward]
        elif what == "delete":
            if op[1] not in self.rules:
                return False
            del m.productions[op[1]]
            del self.rules[op[1]]
        elif what in ("utility", "reward"):
            if op[1] not in self.rules:
                return False
            m.productions[op[1]][what] = op[2]
            self.rules[op[1]][2 if what == "utility" else 3] = op[2]
        elif what == "firing":
            m.model_parameters["rule_firing"] = op[1]
            self.firing = op[1]
        elif what == "learning":
            m.model_parameters["utility_learning"] = self.learning = True
        elif what == "run":
            return self.run(ctx, where)
        return True

    def agree(self, ctx, where):
        m = self.m
        got = {n: [simrun.content(b), b.delay] for n, b in m.goals.items()}
        if got != self.goals:
            ctx.bad("goals", f"{where}: goal buffers {got}, expected {self.goals}")
        got = {n: simrun.content(b) for n, b in m.retrievals.items()}
        if got != self.retrievals:
            ctx.bad("retrievals", f"{where}: retrieval buffers {got}, expected {self.retrievals}")
        got = {n: simrun.dm_content(d) for n, d in m.decmems.items()}
        if got != self.memories:
            ctx.bad("memories", f"{where}: memories {got}, expected {self.memories}")
        got = {n: [m.productions[n]["utility"], m.productions[n]["reward"]] for n in m.productions}
        exp = {n: r[2:] for n, r in self.rules.items()}
        if got != exp or len(m.productions) != len(exp) or any(n not in m.productions for n in exp) or "nobody" in m.productions:
            ctx.bad("rules", f"{where}: rules {got}, expected {exp}")
        for acc, coll, real in (("goal", self.goals, m.goals), ("retrieval", self.retrievals, m.retrievals), ("decmem", self.memories, m.decmems)):
            try:
                x = getattr(m, acc)
            except ValueError:
                x = None
            exp = next(iter(real.values())) if len(coll) == 1 else None
            if x is not exp:
                ctx.bad("accessor", f"{where}: model.{acc} gives {x!r} although there are {len(coll)}: {coll}")

    def run(self, ctx, where):
        present = set(self.goals) | set(self.retrievals)
        if len(self.memories) > 1:
            return False
        for n, (kind, *_) in self.rules.items():
            for b in MENTIONS[kind]:
                if b not in present and (b in self.removed or b != "h"):
                    return False
        events, _, _ = simrun.simulate(self.m, until=5)
        ctx.ran()
        dm = self.memories["decmem"]
        chosen = [(t, x.split(": ", 1)[1]) for t, mod, x in events if x.startswith("RULE SELECTED: ")]
        exp = []
        used = {}               # rule -> times of its selections since the last reward
        t = 0.0
        requests = {}           # retrieval buffer -> time of the only request
        done = []               # (time, module, action)
        while True:
            can = {n for n, r in self.rules.items()
                   if (self.goals.get("h" if r[0] == "H" else "g") or [None])[0] == START}
            k = len(exp)
            if not can:
                break
            top = max(self.rules[n][2] for n in can)
            ok = {n for n in can if self.rules[n][2] == top}
            if k >= len(chosen) or chosen[k][0] != round(t, 4) or chosen[k][1] not in ok:
                ctx.bad("selected", f"{where}: rules selected {chosen}; number {k + 1} should be one of {sorted(ok)} at {t}")
                return True
            name = chosen[k][1]
            exp.append((round(t, 4), name))
            used.setdefault(name, []).append(t)
            t = round(t + self.firing, 4)
            reward = self.rules[name][3]
            if self.learning and reward is not None:
                for n, times in used.items():
                    for x in times:
                        self.rules[n][2] = round(self.rules[n][2] + 0.2 * (reward - (t - x) - self.rules[n][2]), 4)
                used = {}
            done.append((t, "PROCEDURAL", "RULE FIRED: " + name))
            kind, tag = self.rules[name][:2]
            new = (("s", tag),)
            if kind == "H":
                self.goals["h"][0] = (("s", "done"),)
                done.append((t, "h", "MODIFIED"))
                old, delay = self.goals["g"]
                done.append((t, "g", "CLEARED"))
                if old is not None:
                    dm[old] = dm.get(old, ()) + (t,)
                self.goals["g"][0] = new
                done.append((round(t + delay, 4), "g", f"CREATED A CHUNK: mccfg(s= {tag})"))
            elif kind == "G":
                self.goals["g"][0] = None
                done.append((t, "g", "CLEARED"))
                dm[START] = dm.get(START, ()) + (t,)
                requests["retrieval"] = t
            else:
                self.goals["g"][0] = new
                done.append((t, "g", "MODIFIED"))
                requests["r2"] = t
        if len(chosen) != len(exp):
            ctx.bad("selected", f"{where}: rules selected {chosen}, expected {exp}")
            return True
        for b, t0 in requests.items():
            done.append((t0, b, "START RETRIEVAL"))
            if MEM in dm:
                old = self.retrievals[b]
                if old is not None:
                    dm[old] = dm.get(old, ()) + (t0,)
                self.retrievals[b] = MEM
                done.append((t0, b, "CLEARED"))
                done.append((t0, b, "RETRIEVED: mccfg(s= mem)"))
            else:
                done.append((round(t0 + self.firing, 4), b, "RETRIEVED: None"))
        got = [e for e in events if e[2] not in ("CONFLICT RESOLUTION", "NO RULE FOUND") and not e[2].startswith("RULE SELECTED")]
        for d in dm:
            dm[d] = tuple(sorted(dm[d]))
        if sorted(got) != sorted(done):
            ctx.bad("events", f"{where}: events {sorted(got)}, expected {sorted(done)}")
        ctx.outcome((len(exp), tuple(sorted(self.rules[n][0] for _, n in exp)), MEM in dm, len(self.rules)))
        return True


def run_seq(h, ctx):
    """One sequence; False if an operation does not apply."""
    actr.chunktype("mccfg", "s")
    ref = Ref()
    for op in BASE:
        ref.do(op, ctx, "base")
    for i, k in enumerate(h):
        w = f"after {[OPS[x] for x in h[:i + 1]]}"
        if not ref.do(OPS[k], ctx, w):
            return
        ctx.step()
        ref.agree(ctx, w)
        ctx.state((ref.goals, ref.retrievals, ref.memories, ref.rules, ref.firing, ref.learning))
        if ctx.problems:
            return
    w = f"after {[OPS[x] for x in h]} and a last simulation"
    if ref.run(ctx, w):
        ref.agree(ctx, w)


def run_case(case, ctx):
    h, more = case
    if not more:
        return run_seq(h, ctx)
    for k in range(len(OPS)):
        run_seq(h + (k,), ctx)
        if ctx.problems:
            return


def final(total, tier):
    if len(total.outcomes) < 20:
        yield "vacuous", f"outcomes {dict(total.outcomes)}"
