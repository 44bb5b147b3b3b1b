"""C08 subsymbolic retrieval: the most active matching chunk above threshold, after the latency its activation determines."""
import itertools
import math

import numpy as np

from mc import prog, simrun, subsym
from mc.prog import pat, sp
from mc.subsym import DEFAULTS

ID = "C08"
LEVEL = "model_checking"
RULE = ("every assignment of presentation histories to the chunks of memory x requests x parameter settings; every history of "
        "requests, harvests, idle cycles and renewed requests (also while a retrieval is under way); every assignment of "
        "scripted noise draws; state = distinct (buffers, memory) reached")
ASSUMPTIONS = ["activation noise is owned by the harness (numpy's logistic generator is replaced by a script, any order of draws)",
               "times compared at the documented resolution of 0.1 ms"]
CHUNK = 8

A, AB, B = (("s", "a"),), (("s", "a"), ("t", "b")), (("s", "b"),)
U = [A, AB, B]
TIMES = [None, (-1,), (-0.95,), (-10,), (-10, -1), (-0.3, -0.2, -0.1), (-10, -100, -0.95, -10)]
REQ = [pat(s="a"), pat(t="b"), pat(s=sp(nv=["b"])), ()]
PARAMS = [{}, {"retrieval_threshold": -2}, {"decay": 0.3, "retrieval_threshold": -0.5}, {"latency_factor": 0.63, "latency_exponent": 0.5, "retrieval_threshold": -2},
          {"optimized_learning": True, "retrieval_threshold": -1}, {"optimized_learning": True, "decay": 0.8, "retrieval_threshold": 0.3}, {"baselevel_learning": False}, {"baselevel_learning": False, "retrieval_threshold": 0.2},
          {"retrieval_threshold": 0.5, "latency_exponent": 2.0}, {"rule_firing": 0.1, "retrieval_threshold": -3, "decay": 0.9}]
HACT = [None, ("~", "h"), ("+", "h", pat(s="a")), ("+", "h", pat(s="b"))]
RACT = [None, ("+", "retrieval", pat(s="a")), ("+", "retrieval", pat(s="b")), ("+", "retrieval", ()), ("~", "retrieval")]
HPARAMS = [{"retrieval_threshold": -2, "latency_factor": 0.02}, {"retrieval_threshold": -2, "latency_factor": 0.2}, {"retrieval_threshold": 1.2, "latency_factor": 0.1},
           {"optimized_learning": True, "retrieval_threshold": 0, "latency_factor": 0.1}]
NOISE = [-3.0, -0.4, 0.0, 1.5]
HOW = ["plain", "added again", "copied before", "set twice"]
MANUAL = [None, -1.0, 0.7]


def bounds(tier):
    return {"presentation histories": TIMES, "chunks": len(U), "requests": len(REQ), "parameter settings": PARAMS, "history length": 3 if tier == "quick" else 4,
            "history parameters": HPARAMS, "noise values": NOISE, "manual activations": MANUAL, "given": HOW}


def cases(tier):
    for i in range(len(PARAMS)):
        for r in range(len(REQ)):
            for a in range(len(TIMES)):
                yield ("one", i, r, a)
    acts = [tuple(x for x in a if x) for a in itertools.product(HACT, RACT)]
    for i in range(len(HPARAMS)):
        use = acts if (tier == "thorough" or i == 1) else [a for a in acts if len(a) != 1 or a[0][1] == "retrieval"][:12]
        for h in itertools.product(use, repeat=2):
            yield ("hist", h, i)
    for i in range(len(HPARAMS)):
        use = acts if tier == "thorough" else acts[1:9]
        for h in itertools.product(use, repeat=3):
            yield ("hist", h, i)
    if tier == "thorough":
        use = acts[1:9]
        for i in range(len(HPARAMS)):
            for h in itertools.product(use, repeat=4):
                yield ("hist", h, i)
    for r in range(len(REQ)):
        for i in (1, 3, 5):
            for a in range(len(TIMES)):
                yield ("noise", r, i, a)
    for i in range(len(PARAMS)):
        yield ("manual", i)


RULES = {}


def one_rules(r):
    return [("go", (("=", "k", pat(s="0")),), (("+", "retrieval", REQ[r]), ("=", "k", pat(s="1")))),
            ("got", (("=", "k", pat(s="1")), ("?", "retrieval", (("buffer", "full"), ("state", "free")))), (("=", "k", pat(s="2")), ("~", "retrieval"))),
            ("failed", (("=", "k", pat(s="1")), ("?", "retrieval", (("state", "error"),))), (("=", "k", pat(s="3")),)),
            ("again", (("=", "k", pat(s="2")),), (("=", "k", pat(s="4")), ("+", "retrieval", REQ[r])))]


def report(errs, rl, ctx, extra=""):
    for sig, detail in errs:
        ctx.bad(sig, "\n".join(prog.rule_text(r) for r in rl) + f"\n {extra}: {detail}")


K0 = ("k", (("s", "0"),))


def add_times(mem):
    def f(m):
        for c, ts in mem:
            for t in ts:
                m.decmem.add(prog.mkc(c), t)
    return f


def run_case(case, ctx):
    if case[0] == "one":
        _, i, r, a = case
        rl = one_rules(r)
        for ts in itertools.product(TIMES, repeat=2):
            mem = [(c, t) for c, t in zip(U, (TIMES[a],) + ts) if t]
            errs, mon = subsym.run(rl, (("g", 0), ("k", 0)), (K0,), (), PARAMS[i], 3.0, ctx, "func", prepare=add_times(mem))
            ctx.outcome((mon.bufs["retrieval"], len(mon.fired)))
            report(errs, rl, ctx, f"parameters {PARAMS[i]}, memory {mem}")
            if len(mon.fired) < 2:
                ctx.bad("incomplete", f"{mon.fired} {mem} {PARAMS[i]}")
    elif case[0] == "hist":
        _, hist, i = case
        rl = []
        for n, acts in enumerate(hist):
            rl.append(("r%d" % n, (("=", "k", pat(s=str(n))),), acts + (("=", "k", pat(s=str(n + 1))),)))
        errs, mon = subsym.run(rl, (("g", 0), ("h", 0), ("k", 0)), (("h", A), K0), ((AB, -1), (B, -0.5)), HPARAMS[i], 0.05 * len(hist) + 1, ctx, "func")
        ctx.outcome((mon.bufs["retrieval"], mon.harvests))
        report(errs, rl, ctx, f"parameters {HPARAMS[i]}")
    elif case[0] == "noise":
        noise(case, ctx)
    else:
        i = case[1]
        rl = one_rules(3)
        if not PARAMS[i].get("baselevel_learning", True):
            return
        for ts in itertools.product(TIMES[1:5], repeat=2):
            for ms in itertools.product(MANUAL, repeat=2):
                mem = list(zip((A, B), ts))
                man = {c: x for c, x in zip((A, B), ms) if x is not None}
                for how in HOW:
                    errs, mon = manual_run(rl, mem, man, how, PARAMS[i], ctx)
                    ctx.outcome(("manual", mon.bufs["retrieval"]))
                    report(errs, rl, ctx, f"parameters {PARAMS[i]}, memory {mem}, manual activations {man} ({how})")


def manual_run(rl, mem, man, how, params, ctx):
    def prep(m):
        add_times(mem)(m)
        if how == "added again":            # a deleted chunk takes its activation with it
            for c, ts in mem:
                m.decmem.add_activation(prog.mkc(c), 3.0)
                del m.decmem[prog.mkc(c)]
            add_times(mem)(m)
        elif how == "copied before":         # the activations of a copy are its own
            other = m.decmem.copy()
            for c, ts in mem:
                other.add_activation(prog.mkc(c), 3.0)
        elif how == "set twice":
            for c, ts in mem[:1]:
                if c in man:
                    m.decmem.add_activation(prog.mkc(c), 3.0)
        for c, x in man.items():
            m.decmem.add_activation(prog.mkc(c), x)
    p = dict(DEFAULTS)
    p.update(params)
    m = prog.build(rl, (("g", 0), ("k", 0)), (K0,), (), dict(params, subsymbolic=True), "func")
    prep(m)
    sim = m.simulation(gui=False)
    mon = subsym.SubMonitor(m, rl, (("g", 0), ("k", 0)), ctx, rule_firing=params.get("rule_firing", 0.05))
    mon.params, mon.manual = p, man
    simrun.simulate(m, 3.0, mon, sim=sim)
    ctx.ran()
    return mon.finish(3.0), mon


def noise(case, ctx):
    """Scripted draws: the result is that of adding the draws, in some order, to the activations of the candidates."""
    _, r, i, a = case
    params = dict(PARAMS[i])
    for s in (0.5, 1):
        for ts in (((-1,), (-10,)), ((-0.95,), (-0.3, -0.2, -0.1)), (None, (-1,)), ((-100,), None)):
            mem = [(c, t) for c, t in zip(U, (TIMES[a],) + ts) if t]
            p = dict(DEFAULTS)
            p.update(params)
            for script in itertools.product(NOISE, repeat=max(1, min(3, len(mem)))):
                draws = []

                def logistic(loc=0.0, scale=1.0, size=None):
                    x = loc + scale * script[len(draws) % len(script)]
                    draws.append((scale, x))
                    return x if size is None else np.full(size, x)
                rl = one_rules(r)
                m = prog.build(rl[:1], (("g", 0), ("k", 0)), (K0,), (), dict(params, subsymbolic=True, instantaneous_noise=s), "func")
                add_times(mem)(m)
                orig = np.random.logistic
                np.random.logistic = logistic
                try:
                    ev, sim, _ = simrun.simulate(m, 60.0)
                finally:
                    np.random.logistic = orig
                ctx.ran()
                ctx.step(len(ev))
                got = [(t, x) for t, proc, x in ev if proc == "retrieval" and x.startswith("RETRIEVED")]
                rf = p.get("rule_firing", 0.05)
                acts = {c: subsym.activation(p, rf, REQ[r], c, t, {}, dict(mem)) for c, t in mem}
                acts = {c: x for c, x in acts.items() if x is not None}
                if len(draws) < len(acts) or any(abs(sc - s) > 1e-9 for sc, _ in draws):
                    ctx.bad("noise draws", f"{len(draws)} draws {draws} for {len(acts)} candidates, noise {s}")
                    return
                allowed = set()
                for perm in set(itertools.permutations([x for _, x in draws], len(acts))) if len(draws) <= 4 else ():
                    for c, x, d in subsym.outcomes(p, {c: x + n for (c, x), n in zip(acts.items(), perm)}):
                        allowed.add((c, round(rf + d, 4)))
                real = (simrun.content(m.retrieval), got[0][0] if got else None)
                ctx.state((sorted(mem), r, i, real))
                ctx.outcome(("noise", real[0]))
                if not any(c == real[0] and real[1] is not None and abs(real[1] - d) < 1.5e-4 for c, d in allowed):
                    ctx.bad("noise", f"memory {mem}, request {REQ[r]}, {params}, draws {draws}: got {real}, allowed {sorted(allowed, key=repr)}")
                    return


def final(total, tier):
    if len(total.outcomes) < 10:
        yield "vacuous", f"outcomes {dict(total.outcomes)}"
