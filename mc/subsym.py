"""
Reference for subsymbolic retrieval (docs/actrparameters.tex): activation, threshold, latency; and the refinement
monitor that predicts, at the start of every retrieval, which chunk must arrive and when.
"""
import math

from mc import prog, ref
from mc.prog import Ob

DEFAULTS = {"latency_factor": 0.1, "latency_exponent": 1.0, "decay": 0.5, "baselevel_learning": True, "optimized_learning": False,
            "retrieval_threshold": 0, "buffer_spreading_activation": {}, "spreading_activation_restricted": False,
            "strength_of_association": 0, "association_only_from_chunks": True, "partial_matching": False, "mismatch_penalty": 1}


def base(p, now, times):
    """Base-level activation, None if the chunk was never presented in the past."""
    past = [now - t for t in times if t < now - 1e-9]
    if not p["baselevel_learning"]:
        return 0.0
    if not past:
        return None
    if p["optimized_learning"]:
        return math.log(len(past) / (1 - p["decay"])) - p["decay"] * math.log(max(past))
    return math.log(sum(x ** -p["decay"] for x in past))


def sources(p, chunk):
    return [(s, v) for s, v in (chunk or ()) if v is not None and (isinstance(v, tuple) or not p["association_only_from_chunks"])]


def spreading(p, chunk, bufs, dm):
    """Sum over source buffers of W/n * (S - ln((1 + occurrences of j in memory) / occurrences of j in the chunk))."""
    total = 0.0
    for buf, w in p["buffer_spreading_activation"].items():
        src = sources(p, bufs.get(buf))
        for slot, j in src:
            restricted = p["spreading_activation_restricted"]
            vals = sources(p, chunk)
            linked = (slot, j) in vals if restricted else j in [v for _, v in vals] or (j == chunk)
            if not linked:
                continue
            fan = 1 + sum(1 for c in dm for s, v in c if v == j and (not restricted or s == slot))
            own = max(1, sum(1 for _, v in vals if v == j))
            total += w / len(src) * (p["strength_of_association"] - math.log(fan / own))
    return total


def mismatch(p, pattern, chunk, similarities):
    """Sum of the (non-positive) similarities over the constraints that the chunk does not meet."""
    c = dict(chunk)
    total = 0.0
    for slot, (value, var, negvals, negvars) in pattern:
        actual = c.get(slot)
        if value != ref.NOTHING and value != actual:
            total += similarities.get((value, actual), -p["mismatch_penalty"])
        for n in negvals:
            if n == actual:
                total += similarities.get((n, n), -p["mismatch_penalty"])
    return total


def activation(p, now, pattern, chunk, times, bufs, dm, similarities=None, manual=None):
    """Activation without noise; None if the chunk cannot be retrieved now."""
    a = base(p, now, times)
    m = (manual or {}).get(chunk)
    if m is not None:
        a = m if a is None else math.log(math.exp(a) + math.exp(m))
    if a is None:
        return None
    pm = 0.0
    if p["partial_matching"]:
        pm = mismatch(p, pattern, chunk, similarities or {})
    elif ref.match(pattern, chunk, {}) is None:
        return None
    return a + spreading(p, chunk, bufs, dm) + pm


def outcomes(p, acts):
    """{chunk: activation} -> list of (chunk or None, activation, delay): more than one only for ties."""
    ok = {c: a for c, a in acts.items() if a is not None and a >= p["retrieval_threshold"] - 1e-9}
    if not ok:
        return [(None, None, latency(p, p["retrieval_threshold"]))]
    top = max(ok.values())
    return [(c, a, latency(p, a)) for c, a in ok.items() if a > top - 1e-9]


def latency(p, a):
    return p["latency_factor"] * math.exp(-a * p["latency_exponent"])


class SubMonitor(prog.Monitor):
    """Retrieval predicted by the subsymbolic reference; everything else as in the symbolic monitor."""
    params = DEFAULTS
    similarities = {}
    manual = {}
    finst = None

    def eff_start(self, buf, pattern, b):
        def f(t, snap, action):
            p = self.params
            bufs, dm = snap
            pat = prog.request_pattern(pattern, b)
            acts = {c: activation(p, t, pat, c, times, bufs, dm, self.similarities, self.manual) for c, times in dm.items()}
            self.last_acts = acts
            res = outcomes(p, acts)
            due = t + res[0][2]
            if any(x is not None for x, _, _ in res):
                self.obs.append(Ob(buf, due, "CLEARED", None, "request"))
                self.obs.append(Ob(buf, due, "RETRIEVED", self.eff_retrieved(buf, [x for x, _, _ in res]), "request"))
            else:
                self.obs.append(Ob(buf, due, "RETRIEVED: None", None, "request"))
        return f


def run(rules, goals=(("g", 0),), init=(), dm=(), params=None, until=0.42, ctx=None, mode="text", similarities=None, manual=None, prepare=None):
    params = dict(params or {})
    p = dict(DEFAULTS)
    p.update(params)
    m = prog.build(rules, goals, init, dm, dict(params, subsymbolic=True), mode)
    for (x, y), v in (similarities or {}).items():
        m.set_similarities("None" if x is None else x, "None" if y is None else y, v)
    for c, a in (manual or {}).items():
        m.decmem.add_activation(prog.mkc(c), a)
    if prepare:
        prepare(m)
    sim = m.simulation(gui=False)
    mon = SubMonitor(m, rules, goals, ctx, strict=params.get("strict_harvesting", False), rule_firing=params.get("rule_firing", 0.05))
    mon.params, mon.similarities, mon.manual = p, similarities or {}, manual or {}
    prog.simrun.simulate(m, until, mon, sim=sim)
    errs = mon.finish(until)
    if ctx is not None:
        ctx.ran()
        ctx.step(mon.events)
    return errs, mon
