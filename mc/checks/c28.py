"""C28 the trace of activations: the printed components are those that decided the retrieval."""
import itertools
import re

import numpy as np

from mc import prog, simrun, subsym
from mc.prog import pat, sp
from mc.simrun import actr, frule

ID = "C28"
LEVEL = "model_checking"
RULE = ("every memory of two chunks (thorough: three) out of a list with presentation histories x requests x settings of learning, spreading, partial matching and noise, two retrievals in a row with the trace of activations on, "
        "and the same run with the trace off; every printed block and the stored activation compared with the components of a reference; state = distinct (setting, request, memory)")
ASSUMPTIONS = ["for which chunks besides the retrieved one a block is printed is left open", "activation noise is owned by the harness (numpy's logistic generator is replaced by a constant)"]
CHUNK = 20

actr.chunktype("agt", "k a")
actr.chunktype("aft", "s t")
ITEMS = [(("s", "a"),), (("s", "a"), ("t", "b")), (("s", "b"),), (("s", "c"), ("t", "a"))]
TIMES = [(-1,), (-10, -.5), (-100,)]
REQ = [{"s": "a"}, {"s": "~b"}, {"t": "b"}, {"s": "c", "t": "~a"}]
BASE = dict(subsymbolic=True, retrieval_threshold=-9, latency_factor=.02)
SETTINGS = [{}, {"optimized_learning": True, "decay": .3}, {"baselevel_learning": False},
            {"buffer_spreading_activation": {"g": 1.5}, "strength_of_association": 2, "association_only_from_chunks": False},
            {"partial_matching": True, "mismatch_penalty": .7}, {"instantaneous_noise": .4}, {"retrieval_threshold": .2},
            {"partial_matching": True, "buffer_spreading_activation": {"g": 2}, "association_only_from_chunks": False, "instantaneous_noise": .2, "latency_exponent": .5}]
DRAW = .37
LABELS = ["Base level learning", "Spreading activation", "Partial matching", "Noise", "Total activation", "Time to retrieve"]


def bounds(tier):
    return {"chunks": ITEMS, "presentations": TIMES, "requests": REQ, "settings": SETTINGS, "chunks in memory": "1 and 2" if tier == "quick" else "1 to 4"}


def cases(tier):
    for s in range(len(SETTINGS)):
        for r in range(len(REQ)):
            for n in (1, 2) if tier == "quick" else (1, 2, 3, 4):
                for cs in itertools.combinations(range(len(ITEMS)), n):
                    for ts in itertools.product(range(len(TIMES)), repeat=n):
                        yield (s, r, cs, ts)


def model(s, r, mem, trace):
    m = actr.ACTRModel(**{**BASE, **SETTINGS[s]}, activation_trace=trace)
    m.goal.add(simrun.mk({"k": "0", "a": "a"}, "agt"))
    for c, ts in mem.items():
        for t in ts:
            m.decmem.add(simrun.mk(c, "aft"), t)
    free = {"?retrieval": {"state": "free"}}
    m.set_productions(frule("r0", {"=g": ("agt", {"k": "0"})}, {"=g": ("agt", {"k": "1"}), "+retrieval": ("aft", REQ[r])}),
                      frule("r1", {"=g": ("agt", {"k": "1"}), **free}, {"=g": ("agt", {"k": "2", "a": "b"}), "+retrieval": ("aft", REQ[(r + 1) % len(REQ)])}))
    return m


def blocks(lines):
    """[(chunk, {label: value})] of the printed lines, the rest."""
    out, rest = [], []
    for l in lines:
        x = re.fullmatch(r"\(Partially\) matching chunk:? (.*)", l)
        y = re.fullmatch(r"(" + "|".join(LABELS) + r"):? (\S+)", l)
        if x:
            out.append((x[1], {}))
        elif y and out and y[1] not in out[-1][1]:
            out[-1][1][y[1]] = float(y[2])
        else:
            rest.append(l)
    return out, rest


def run_case(case, ctx):
    s, r, cs, ts = case
    mem = {ITEMS[c]: TIMES[t] for c, t in zip(cs, ts)}
    p = {**subsym.DEFAULTS, **BASE, **SETTINGS[s]}
    what = f"settings {SETTINGS[s]}, memory {mem}: "
    m = model(s, r, mem, True)
    w = simrun.TraceWriter()
    starts, seen = [], []

    def on_event(e):
        if e[1] == "retrieval" and e[2] == "START RETRIEVAL":
            starts.append((e[0], simrun.content(m.goal), simrun.dm_content(m.decmem)))
            seen.append(len(w.lines))
        if e[1] == "retrieval" and e[2].startswith("RETRIEVED"):
            seen.append((e[0], e[2], simrun.content(m.retrieval), m.retrieval.activation, len(w.lines)))
    w.on_event = on_event
    real = np.random.logistic
    np.random.logistic = lambda loc=0., scale=1., size=None: DRAW + loc if size is None else np.full(size, DRAW + loc)
    try:
        events, _, _ = simrun.simulate(m, 1e6, writer=w)
        off, _, w2 = simrun.simulate(model(s, r, mem, False), 1e6)
    finally:
        np.random.logistic = real
    ctx.ran(2)
    ctx.step(len(events))
    ctx.state(case)
    if off != events or w2.lines:
        ctx.bad("off", what + f"without the trace of activations the events are {off} instead of {events}, and {w2.lines} is printed")
    if len(seen) not in (2, 4):
        ctx.bad("retrievals", what + f"{events}")
        return
    names = {str(c): simrun.canon(c) for c in m.decmem}
    for i, (t, g, dm) in enumerate(starts):
        first, (end, text, got, act, last) = seen[2 * i], seen[2 * i + 1]
        bl, rest = blocks(w.lines[first:last])
        q = REQ[(r + i) % len(REQ)]
        pattern = prog.request_pattern(pat(**{k: sp(nv=[v[1:]]) if v[0] == "~" else v for k, v in q.items()}), {})
        if rest:
            ctx.bad("lines", what + f"request {q}: unknown lines {rest}")
        good = []
        for name, vals in bl:
            c = names.get(name)
            if c is None or c not in dm:
                ctx.bad("chunk", what + f"request {q}: a block of {name}, which is not in memory {list(dm)}")
                return
            a = subsym.activation(p, t, pattern, c, dm[c], {"g": g}, dm)
            if a is None:
                ctx.bad("chunk", what + f"request {q}: a block of {name}, which does not match")
                return
            pm = subsym.mismatch(p, pattern, c, {}) if p["partial_matching"] else 0
            noise = DRAW if SETTINGS[s].get("instantaneous_noise") else 0
            sa = subsym.spreading(p, c, {"g": g}, dm)
            want = dict(zip(LABELS, (a - pm - sa, sa, pm, noise, a + noise, subsym.latency(p, a + noise))))
            if set(vals) != set(want) or any(abs(vals[k] - want[k]) > 1e-6 for k in want):
                ctx.bad("components", what + f"request {q} at {t}, goal {g}: block of {name} is {vals}, expected {want}")
                return
            good.append((c, vals["Total activation"], vals["Time to retrieve"]))
        ctx.outcome((len(bl), got is None))
        if text.endswith("None"):
            if good:
                ctx.bad("failed", what + f"request {q} fails, blocks {good}")
            continue
        mine = [x for x in good if x[0] == got]
        if not mine or abs(mine[-1][1] - max(x[1] for x in good)) > 1e-9:
            ctx.bad("retrieved", what + f"request {q}: {got} is retrieved, blocks {good}")
            return
        if act is None or abs(act - mine[-1][1]) > 1e-9 or abs(end - t - mine[-1][2]) > 1.01e-4:
            ctx.bad("stored", what + f"request {q}: {mine[-1]} printed, stored activation {act}, retrieved after {end - t}")
            return


def final(total, tier):
    if len(total.outcomes) < 4:
        yield "vacuous", f"{total.outcomes}"
