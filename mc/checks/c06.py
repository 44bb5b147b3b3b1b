"""C06 declarative memory is a map from chunks to their presentation times."""
import itertools

import numpy as np

from mc import simrun
from mc.simrun import actr

ID = "C06"
LEVEL = "model_checking"
RULE = ("every operation sequence up to the depth over the operation alphabet (single, bulk and repeated additions, "
        "assignment, deletion, copying, equal chunks built differently); after every step the whole memory, and every "
        "earlier copy, equals the reference map; state = distinct memory content")
ASSUMPTIONS = ["presentation times are compared to 4 decimals (the documented clock resolution) and as a multiset"]
CHUNK = 8

A = {"s": "a"}
B = {"s": "b", "t": "c"}
KA, KB = (("s", "a"),), (("s", "b"), ("t", "c"))
OPS = ["A", "A'", "Aref", "B", "A@.5", "act A", "act B", "A-2", "AB-1", "A@round", "A[]", "A[=]", "A[np]", "AB", "AB[]", "set A", "set A[]", "set A[,]", "del A", "pop", "copy", "copy-back", "upd"]


def bounds(tier):
    return {"operations": OPS, "depth": 4 if tier == "quick" else 5}


def cases(tier):
    d = 4 if tier == "quick" else 5
    for pre in itertools.product(OPS, repeat=2):
        yield (pre, d)
    for i in range(6):
        yield ("init", i)


def cA():
    return actr.chunks.Chunk("mcdm", **A)


def cA2():
    return actr.makechunk(typename="mcdm", t="None", s="a")


def cB():
    return actr.chunks.Chunk("mcdm", **B)


def run_seq(seq, ctx):
    actr.chunktype("mcdm", "s, t")
    dm = actr.declarative.DecMem()
    keep = cA()
    ref = {}
    others = []
    acts = {}      # activations given by hand
    given = []     # arrays of the user, with the values that they have to keep
    for i, op in enumerate(seq):
        t = float(i)

        def put(k, *ts):
            ref[k] = tuple(sorted(ref.get(k, ()) + tuple(round(x, 4) for x in ts)))
        if op == "A":
            dm.add(cA(), t)
            put(KA, t)
        elif op == "A'":
            dm.add(cA2(), t)
            put(KA, t)
        elif op == "Aref":
            dm.add(keep, t)
            put(KA, t)
        elif op == "B":
            dm.add(cB(), time=t)
            put(KB, t)
        elif op == "A@.5":
            dm.add(cA(), t - 0.5)
            put(KA, t - 0.5)
        elif op == "act A":      # an activation given by hand is no presentation
            if KA not in ref:
                return i
            dm.add_activation(cA2(), 1.5)
            acts[KA] = 1.5
        elif op == "act B":
            if KB not in ref:
                return i
            dm.add_activation(cB(), float(i))
            acts[KB] = float(i)
        elif op == "A-2":       # possibly at the time of, or before, an earlier addition
            dm.add(cA(), t - 2)
            put(KA, t - 2)
        elif op == "AB-1":
            dm.add({cA(), cB()}, t - 1)
            put(KA, t - 1)
            put(KB, t - 1)
        elif op == "A@round":
            dm.add(cA(), t + 0.00004)
            put(KA, t)
        elif op == "A[]":
            dm.add(cA(), [t, t - 2])
            put(KA, t, t - 2)
        elif op == "A[=]":       # several times at once, some of them the same
            dm.add(cA(), (t, t - 1, t))
            put(KA, t, t - 1, t)
        elif op == "A[np]":      # an array of the user
            given.append((np.array([t - 1, t - 3, t - 1]), (t - 1, t - 3, t - 1)))
            dm.add(cA(), given[-1][0])
            put(KA, *given[-1][1])
        elif op == "AB":
            dm.add([cA(), cB()], t)
            put(KA, t)
            put(KB, t)
        elif op == "AB[]":
            dm.add((cB(), cA()), [t, t - 3])
            put(KA, t, t - 3)
            put(KB, t, t - 3)
        elif op == "set A":
            dm[cA()] = t
            ref[KA] = (t,)
        elif op == "set A[]":
            given.append((np.array([t, t - 1]), (t, t - 1)))
            dm[cA()] = given[-1][0]
            ref[KA] = (t - 1, t)
        elif op == "set A[,]":
            dm[cA2()] = [t, t - 2, t]
            ref[KA] = (t - 2, t, t)
        elif op == "del A":
            if KA not in ref:
                return i
            del dm[cA2()]
            del ref[KA]
            acts.pop(KA, None)
        elif op == "pop":
            if KB not in ref:
                return i
            acts.pop(KB, None)
            if tuple(sorted(dm.pop(cB()))) != ref.pop(KB):
                ctx.bad("pop", f"{seq[:i + 1]}: pop does not return the times of the chunk")
        elif op == "copy":
            others.append((dm, dict(ref)))
            dm = dm.copy()
        elif op == "copy-back":
            c = dm.copy()
            others.append((c, dict(ref)))
        elif op == "upd":
            dm.update({cB(): t})
            ref[KB] = (t,)
        ctx.step()
        got = simrun.dm_content(dm)
        where = f"{seq[:i + 1]}"
        if got != ref:
            ctx.bad("content", f"{where}: memory {got}, expected {ref}")
        if len(dm) != len(ref) or (cA2() in dm) != (KA in ref) or (cB() in dm) != (KB in ref):
            ctx.bad("membership", f"{where}: len {len(dm)}, membership disagrees with {ref}")
        if len(dm.activations) != len(acts) or any(dm.activations.get(c) != acts.get(k) for k, c in ((KA, keep), (KB, cB()))):
            ctx.bad("activations", f"{where}: activations {dm.activations}, expected {acts}")
        if any(tuple(arr) != values for arr, values in given):
            ctx.bad("array", f"{where}: an array of the user was changed to {given}")
        for o, r in others:
            g = simrun.dm_content(o)
            if g != r:
                ctx.bad("copy", f"{where}: an earlier copy changed to {g}, was {r}")
        ctx.state(sorted(ref.items()))
        if len(ctx.problems) > 10:
            return None
    ctx.ran()
    ctx.outcome(tuple(len(v) for v in ref.values()))
    return None


def init_case(i, ctx):
    actr.chunktype("mcdm", "s, t")
    m = actr.ACTRModel()
    data, ref = [({cA(): 0, cB(): 2}, {KA: (0,), KB: (2,)}), (set([cA(), cB()]), {KA: (0,), KB: (0,)}),
                 ([cA(), cA2()], {KA: (0,)}), ({cA(): np.array([0, 1])}, {KA: (0, 1)}), (None, {}),
                 ({cA2(): [0.5, 1]}, {KA: (0.5, 1)})][i]
    for dm in (actr.declarative.DecMem(data), m.set_decmem(data), m.decmem):
        got = simrun.dm_content(dm)
        ctx.ran()
        ctx.state((i, sorted(ref.items())))
        if got != {k: tuple(map(float, v)) for k, v in ref.items()}:
            ctx.bad("initial", f"{data}: memory {got}, expected {ref}")


def run_case(case, ctx):
    if case[0] == "init":
        return init_case(case[1], ctx)
    pre, depth = case
    bad_prefix = set()
    for rest in itertools.product(OPS, repeat=depth - len(pre)):
        seq = pre + rest
        if any(seq[:k] in bad_prefix for k in range(1, depth + 1)):
            continue
        cut = run_seq(seq, ctx)
        if cut is not None:
            bad_prefix.add(seq[:cut + 1])
        if len(ctx.problems) > 10:
            return
