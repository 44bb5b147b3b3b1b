"""C04 every buffer is a single cell: at most one chunk, last write wins, tests agree with the content."""
import itertools

from mc import simrun
from mc.simrun import actr

ID = "C04"
LEVEL = "model_checking"
RULE = ("every operation sequence up to the depth on every buffer class, each step compared with a one-cell reference "
        "(content, and which memory received which presentation); state = distinct (class, content, memories)")
ASSUMPTIONS = ["an explicit write into a goal buffer through its Python method may or may not harvest the previous chunk (the documentation contradicts itself); all other displacements are decided"]
CHUNK = 30

KINDS = ("goal", "retrieval", "visual_location", "visual")
A = (("s", "a"),)
A2 = (("s", "a"), ("t", None))
B = (("s", "b"), ("t", "c"))
OPS = ["addA", "addA2", "addB", "clear", "clear2", "modT", "modS", "modEmpty", "modType", "discardA", "copy"]


def bounds(tier):
    return {"classes": KINDS, "operations": OPS, "depth": 4 if tier == "quick" else 6}


def cases(tier):
    depth = 4 if tier == "quick" else 6
    for k in KINDS:
        for pre in itertools.product(OPS, repeat=2):
            yield (k, pre, depth)


def make(kind, dm):
    if kind == "goal":
        return actr.goals.Goal(None, dm)
    if kind == "retrieval":
        return actr.declarative.DecMemBuffer(dm)
    env = actr.Environment()
    if kind == "visual":
        return actr.vision.Visual(env, dm)
    return actr.vision.VisualLocation(env, dm)


def mk(c):
    return actr.chunks.Chunk("mcbuf", **{k: ("None" if v is None else v) for k, v in c})


def canon(c):
    return tuple(x for x in c if x[1] is not None)


def run_seq(kind, seq, ctx):
    actr.chunktype("mcbuf", "s, t")
    dm, dm2 = actr.declarative.DecMem(), actr.declarative.DecMem()
    b = make(kind, dm)
    cell, ref, ref2 = None, {}, {}
    frozen = []
    for i, op in enumerate(seq):
        t = i + 1

        def harvest(r):
            if cell is not None:
                r[cell] = r.get(cell, ()) + (float(t),)
        if op.startswith("add"):
            c = {"addA": A, "addA2": A2, "addB": B}[op]
            if kind == "visual_location":
                b.add(mk(c), {"text": "x", "position": (1, 1)}, t)
            elif kind == "visual" or kind == "retrieval":
                b.add(mk(c), t)
            else:
                b.add(mk(c), t)
            if kind != "goal":
                harvest(ref)
            elif simrun.dm_content(dm) != ref:     # either reading of the goal buffer's documentation
                harvest(ref)
            cell = canon(c)
        elif op == "clear":
            b.clear(t)
            harvest(ref)
            cell = None
        elif op == "clear2":
            if kind == "retrieval":
                return i
            b.clear(t, dm2)
            harvest(ref2)
            cell = None
        elif op.startswith("mod"):
            if cell is None:
                return i
            d = dict(cell)
            if op == "modT":
                arg = actr.chunks.Chunk("mcbuf", t="d")
                d["t"] = "d"
            elif op == "modS":
                arg = actr.chunks.Chunk("mcbuf", s="=x")
                d["s"] = "z"
            elif op == "modType":           # a chunk of a type that has only this slot: the other slots stay
                actr.chunktype("mcone", "t")
                arg = actr.chunks.Chunk("mcone", t="d")
                d["t"] = "d"
            else:
                arg = actr.chunks.Chunk("mcbuf", t="None")
                d.pop("t", None)
            vars_ = {"=x": "z"}
            b.modify(arg, vars_)
            cell = tuple(sorted(d.items()))
        elif op == "discardA":
            b.discard(mk(A))
            if cell == canon(A):
                cell = None
        elif op == "copy":
            if kind not in ("goal", "retrieval"):
                return i
            frozen.append((b, cell))
            b = b.copy(dm)
        ctx.step()
        got = simrun.content(b)
        where = f"{kind} {seq[:i + 1]}"
        if len(b) > 1 or len(list(b)) != len(b):
            ctx.bad("more-than-one", f"{where}: {list(b)}")
        if got != cell:
            ctx.bad("content", f"{where}: holds {got}, expected {cell}")
        if bool(b.test_buffer("full")) != (cell is not None) or bool(b.test_buffer("empty")) != (cell is None):
            ctx.bad("query", f"{where}: full={b.test_buffer('full')} empty={b.test_buffer('empty')}, content {cell}")
        if cell is not None and mk(cell) not in b:
            ctx.bad("membership", f"{where}: its own content is not found in the buffer")
        r1, r2 = simrun.dm_content(dm), simrun.dm_content(dm2)
        if r1 != ref or r2 != ref2:
            ctx.bad("harvest", f"{where}: memories {r1} {r2}, expected {ref} {ref2}")
        for old, c in frozen:
            if simrun.content(old) != c:
                ctx.bad("copy", f"{where}: the copied buffer changed to {simrun.content(old)}, was {c}")
        ctx.state((kind, cell, sorted(ref.items()), sorted(ref2.items())))
        if len(ctx.problems) > 10:
            return None
    ctx.ran()
    ctx.outcome((cell, len(ref)))
    return None


def run_case(case, ctx):
    kind, pre, depth = case
    # every sequence of exactly `depth` operations; an inapplicable operation cuts the whole subtree
    bad_prefix = set()
    for rest in itertools.product(OPS, repeat=depth - len(pre)):
        seq = pre + rest
        if any(seq[:k] in bad_prefix for k in range(1, depth + 1)):
            continue
        cut = run_seq(kind, seq, ctx)
        if cut is not None:
            bad_prefix.add(seq[:cut + 1])
        if len(ctx.problems) > 10:
            return


def final(total, tier):
    if len(total.outcomes) < 8:
        yield "vacuous", f"outcomes {dict(total.outcomes)}"
