"""C02 two chunks are equal (and interchangeable everywhere) exactly when the same slots hold the same non-empty values."""
import itertools

from mc import simrun
from mc.simrun import actr, canon

ID = "C02"
LEVEL = "model_checking"
RULE = ("every content over the slots and values, built in every way of the alphabet of constructions, compared pairwise "
        "with every other: ==, !=, hash, set and dictionary membership, declarative memory and buffer membership; "
        "state = distinct content")
ASSUMPTIONS = ["values are words, numbers, empty, or chunks; chunk types with the same slots and values are not distinguished"]
CHUNK = 1

SLOTS = ("a", "ab", "b")
P, Q = (("v", "p"),), (("v", "q"),)
PP = (("v", P), ("w", "p"))
N = ()     # a chunk without content
WORDS = ["a", "b", "c", "d", "e", "f", "g", "h", "one", "two"]     # what is negated; some of them collide in small hash tables
VALUES = [None, "x", "1", P, Q, PP, N]
# values that are alike, alone in a slot: all different
ALIKE = ["x", "X", "xx", "xy", "yx", "x_", "x ", " x", "x y", "1", "1.0", "01", "-1", "0", "00", "0.0", "1e0", "true", "True", "none", "NONE", "a", "v", "p", "mcinner", "mcinner(v= p)", "mcinner(v= p, w= )", "'x'", '"x"', '"x', 'x"',
         P, (("v", "P"),), (("w", "p"),), (("v", P),), (("w", P),), (("v", "p"), ("w", "p")), N, (("v", "1"),), (("v", "1.0"),)]
VALUES_T = VALUES + ["1.0", "X", (("w", "p"),), (("v", PP),)]


def bounds(tier):
    return {"slots": SLOTS, "values": [repr(v) for v in vals(tier)], "alike": [repr(v) for v in ALIKE], "constructions": [f.__name__ for f in BUILD]}


def vals(tier):
    return VALUES if tier == "quick" else VALUES_T


def contents(tier):
    return [tuple((s, v) for s, v in zip(SLOTS, vs) if v is not None) for vs in itertools.product(vals(tier), repeat=3)]


def cases(tier):
    n = len(contents(tier))
    for i in range(n):
        yield (tier, i)
    for i in range(6):
        yield ("life", i)
    for i in range(len(ALIKE)):
        yield ("alike", i)
    for i in range(len(patterns(tier))):
        yield ("pattern", tier, i)


def value(v, how):
    if isinstance(v, tuple):
        return how(v)
    return v


def plain(c):
    return actr.chunks.Chunk("mceq" if c else "mcnone", **{s: value(v, plain) for s, v in c})


def backwards(c):
    return actr.chunks.Chunk("mceq", **{s: value(v, backwards) for s, v in reversed(c)})


def make(c):
    return actr.makechunk(typename="mceqb", **{s: value(v, make) for s, v in c})


def string(c):
    txt = "isa mceq"
    for i, (s, v) in enumerate(c):
        if isinstance(v, tuple):
            n = "mceqname" + "".join(ch for ch in repr(v) if ch.isalnum())
            actr.makechunk(n, "mcinner", **{x: value(y, plain) for x, y in v})
            txt += f" {s} {n}"
        else:
            txt += f" {s} {v}"
    return actr.chunkstring(string=txt)


def emptied(c):
    d = {s: "None" for s in SLOTS}
    d.update({s: value(v, plain) for s, v in c})
    return actr.chunks.Chunk("mceq", **d)


def emptied2(c):
    d = {s: None for s in SLOTS + ("zz",)}
    d.update({s: value(v, backwards) for s, v in c})
    return actr.chunks.Chunk("mceqwide", **d)


def numeric(c):
    return actr.chunks.Chunk("mceq", **{s: 1 if v == "1" else 1.0 if v == "1.0" else value(v, plain) for s, v in c})


def varval(c):
    return actr.chunks.Chunk("mceq", **{s: actr.utilities.VarvalClass(values=value(v, plain), variables=None, negvalues=(), negvariables=()) for s, v in c})


def in_buffer(c):
    """Read back from a buffer into which it was put slot by slot."""
    g = actr.goals.Goal()
    g.add(actr.chunks.Chunk("mceq"))
    for s, v in c:
        g.modify(actr.chunks.Chunk("mceq", **{s: value(v, plain)}))
    return list(g)[0]


BUILD = [plain, backwards, make, string, emptied, emptied2, numeric, varval, in_buffer]
_cache = {}


def universe(tier):
    if tier not in _cache:
        actr.chunktype("mceq", "a, ab, b")
        actr.chunktype("mceqb", "b, ab, a")
        actr.chunktype("mceqwide", "zz, a, ab, b")
        actr.chunktype("mcinner", "v, w")
        _cache[tier] = [(c, f.__name__, f(c)) for c in contents(tier) for f in BUILD if c or f is not string]
    return _cache[tier]


def patterns(tier):
    """Descriptions of a slot: (value, variable, negated values, negated variables)."""
    negs = [c for k in (0, 1, 2) for c in itertools.combinations(WORDS, k)]
    negs += list(itertools.combinations(WORDS if tier != "quick" else WORDS[:6], 3))
    found = [(None, None, n, ()) for n in negs] + [(None, None, (), n) for n in negs[1:]]
    for v, x in (("a", None), (None, "a"), ("a", "a"), (None, "b")):
        found += [(v, x, n, k) for n in negs[:4] + negs[11:14] for k in negs[:4] + negs[11:14]]
    return found


def written(p):
    """The same description in every order of its parts and by every notation."""
    v, x, negs, negvars = p
    for n in itertools.permutations(negs):
        for k in itertools.permutations(negvars):
            yield actr.chunks.Chunk("mceq", b=actr.utilities.VarvalClass(values=v, variables=x, negvalues=n, negvariables=k))
            parts = ["~!" + y for y in n] + ["~=" + y for y in k]
            if v and not x and not parts:
                continue
            parts = (["=" + x] if x else []) + (["!" + v] if v else []) + parts
            if parts:
                yield actr.chunks.Chunk("mceq", b="".join(parts))
                yield actr.makechunk(typename="mceqb", b="".join(parts[::-1]))


def pattern(tier, i, ctx):
    if ("p", tier) not in _cache:
        universe("quick")
        _cache["p", tier] = [(p, c) for p in patterns(tier) for c in written(p)]
    mine = patterns(tier)[i]
    ctx.state(("pattern", mine))
    for x in written(mine):
        for p, y in _cache["p", tier]:
            ctx.step()
            if (x == y) is not (p == mine) or (p == mine and hash(x) != hash(y)):
                ctx.bad("patterns", f"{x!r} (written as {mine}) and {y!r} ({p}): equal is {x == y}")
                return
    ctx.ran(len(_cache["p", tier]))


def run_case(case, ctx):
    if case[0] == "life":
        return life(case[1], ctx)
    if case[0] == "alike":
        return alike(case[1], ctx)
    if case[0] == "pattern":
        return pattern(case[1], case[2], ctx)
    tier, i = case
    u = universe(tier)
    mine = contents(tier)[i]
    ctx.state(mine)
    for f in BUILD:
        if f is string and not mine:
            continue
        x = f(mine)
        if canon(x) != mine:
            ctx.bad("content", f"{f.__name__}{mine} has the content {canon(x)}")
            return
        hx = hash(x)
        single = {x: 1}
        for c, name, y in u:
            same = c == mine
            ctx.step()
            eq = x == y
            if eq is not same or (y == x) is not same or (x != y) is same or (y in single) is not same:
                ctx.bad("equality", f"{f.__name__}{mine} {x!r} and {name}{c} {y!r}: equal should be {same}; "
                        f"x==y {eq}, y==x {y == x}, x!=y {x != y}, membership {y in single}")
                return
            if same and hx != hash(y):
                ctx.bad("hash", f"{x!r} and {y!r} are equal with different hashes")
                return
            if same and (not x <= y or not y <= x or x < y):
                ctx.bad("order", f"{x!r} and {y!r} are equal, but are not part of each other (or properly so)")
                return
    ctx.outcome(len(mine))
    ctx.ran(len(u))


def alike(i, ctx):
    universe("quick")
    ctx.state(("alike", i))
    V = actr.utilities.VarvalClass
    for s in SLOTS:
        x = actr.chunks.Chunk("mceq", **{s: V(value(ALIKE[i], plain), None, (), ())})
        dm = actr.declarative.DecMem([x])
        for j, v in enumerate(ALIKE):
            for t in SLOTS:
                for build in (plain, backwards):
                    y = actr.chunks.Chunk("mceq", **{t: V(value(v, build), None, (), ())})
                    same = i == j and s == t
                    ctx.step()
                    if (x == y) is not same or (y in dm) is not same or (y in {x}) is not same or same and hash(x) != hash(y):
                        ctx.bad("alike", f"{x!r} and {y!r}: equal should be {same}; x==y {x == y}, in memory {y in dm}, in a set {y in {x}}")
                        return
    ctx.ran()


def life(i, ctx):
    """Equality survives use: matching, storing, modifying copies, extension of the type."""
    actr.chunktype("mceql", "a, b")
    x = actr.chunks.Chunk("mceql", a="x")
    y = actr.chunks.Chunk("mceql", a="x")
    p = actr.chunks.Chunk("mceql", a="=v", b="=w")
    if i == 0:
        p <= x
    elif i == 1:
        actr.chunks.Chunk("mceql", a="x", c="1")   # the type gets a new slot
        y = actr.chunks.Chunk("mceql", a="x")
    elif i == 2:
        g = actr.goals.Goal(None, actr.declarative.DecMem())
        g.add(x)
        g.modify(actr.chunks.Chunk("mceql", b="1"))
        ctx.step()
        if x != y or list(g)[0] == x:
            ctx.bad("shared", f"modifying a buffer changed the chunk that was put into it: {x}, buffer {g}")
    elif i == 3:
        hash(x)
        x <= y
        p.match(y, partialmatching=True)
    elif i == 4:
        dm = actr.declarative.DecMem()
        dm.add(x, 0)
        if y not in dm or list(dm[y]) != [0]:
            ctx.bad("memory", "an equal chunk is not found in memory")
    else:
        actr.chunktype("mceql", "a, b, c")
        y = actr.chunks.Chunk("mceql", a="x")
    if x != y or hash(x) != hash(y):
        ctx.bad("life", f"{x} and {y} are no longer equal after step {i}")
    ctx.ran()


def final(total, tier):
    if len(total.states) != len(contents(tier)) + len(patterns(tier)) + len(ALIKE):
        yield "vacuous", "not all contents were explored"
