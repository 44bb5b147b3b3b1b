"""C03 the textual notation, keyword construction and production actions denote the same chunks."""
import itertools

from mc import simrun
from mc.simrun import actr, canon

ID = "C03"
LEVEL = "model_checking"
RULE = ("every chunk description over the alphabet of slot-value notations (plain, quoted with special characters, names of "
        "existing chunks, empty), slot orders, separators and positions of the type, built from text, from keywords and "
        "by a production, compared with the denoted content and type; every pattern notation compared with its denoted "
        "constraints; every declaration history of chunk types; state = distinct denoted chunk, pattern or type")
ASSUMPTIONS = ["default slot values of chunk types and the deprecated '!' notation are outside the property"]
CHUNK = 8

P = (("v", "p"),)
QQ = (("v", P), ("w", "q"))
# notation in text -> denoted value
PLAIN = [("x", "x"), ("Xy_1", "Xy_1"), ("10", "10"), ("-3.5", "-3.5"), ("a:b|c.d,e%f&g$h`i*j", "a:b|c.d,e%f&g$h`i*j"),
         ('"two words"', "two words"), ("'it'", "it"), ('"=x"', "=x"), ('"~y"', "~y"), ('">5"', ">5"), ("'a\"b'", 'a"b'), ('"x"', "x"),
         ('" spaced  "', " spaced  "), ("'5'", "5"), ("mcnamep", P), ("mcnameq", QQ), ('"mcnamep"', "mcnamep"), ("None", None), (None, None)]
NOTE = [n for n in PLAIN]
SEP = [" ", "\n    ", "\t"]
SLOTS = ("s", "slot_two", "t3")


def bounds(tier):
    return {"notations": [n for n, _ in NOTE], "slots": SLOTS, "slot orders": 6, "separators": len(SEP), "type positions": 3,
            "constraint notations": [c[0] for c in CONS], "type declarations": "all histories of length 3"}


CONS = [("=x", ("x", None, (), ())), ("~y", (None, None, ("y",), ())), ("~=x", (None, None, (), ("x",))), ("a", (None, "a", (), ())),
        ("~None", (None, None, ("None",), ())), ("mcnamep", (None, P, (), ())), ('~"y"', (None, None, ("y",), ())), ("~yy", (None, None, ("yy",), ())),
        ("~=y", (None, None, (), ("y",))), ("~'it'", (None, None, ("it",), ())), ("~'None'", (None, None, ("None",), ())), ("'it'", (None, "it", (), ())), ("=variable_2", ("variable_2", None, (), ()))]


def cases(tier):
    n = len(NOTE)
    for k in itertools.product(range(n), repeat=2):
        yield ("two", k)
    if tier == "thorough":
        for k in itertools.product(range(n), repeat=3):
            yield ("three", k)
    else:
        for k in itertools.product((0, 2, 5, 7, 12, 14, 16, 17, 18), repeat=3):
            yield ("three", k)
    for k in itertools.product(range(len(CONS)), repeat=3):
        yield ("pat", k)
    for h in itertools.product(range(len(DECL)), repeat=3):
        yield ("types", h)
    for n in (1, 2, 3, 4):
        for inc in itertools.product(range(len(PARENTS)), repeat=n):
            if n < 4 or tier == "thorough" or inc[0] <= inc[-1]:
                yield ("include", inc)
    for i in range(6):
        yield ("names", i)


def setup():
    actr.chunktype("mctext", SLOTS)
    actr.chunktype("mcinner", "v, w")
    p = actr.makechunk("mcnamep", "mcinner", v="p")
    actr.chunkstring("mcnameq", "isa mcinner v mcnamep w q")
    return p


def texts(pairs):
    """All spellings of a description."""
    used = [(s, n) for s, (n, v) in pairs if n is not None]
    for perm in itertools.permutations(used):
        for sep in SEP:
            for pos in {0, len(perm) // 2, len(perm)}:
                items = [f"{s}{sep}{n}" for s, n in perm]
                items.insert(pos, f"isa{sep}mctext")
                yield sep.join(items)


def simple(v):
    return not isinstance(v, str) or not any(ch in v for ch in "=~!")


def run_case(case, ctx):
    kind, k = case
    if kind in ("two", "three"):
        setup()
        pairs = [(s, NOTE[i]) for s, i in zip(SLOTS, k)]
        want = tuple(sorted((s, v) for s, (n, v) in pairs if v is not None))
        want = canon_sort(want)
        ctx.state(want)
        built = []
        ts = list(texts(pairs))
        for t in ts:
            built.append((f"chunkstring {t!r}", actr.chunkstring(string=t)))
        kw = {s: (simrun.mk(v, "mcinner") if isinstance(v, tuple) else v) for s, (n, v) in pairs if n is not None}
        if all(simple(v) for v in kw.values()):
            built.append(("makechunk", actr.makechunk(typename="mctext", **kw)))
            built.append(("makechunk reversed", actr.makechunk("", "mctext", **dict(reversed(kw.items())))))
            built.append(("Chunk", actr.chunks.Chunk("mctext", **kw)))
        text = ts[-1]
        if not any(v is None and n is not None for _, (n, v) in pairs):
            built += produced(text)
        for how, c in built:
            ctx.step()
            if canon(c) != want or c.typename != "mctext" or {s for s, _ in c} != set(SLOTS):
                ctx.bad("denotation", f"{how}: {c!r} has the content {canon(c)}, the description denotes {want}")
                return
            if c != built[0][1]:
                ctx.bad("paths", f"{how} gives {c!r}, {built[0][0]} gives {built[0][1]!r}: they differ")
                return
        ctx.ran(len(built))
        ctx.outcome(len(want))
    elif kind == "pat":
        patterns(k, ctx)
    elif kind == "types":
        types(k, ctx)
    elif kind == "include":
        include(k, ctx)
    else:
        names(k, ctx)


def canon_sort(c):
    return tuple(sorted(c, key=lambda p: (p[0], repr(p[1]))))


def produced(text):
    """The chunk that a production creates in, writes into, or finds in a buffer under that description."""
    out = []
    for act in ("+g>", "@g>", "=g>"):
        m = actr.ACTRModel()
        m.goals["g"].add(actr.chunks.Chunk("mctext"))
        m.productionstring(name="r", string=f"=g> isa mctext\n==>\n{act} {text}")
        sim = m.simulation(gui=False, trace=False)
        sim.run(0.06)
        out += [(f"production {act} {text!r}", c) for c in m.goal]
    # the description as a condition: it holds of the chunk it describes
    m = actr.ACTRModel()
    m.goals["g"].add(out[0][1])
    m.set_goal("h")
    m.productionstring(name="r", string=f"=g> {text}\n==>\n+h> {text}")
    sim = m.simulation(gui=False, trace=False)
    sim.run(0.06)
    out += [(f"production =g> {text!r} ==> +h>", c) for c in m.goals["h"]] or [("no firing of =g> " + text, actr.chunks.Chunk("mctext", s="missing"))]
    return out


def patterns(k, ctx):
    setup()
    parts = [CONS[i] for i in k]
    nvar = len({p[1][0] for p in parts if p[1][0]})
    nval = len({p[1][1] for p in parts if p[1][1]})
    text = "isa mctext " + " ".join("s " + p[0] for p in parts)
    ctx.state(text)
    ctx.step()
    ctx.ran()
    try:
        c = actr.chunkstring(string=text)
    except actr.utilities.ACTRError:
        if nvar <= 1 and nval <= 1:
            ctx.bad("pattern", f"{text!r} is rejected")
        ctx.outcome("rejected")
        return
    if nvar > 1 or nval > 1:
        ctx.bad("pattern", f"{text!r} is accepted although its slot has several values or variables")
        return
    v = c.s
    got = (v.variables, simrun.canon(v.values) if isinstance(v.values, actr.chunks.Chunk) else v.values, set(v.negvalues), set(v.negvariables))
    want = ([p[1][0] for p in parts if p[1][0]] + [None])[0], ([p[1][1] for p in parts if p[1][1]] + [None])[0], {x for p in parts for x in p[1][2]}, {x for p in parts for x in p[1][3]}
    if got != want:
        ctx.bad("pattern", f"{text!r} means {got}, should mean {want}")
    ctx.outcome("accepted")


# chunk types: (name, own slots, include); later declarations replace earlier ones
DECL = [("mca", "x y", None), ("mca", "z", None), ("mcb", "w", "mca"), ("mcb", ["w", "x"], ["mca"]), ("mcc", "u,v", ["mca", "mcb"]), ("mcc", ("k",), "mcb"), ("mcd", "x", "mcmissing")]


def types(h, ctx):
    for n in ("mca", "mcb", "mcc", "mcd"):
        actr.chunks.Chunk._chunktypes.pop(n, None)
    ref = {}
    for i in h:
        name, own, inc = DECL[i]
        own_s = set(own.replace(",", " ").split()) if isinstance(own, str) else set(own)
        incs = [inc] if isinstance(inc, str) else (inc or [])
        ctx.step()
        if all(x in ref for x in incs):
            actr.chunktype(name, own, include=inc)
            ref[name] = own_s.union(*[ref[x] for x in incs])
        else:
            try:
                actr.chunktype(name, own, include=inc)
            except actr.utilities.ACTRError:
                continue
            ctx.bad("types", f"{DECL[i]} is accepted although its parent does not exist")
            return
        for n, slots in ref.items():
            c = actr.makechunk(typename=n)
            if {s for s, _ in c} != slots or canon(c) != ():
                ctx.bad("types", f"after {[DECL[j] for j in h]}: a chunk of type {n} has the slots {[s for s, _ in c]}, should have {sorted(slots)}")
                return
            for s in slots:
                c = actr.makechunk(typename=n, **{s: "a"})
                if canon(c) != ((s, "a"),) or {x for x, _ in c} != slots:
                    ctx.bad("types", f"{c!r} of type {n}")
                    return
    ctx.state(sorted((k, sorted(v)) for k, v in ref.items()))
    ctx.ran()


PARENTS = [("mcp0", ("a", "b")), ("mcp1", ("b", "c")), ("mcp2", ("d",)), ("mcp3", ("e", "a", "own"))]


def include(inc, ctx):
    """Every list of up to four parents, with own slots that the parents have or lack; then a type including that one."""
    for n, slots in PARENTS:
        actr.chunktype(n, slots)
    names_ = [PARENTS[i][0] for i in inc]
    inherited = {s for i in inc for s in PARENTS[i][1]}
    for own in ("own", "own, a", ("d", "own"), ["z1", "z2"]):
        want = inherited | set(own.replace(",", " ").split() if isinstance(own, str) else own)
        for form in (list, tuple) + ((lambda x: x[0],) if len(inc) == 1 else ()):
            ctx.step()
            actr.chunktype("mckid", own, include=form(names_))
            actr.chunktype("mcgrandkid", "last", include=["mckid"])
            for t, w in (("mckid", want), ("mcgrandkid", want | {"last"})):
                bare = {s for s, _ in actr.makechunk(typename=t)}    # before any chunk uses the slots
                full = actr.chunkstring(string=f"isa {t} " + " ".join(f"{s} v_{s}" for s in sorted(w)))
                kw = actr.makechunk("", t, **{s: "v_" + s for s in w})
                ctx.state((t, sorted(w)))
                if bare != w or canon(full) != canon(kw) or canon(full) != tuple((s, "v_" + s) for s in sorted(w)) or full != kw:
                    ctx.bad("include", f"a chunk of the type {t} (own slots {own}, including {form(names_)}) is {full!r}, an empty one has the slots {sorted(bare)}, should have the slots {sorted(w)}")
                    return
    ctx.ran()


def names(i, ctx):
    """A name stands for the latest chunk made under it, at the moment it is used."""
    setup()
    ctx.step()
    ctx.ran()
    if i == 0:
        a = actr.chunkstring(string="isa mctext s mcnamelater")
        actr.makechunk("mcnamelater", "mcinner", v="p")
        b = actr.chunkstring(string="isa mctext s mcnamelater")
        ok = canon(a) == (("s", "mcnamelater"),) and canon(b) == (("s", P),)
    elif i == 1:
        actr.makechunk("mcnametwice", "mcinner", v="p")
        a = actr.chunkstring(string="isa mctext s mcnametwice")
        actr.makechunk("mcnametwice", "mcinner", v="q")
        b = actr.chunkstring(string="isa mctext s mcnametwice")
        ok = canon(a) == (("s", P),) and canon(b) == (("s", (("v", "q"),)),)
    elif i == 2:
        actr.chunkstring("mcnamestr", "isa mcinner v p")
        ok = canon(actr.chunkstring(string="isa mctext s mcnamestr")) == (("s", P),)
    elif i == 3:
        c = actr.makechunk("mcnamekw", "mctext", s=actr.makechunk("", "mcinner", v="p"))
        ok = canon(c) == (("s", P),)
    elif i == 4:
        c = actr.chunkstring(string="s x t3 y")
        ok = canon(c) == (("s", "x"), ("t3", "y"))
    else:
        m = actr.ACTRModel()
        m.chunktype("mcviamodel", "s")
        ok = canon(m.chunkstring(string="isa mcviamodel s mcnamep")) == (("s", P),)
    if not ok:
        ctx.bad("names", f"case {i}")
    ctx.outcome(("names", i))


def final(total, tier):
    if total.outcomes["rejected"] == 0 or total.outcomes["accepted"] == 0:
        yield "vacuous", "patterns"
