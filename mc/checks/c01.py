"""C01 pattern matching is sound and complete, and binds variables consistently."""
import itertools

from mc import ref, simrun
from mc.ref import NOTHING
from mc.simrun import actr

ID = "C01"
LEVEL = "model_checking"
RULE = ("(a) every pattern of 2 (3) slots over the constraint alphabet x every chunk over the value alphabet x every "
        "prior binding, matched directly; (b) every one-rule model whose left-hand side tests two buffers with shared "
        "variables x every pair of buffer contents, run as a simulation, with the bindings written back by the rule; "
        "state = distinct (pattern, chunk, binding) or (rule, contents) configuration")
ASSUMPTIONS = ["slot values come from a small alphabet (two strings, empty, three chunks, one of them without slots)", "chunk type names are not compared: matching is by slots (the library's documented behaviour in its tests)"]
CHUNK = 2

A, B = "a", "b"
C1 = (("v", "p"),)
C2 = (("v", "q"),)
C0 = ()     # a chunk without slots
NAMED = {"mcchunka": C1, "mcchunkb": C2, "mcchunkz": C0}


def sp(value=NOTHING, var=None, nv=(), nvar=()):
    return (value, var, tuple(nv), tuple(nvar))


SPECS = [None, sp(A), sp(None), sp(var="x"), sp(var="y"), sp(nv=[A]), sp(nv=[None]), sp(nvar=["x"]), sp(nvar=["y"]),
         sp(A, "x"), sp(var="x", nv=[A]), sp(var="x", nvar=["y"]), sp(nv=[A, B]), sp(nvar=["x", "y"]), sp(B, nvar=["x"]),
         sp(C1), sp(var="x", nv=[C1]), sp(C0), sp(nv=[C0])]
SPECS3 = [None, sp(A), sp(None), sp(var="x"), sp(var="y"), sp(nv=[A]), sp(nvar=["x"]), sp(nvar=["y"])]
VALUES = [None, A, B, C1, C2, C0]
VALUES3 = [None, A, B]
PRE = [{}, {"x": A}, {"x": B, "y": A}, {"y": None}, {"x": C1}, {"x": C0}]
SLOTS = ("s", "t", "u")

# names of the variables: single letters, one built of the letters of the other, permutations of each other
NAMES = [{}, {"y": "xx"}, {"x": "ab", "y": "ba"}]


# values that are alike: (how it is written, what it is), all of them different from each other except the chunks with the same content
CHUNKTEXT = "mcinner(v= p)"
ALIKE = [(w, w) for w in ("a", "A", "aa", "ab", "a_", "1", "1.0", "01", "-1", "0", "00", "0.0", "1e0", "true", "True", "x", "none", "NONE", "p", "mcnone", " a", "a ", "a b", "'a'", CHUNKTEXT)] + [
    (lambda: actr.chunks.Chunk("mcinner", v="p"), C1), (lambda: actr.chunks.Chunk("mcwideinner", w="None", v="p"), C1), (lambda: actr.makechunk("", "mcwideinner", v="p"), C1),
    (lambda: actr.chunks.Chunk("mcinner", v="P"), (("v", "P"),)), (lambda: actr.chunks.Chunk("mcwideinner", w="p"), (("w", "p"),)), (lambda: actr.chunks.Chunk("mcinner", v=actr.chunks.Chunk("mcinner", v="p")), (("v", C1),))]


def rename(specs, n):
    return [sp and (sp[0], n.get(sp[1], sp[1]), sp[2], tuple(n.get(v, v) for v in sp[3])) for sp in specs]


# models
MSPECS = [None, sp(A), sp(None), sp(var="x"), sp(var="y"), sp(nv=[A]), sp(nvar=["x"]), sp(nvar=["y"]), sp(var="x", nv=[B])]


def bounds(tier):
    return {"direct": f"{len(SPECS)}^2 two-slot and {len(SPECS3)}^3 three-slot patterns, chunks over {len(VALUES)} / "
            f"{len(VALUES3)} values (also of a type lacking the last slot), {len(PRE)} prior bindings, {len(NAMES)} namings of the variables",
            "values that are alike": [w if isinstance(w, str) else repr(c) for w, c in ALIKE],
            "models": f"{len(MSPECS)}^{3 if tier == 'quick' else 4} left-hand sides over two buffers, both orders of "
            "the tests, all contents over {empty, a, b} of both buffers"}


def cases(tier):
    for n in range(len(NAMES)):
        for p in itertools.product(range(len(SPECS)), repeat=2):
            yield ("d2", p, n)
        for p in itertools.product(range(len(SPECS3)), repeat=3):
            yield ("d3", p, n)
    for i in range(len(ALIKE)):
        yield ("alike", i)
    for p in itertools.product(range(len(MSPECS)), repeat=3):
        for order in (0, 1):
            for n in (order,) if tier == "quick" else range(len(NAMES)):
                yield ("m3", p, order, n)
    if tier == "thorough":
        for p in itertools.product(range(len(MSPECS)), repeat=4):
            yield ("m4", p, 0, 0)
            yield ("m4", p, 1, 1)


def text_val(v):
    if v == C1:
        return "mcchunka"
    if v == C2:
        return "mcchunkb"
    if v == C0:
        return "mcchunkz"
    return v


def named_chunks():
    for n, c in NAMED.items():
        actr.makechunk(nameofchunk=n, typename="mcinner" if c else "mcnone", **dict(c))


def pattern_of(specs, idx, slots):
    return tuple((s, specs[i]) for s, i in zip(slots, idx) if specs[i] is not None)


def text_pattern(pattern):
    """Negated chunk values can only be written with the programmatic format: translate names."""
    out = []
    for slot, (v, var, nv, nvar) in pattern:
        out.append((slot, (text_val(v) if v not in (NOTHING, None) else v, var, tuple(text_val(n) for n in nv), nvar)))
    return tuple(out)


def build_pattern(pattern, typename):
    named_chunks()
    if any(isinstance(n, tuple) for _, s in pattern for n in s[2]):
        kw = {}
        for slot, (v, var, nv, nvar) in pattern:
            kw[slot] = actr.utilities.VarvalClass(
                values=None if v == NOTHING else ("None" if v is None else (simrun.mk(v, "mcinner" if v else "mcnone") if isinstance(v, tuple) else v)),
                variables=var, negvalues=tuple(simrun.mk(n, "mcinner" if n else "mcnone") if isinstance(n, tuple) else ("None" if n is None else n) for n in nv),
                negvariables=tuple(nvar))
        return actr.chunks.Chunk(typename, **kw)
    return actr.chunkstring(string=ref.pattern_text(text_pattern(pattern), typename))


def py(v):
    return None if v is None else (simrun.mk(v, "mcinner" if v else "mcnone") if isinstance(v, tuple) else v)


def show(b):
    return {k: (sorted(map(repr, v)) if isinstance(v, set) else v) for k, v in b.items()}


def direct(specs, values, slots, idx, names, ctx):
    pattern = pattern_of(rename(specs, names), idx, slots)
    if not pattern:
        return
    tname = "mcd%d" % len(slots)
    actr.chunktype(tname, " ".join(slots))
    actr.chunktype(tname + "short", " ".join(slots[:-1]))
    pat = build_pattern(pattern, tname)
    for vals in itertools.product(values, repeat=len(slots)):
        chunk = dict(zip(slots, vals))
        variants = [actr.chunks.Chunk(tname, **{s: py(v) for s, v in chunk.items() if v is not None}),
                    actr.chunks.Chunk(tname, **{s: ("None" if v is None else py(v)) for s, v in chunk.items()})]
        if vals[-1] is None:
            variants.append(actr.chunks.Chunk(tname + "short", **{s: py(v) for s, v in list(chunk.items())[:-1] if v is not None}))
        for pre in ({names.get(k, k): v for k, v in p.items()} for p in PRE):
            exp = ref.match(pattern, chunk, pre)
            for vi, obj in enumerate(variants):
                pat.boundvars = {"=" + k: (py(v) if v is not None else "None") for k, v in pre.items()}
                got = pat <= obj
                ctx.ran()
                ctx.step()
                ctx.outcome(bool(got))
                if bool(got) != (exp is not None):
                    ctx.bad("match", f"pattern {pat} chunk {obj} prior {pre}: matched={got}, expected {exp is not None}")
                    continue
                if exp is not None:
                    gb = {k[1:]: simrun.val(v) for k, v in pat.boundvars.items() if k.startswith("=")}
                    eb = {k: v for k, v in exp.items() if not k.startswith("~")}
                    if gb != eb:
                        ctx.bad("bindings", f"pattern {pat} chunk {obj} prior {pre}: bound {gb}, expected {eb}")
        ctx.state((idx, len(slots), vals, tuple(names.values())))


def alike(i, ctx):
    """A required, forbidden or bound value is met by that very value only, however alike others are."""
    actr.chunktype("mcinner", "v")
    actr.chunktype("mcwideinner", "v, w")
    actr.chunktype("mcalike", "s, t")
    V = actr.utilities.VarvalClass
    mine, content = ALIKE[i]
    make = lambda f: f() if callable(f) else f
    patterns = [("value", dict(s=V(make(mine), None, (), ())), None), ("negated value", dict(s=V(None, None, (make(mine),), ())), None),
                ("bound variable", dict(s="=x"), make(mine)), ("negated bound variable", dict(s="~=x"), make(mine)),
                ("two slots", dict(s="=x", t="=x"), None), ("two different slots", dict(s="=x", t="~=x"), None), ("two different slots, backwards", dict(s="~=x", t="=x"), None)]
    for other, other_content in ALIKE:
        chunk = actr.chunks.Chunk("mcalike", s=V(make(other), None, (), ()), t=V(make(mine), None, (), ()))
        same = content == other_content
        ctx.state(("alike", i, repr(make(other))))
        for what, slots, bound in patterns:
            pat = actr.chunks.Chunk("mcalike", **slots)
            pat.boundvars = {} if bound is None else {"=x": bound}
            got = pat <= chunk
            ctx.step()
            ctx.ran()
            ctx.outcome(bool(got))
            if bool(got) is not (same is ("ne" not in what and "different" not in what)):
                ctx.bad("alike", f"{what} ({make(mine)!r} required, or in the slot t): pattern {pat} and chunk {chunk}: matched {bool(got)}")
                return


def model_case(idx, order, names, ctx):
    specs = rename(MSPECS, names)
    if len(idx) == 3:
        pg = pattern_of(specs, idx[:2], ("s", "t"))
        ph = pattern_of(specs, idx[2:], ("s",))
    else:
        pg = pattern_of(specs, idx[:2], ("s", "t"))
        ph = pattern_of(specs, idx[2:], ("s", "t"))
    hslots = ("s",) if len(idx) == 3 else ("s", "t")
    actr.chunktype("mcg", "s, t")
    actr.chunktype("mch", "s, t")
    xs = [names.get(v, v) for v in "xy"]
    actr.chunktype("mco", ", ".join("o" + v for v in xs))
    m = actr.ACTRModel()
    m.set_goal("h")
    m.set_goal("out")
    posvars = sorted({s[1] for _, s in pg + ph if s[1]})
    tg = "=g>\n" + ref.pattern_text(pg, "mcg")
    th = "=h>\n" + ref.pattern_text(ph, "mch")
    lhs = [tg, th] if order == 0 else [th, tg]
    rhs = "~g>\n=out>\nisa mco " + " ".join(f"o{v} ={v}" for v in posvars)
    m.productionstring(name="r", string="\n".join(lhs) + "\n==>\n" + rhs)
    for vg in itertools.product([None, A, B], repeat=2):
        for vh in itertools.product([None, A, B], repeat=len(hslots)):
            g, h = dict(zip(("s", "t"), vg)), dict(zip(hslots, vh))
            m.goals["g"].add(actr.chunks.Chunk("mcg", **{k: v for k, v in g.items() if v}))
            m.goals["h"].add(actr.chunks.Chunk("mch", **{k: v for k, v in h.items() if v}))
            m.goals["out"].add(actr.chunks.Chunk("mco", **{"o" + v: "init" for v in xs}))
            m.set_decmem()
            for b in m.goals.values():
                b.dm = None
            m.retrieval.dm = None
            events, sim, _ = simrun.simulate(m, 0.09)
            exp = ref.match(pg, g, {})
            if exp is not None:
                exp = ref.match(ph, h, exp)
            selected = any(e[2] == "RULE SELECTED: r" for e in events)
            fired = any(e[2] == "RULE FIRED: r" for e in events)
            ctx.ran()
            ctx.step(len(events))
            ctx.outcome(fired)
            ctx.state((idx, order, vg, vh, tuple(xs)))
            if selected != (exp is not None) or fired != (exp is not None):
                ctx.bad("rule-match", f"rule {lhs}; g={g} h={h}: selected={selected} fired={fired}, expected {exp is not None}")
            elif exp is not None:
                out = dict(simrun.content(m.goals["out"]))
                e = {f"o{v}": exp.get(v) if v in posvars else "init" for v in xs}
                # a variable bound to an empty slot carries no value
                e = {k: v for k, v in e.items() if v is not None}
                got = {k: v for k, v in out.items()}
                for v in posvars:
                    if exp[v] is None:
                        got.pop("o" + v, None) if got.get("o" + v) in (None, "init") else None
                if got != e:
                    ctx.bad("rule-bindings", f"rule {lhs}; g={g} h={h}: wrote {out}, expected {e}")


def run_case(case, ctx):
    if case[0] == "d2":
        direct(SPECS, VALUES, ("s", "t"), case[1], NAMES[case[2]], ctx)
    elif case[0] == "d3":
        direct(SPECS3, VALUES3, ("s", "t", "u"), case[1], NAMES[case[2]], ctx)
    elif case[0] == "alike":
        alike(case[1], ctx)
    else:
        model_case(case[1], case[2], NAMES[case[3]], ctx)


def final(total, tier):
    if min(total.outcomes.get("True", 0), total.outcomes.get("False", 0)) < 100:
        yield "vacuous", f"outcomes {dict(total.outcomes)}"
