"""C09 spreading activation: fans are those of the memory at that moment, weights are shared by the sources of a buffer."""
import itertools

from mc import prog, subsym
from mc.prog import pat, sp

ID = "C09"
LEVEL = "model_checking"
RULE = ("every memory (set of chunks with chunks or words as values) x contents of the source buffers x association settings, "
        "with a request for every chunk: its retrieval time determines its activation; every history of additions, "
        "deletions and harvests with a retrieval after each step; state = distinct (buffers, memory)")
ASSUMPTIONS = ["with associations restricted to a slot, chunks that hold the source in several slots are left out"]
CHUNK = 8

P, Q = (("v", "p"),), (("v", "q"),)
V = [None, "a", P, Q]
UNIV = [tuple(x for x in (("s", s), ("t", t)) if x[1] is not None) for s in V for t in V]
CH = [c for c in UNIV if c] + [P]
SRC = [None] + [c for c in UNIV if c]
SETTINGS = [{"association_only_from_chunks": ao, "spreading_activation_restricted": r, "strength_of_association": s, "buffer_spreading_activation": w}
            for ao in (True, False) for r in (False, True) for s, w in ((2, {"g": 1}), (0.5, {"g": 1.5, "h": 0.5}))]
SETTINGS.append({"association_only_from_chunks": True, "strength_of_association": 3, "buffer_spreading_activation": {"retrieval": 1, "h": 1}})
BASE = {"baselevel_learning": False, "retrieval_threshold": -20, "latency_factor": 0.1}
MEMS = {"quick": 2, "thorough": 3}


def bounds(tier):
    return {"chunks": len(CH), "memory sizes": f"1..{MEMS[tier]}", "source buffer contents": f"{len(SRC)} (for larger memories divided among the settings)", "settings": SETTINGS, "history operations": [o for o in OPS],
            "history length": 3 if tier == "quick" else 4}


OPS = [("add", 5), ("add", 7), ("add", 9), ("add", 13), ("del", 6), ("del", 9), ("del", 10), ("harvest", 10), ("harvest", 2), ("copy", 5), ("copydel", 5), ("swap", 5)]


def cases(tier):
    n = len(CH)
    for size in range(1, MEMS[tier] + 1):
        for mem in itertools.combinations(range(n), size):
            yield ("mem", mem, tier == "thorough" and size < 3)
    for i in (0, 2, 4, 6, 8):
        for h in itertools.product(range(len(OPS)), repeat=3 if tier == "quick" else 4):
            yield ("hist", h, i)


def exact(c):
    return tuple((s, sp(dict(c).get(s))) for s in ("s", "t")) if c != P else (("v", sp("p")),)


def report(errs, rl, ctx, extra=""):
    for sig, detail in errs:
        ctx.bad(sig, "\n".join(prog.rule_text(r) for r in rl) + f"\n {extra}: {detail}")


def twice(c):
    return len(c) == 2 and c[0][1] == c[1][1] and c[0][1] is not None


def run_case(case, ctx):
    if case[0] == "mem":
        mem = [CH[i] for i in case[1]]
        for si, setting in enumerate(SETTINGS):
            if setting.get("spreading_activation_restricted") and any(twice(c) for c in mem):
                continue
            few = SRC if len(mem) == 1 or case[2] else SRC[si % 3::3] if len(mem) == 2 else SRC[si % 5::5]
            for g in few:
                hs = (None, SRC[6], SRC[9]) if "h" in setting["buffer_spreading_activation"] else (None,)
                for h in hs:
                    reqs = [()] + [exact(c) for c in mem[:1]] + ([exact(mem[1])] if len(mem) > 1 else [])
                    req = reqs[-1] if len(mem) == 1 else reqs[1]
                    rl = [("go", (("=", "k", pat(s="0")),), (("+", "retrieval", req), ("=", "k", pat(s="1")))),
                          ("more", (("=", "k", pat(s="1")), ("=", "retrieval", ())), (("+", "retrieval", reqs[0]), ("=", "k", pat(s="2"))))]
                    init = [("k", (("s", "0"),))] + [(n, c) for n, c in (("g", g), ("h", h)) if c]
                    errs, mon = subsym.run(rl, (("g", 0), ("h", 0), ("k", 0)), init, tuple((c, -1) for c in mem), dict(BASE, **setting), 40.0, ctx, "func")
                    ctx.outcome((len(mon.fired), len(mon.bufs["retrieval"] or ())))
                    report(errs, rl, ctx, f"memory {mem}, buffers {init}, setting {setting}")
                    if errs:
                        return
    else:
        history(case, ctx)


def history(case, ctx):
    """Retrievals interleaved with changes of the memory, on one model."""
    _, h, i = case
    params = dict(BASE, retrieval_threshold=-3, **SETTINGS[i])
    if params.get("spreading_activation_restricted") and any(twice(CH[OPS[o][1]]) for o in h):
        return
    p = dict(subsym.DEFAULTS)
    p.update(params)
    rl = [("r%d" % n, (("=", "k", pat(s=str(n))), ("?", "retrieval", (("state", "free"),))), (("+", "retrieval", exact(CH[c]) if c is not None else ()), ("=", "k", pat(s=str(n + 1)))))
          for n, c in enumerate([None] + sorted({6, 9} | {OPS[o][1] for o in h}))]
    src = (("s", P), ("t", Q))
    goals = (("g", 0), ("h", 0), ("k", 0))
    m = prog.build(rl, goals, (("g", src),), ((CH[9], -1), (CH[6], -1)), dict(params, subsymbolic=True), "func")
    t = 0.0
    for o in (None,) + h:
        if o is not None:
            op, ci = OPS[o]
            c = CH[ci]
            if op == "swap":         # a copy is the memory from now on
                m.decmems["decmem"] = m.decmem.copy()
            elif op.startswith("copy"):         # what happens to a copy of the memory does not matter
                other = m.decmem.copy()
                for x in (5, 7, 9, 10, 13):
                    other.add(prog.mkc(CH[x]), t)
                if op == "copydel":
                    del other[prog.mkc(CH[10])]
            elif op == "add":
                m.decmem.add(prog.mkc(c), t)
            elif op == "del":
                if prog.mkc(c) in m.decmem:
                    del m.decmem[prog.mkc(c)]
            else:
                m.goals["h"].add(prog.mkc(c))
                m.goals["h"].clear(t, m.decmem)
        m.goals["k"].add(prog.mkc((("s", "0"),)))
        sim = m.simulation(gui=False, initial_time=t)
        mon = subsym.SubMonitor(m, rl, goals, ctx, start=t)
        mon.params = p
        prog.simrun.simulate(m, t + 20, mon, sim=sim)
        errs = mon.finish(t + 20)
        ctx.ran()
        ctx.step(mon.events)
        t = t + 21
        if errs:
            report(errs, rl, ctx, f"history {[OPS[x] for x in h]}, chunks {CH}, setting {SETTINGS[i]}")
            return
    ctx.outcome((len(m.decmem),))


def final(total, tier):
    if len(total.outcomes) < 4:
        yield "vacuous", f"{total.outcomes}"
