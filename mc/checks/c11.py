"""C11 recency: requests restricted to (not) recently retrieved chunks are answered accordingly."""
import itertools

from mc import prog, ref, simrun
from mc.prog import Ob, pat, sp

ID = "C11"
LEVEL = "model_checking"
RULE = ("every history of unrestricted, not-recently-retrieved and recently-retrieved requests up to the length x number of "
        "remembered retrievals x memory content; state = distinct (buffers, memory, last retrievals)")
ASSUMPTIONS = ["a chunk retrieved twice counts twice among the n; a failed request does not count"]
CHUNK = 8

A, AB, B = (("s", "a"),), (("s", "a"), ("t", "b")), (("s", "b"),)
MEMS = [(A,), (A, B), (A, AB, B)]
REQ = [((), None), ((), "False"), ((), "True"), (pat(s="a"), "False"), (pat(t="zzz"), None), (None, "True"), (pat(s="a"), None), (pat(s="b"), "True")]    # None: an extra test without a request
FINST = [0, 1, 2, 3]
# subsymbolic retrievals that take longer than a cycle: the next request comes while the previous one is going on
REQ2 = [(pat(s="a"), None), (pat(s="a"), "False"), (pat(s="b"), None), (pat(s="b"), "False"), (pat(s="a"), "True"), (pat(s="zzz"), None), (pat(s="zzz"), "True")]
LATENCY = 0.12


def bounds(tier):
    return {"requests": [repr(r) for r in REQ[:6 if tier == "quick" else 8]], "memories": len(MEMS), "remembered": FINST, "history length": 4 if tier == "quick" else 5,
            "overlapping requests": [repr(r) for r in REQ2], "overlapping history length": 3 if tier == "quick" else 4}


def cases(tier):
    n = 4 if tier == "quick" else 5
    for h in itertools.product(range(6 if tier == "quick" else 8), repeat=n):
        yield h
    for h in itertools.product(range(len(REQ2)), (0, 3), repeat=2 if tier == "quick" else 3):
        for last in range(len(REQ2)):
            yield ("overlap",) + h + (last, 3)


class Recency(prog.Monitor):
    finst = 0
    subsymbolic = False

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.attempts = []
        self.extra = {}

    def fire(self, rule, b, t):
        self.extra = {it[1]: dict(it[2]) for it in rule[2] if it[0] == "?"}
        super().fire(rule, b, t)

    def eff_start(self, buf, pattern, b):
        want = self.extra.get(buf, {}).get("recently_retrieved")

        def f(t, snap, action):
            n = self.finst
            recent = set([x for x in self.attempts if x is not None][-n:]) if n else set()
            match = [c for c, times in snap[1].items() if ref.match(prog.request_pattern(pattern, b), c, {}) is not None and min(times) != t]
            can = match
            if n and want in ("True", "False"):
                can = [c for c in match if (c in recent) == (want == "True")]
            if can:
                self.obs.append(Ob(buf, t, "CLEARED", None, "request"))
                self.obs.append(Ob(buf, t, "RETRIEVED", self.eff_rec(buf, can), "request"))
            else:
                self.obs.append(Ob(buf, t + self.rf, "RETRIEVED: None", self.eff_none(), "request"))
            self.kinds.append((want, bool(can), len(match) > len(can)))
        return f

    kinds = ()

    def eff_none(self):
        def f(t, snap, action):
            self.attempts.append(None)
        return f

    def eff_rec(self, buf, cands):
        g = self.eff_retrieved(buf, cands)

        def f(t, snap, action):
            g(t, snap, action)
            self.attempts.append(snap[0][buf])
            if self.ctx is not None:
                self.ctx.state((sorted(snap[1].items(), key=repr), self.attempts[-3:]))
        return f


class Overlap(Recency):
    """Every chunk has activation 0, so every retrieval, successful or not, takes LATENCY; a request replaces one that is
    going on. Whether a chunk whose retrieval was replaced counts as retrieved is left open."""
    open = False

    def eff_start(self, buf, pattern, b):
        want = self.extra.get(buf, {}).get("recently_retrieved")

        def f(t, snap, action):
            n = self.finst
            match = [c for c in snap[1] if ref.match(prog.request_pattern(pattern, b), c, {}) is not None]
            answers = []
            for hist in (self.attempts, self.begun):
                recent = set([x for x in hist if x is not None][-n:]) if n else set()
                answers.append([c for c in match if not n or want not in ("True", "False") or (c in recent) == (want == "True")])
            self.open = self.open or answers[0] != answers[1]
            can = answers[0]
            if len(can) > 1:
                self.open = True
            if can:
                self.obs.append(Ob(buf, t + LATENCY, "CLEARED", None, "request"))
                self.obs.append(Ob(buf, t + LATENCY, "RETRIEVED", self.eff_rec(buf, can), "request"))
                self.begun.append(can[0])
            else:
                self.obs.append(Ob(buf, t + LATENCY, "RETRIEVED: None", self.eff_none(), "request"))
            self.kinds.append((want, bool(can), len(match) > len(can)))
        return f

    def err(self, sig, detail):
        if not self.open:
            super().err(sig, detail)


def overlap(h, ctx):
    rl, k = [], 0
    for i, idle in zip(h[::2], h[1::2]):
        p, x = REQ2[i]
        extra = (("?", "retrieval", (("recently_retrieved", x),)),) if x else ()
        rl.append(("r%d" % k, (("=", "k", pat(s=str(k))),), extra + (("+", "retrieval", p), ("=", "k", pat(s=str(k + 1))))))
        k += 1
        for _ in range(idle):
            rl.append(("i%d" % k, (("=", "k", pat(s=str(k))),), (("=", "k", pat(s=str(k + 1))),)))
            k += 1
    for n in FINST[1:]:
        goals = (("g", 0), ("k", 0))
        m = prog.build(rl, goals, (("k", (("s", "0"),)),), tuple((c, -1 - i) for i, c in enumerate((A, B))),
                       {"subsymbolic": True, "baselevel_learning": False, "latency_factor": LATENCY}, "func")
        m.retrieval.finst = n
        sim = m.simulation(gui=False)
        mon = Overlap(m, rl, goals, ctx)
        mon.finst, mon.kinds, mon.begun = n, [], []
        until = 0.05 * k + 0.2
        simrun.simulate(m, until, mon, sim=sim)
        errs = mon.finish(until)
        ctx.ran()
        ctx.step(mon.events)
        ctx.outcome(("overlap", mon.open))
        for x in mon.kinds:
            ctx.outcome(x)
        for sig, detail in errs:
            ctx.bad(sig, f"overlapping requests {[REQ2[i] for i in h[::2]]} followed by {h[1::2]} other rules, remembered {n}: {detail}; results {mon.attempts}")
        if errs:
            return


def program(h):
    rl = []
    k = 0
    for i in h:
        p, x = REQ[i]
        extra = (("?", "retrieval", (("recently_retrieved", x),)),) if x else ()
        request = () if p is None else (("+", "retrieval", p),)
        rl.append(("r%d" % k, (("=", "k", pat(s=str(k))),), extra + request + (("=", "k", pat(s=str(k + 1))),)))
        rl.append(("i%d" % k, (("=", "k", pat(s=str(k + 1))),), (("=", "k", pat(s=str(k + 2))),)))
        k += 2
    return rl


def run_case(h, ctx):
    if h[0] == "overlap":
        return overlap(h[1:], ctx)
    rl = program(h)
    for mem in MEMS:
        for n in FINST:
            goals = (("g", 0), ("k", 0))
            m = prog.build(rl, goals, (("k", (("s", "0"),)),), tuple((c, -1 - i) for i, c in enumerate(mem)), {}, "func")
            m.retrieval.finst = n
            sim = m.simulation(gui=False)
            mon = Recency(m, rl, goals, ctx)
            mon.finst, mon.kinds = n, []
            simrun.simulate(m, 0.1 * len(h) + 0.07, mon, sim=sim)
            errs = mon.finish(0.1 * len(h) + 0.07)
            ctx.ran()
            ctx.step(mon.events)
            for x in mon.kinds:
                ctx.outcome(x)
            if not errs and len(mon.fired) != 2 * len(h):
                errs = [("incomplete", f"{mon.fired}")]
            for sig, detail in errs:
                ctx.bad(sig, f"requests {[REQ[i] for i in h]}, memory {mem}, remembered {n}: {detail}; results {mon.attempts}")
            if errs:
                return


def final(total, tier):
    if len(total.outcomes) < 4:
        yield "vacuous", f"{total.outcomes}"
