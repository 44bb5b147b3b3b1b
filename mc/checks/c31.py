"""C31 a copied buffer equals its original and is independent of it."""
import itertools

from mc import simrun
from mc.simrun import actr

ID = "C31"
LEVEL = "model_checking"
RULE = ("every operation sequence on a buffer, a copy of it (with and without naming a memory, also a copy of a copy), then every "
        "interleaving of operations on the copy and on the original, each step compared with a reference of both buffers and "
        "their memories; every sequence ends with requests that reveal the remembered retrievals; "
        "state = distinct (buffers, memories)")
ASSUMPTIONS = ["writing over a chunk in a goal buffer is left out (its documentation contradicts itself on whether the old chunk is harvested)",
               "the state flag (busy, free, error) is left out: the library sets it only inside a simulation"]
CHUNK = 8

A, B = (("s", "a"),), (("s", "b"), ("t", "c"))
RET = ["addA", "addB", "clear", "modT", "finst", "firing", "getA", "getB", "newA", "act"]
GOAL = ["addA", "addB", "clear", "clear2", "modT", "delay", "target", "create"]
OPS = {"retrieval": RET, "goal": GOAL}
COPIES = ("plain", "memory", "empty", "twice")      # without a memory, with one that has chunks or none, and a copy of the copy
DEPTH = {"quick": ((0, 2), (1, 2), (2, 1), (3, 0)), "thorough": ((0, 3), (1, 3), (2, 2), (3, 1))}


def bounds(tier):
    return {"operations": OPS, "kinds of copy": COPIES, "operations before the copy and after it (on any of the buffers)": DEPTH[tier]}


def cases(tier):
    for k in OPS:
        for n, after in DEPTH[tier]:
            for pre in itertools.product(OPS[k], repeat=n):
                for how in COPIES:
                    yield (k, pre, how, after)


def mk(c):
    return actr.chunks.Chunk("mcbuf", **dict(c))


class Mem:
    """Reference memory and the real one."""

    def __init__(self, real, times=None, act=None):
        self.real, self.times, self.act = real, dict(times or {}), dict(act or {})

    def add(self, c, t):
        self.times[c] = self.times.get(c, ()) + (float(t),)

    def real_act(self):
        return {simrun.canon(c): v for c, v in self.real.activations.items()}


class Buf:
    def __init__(self, kind, real, mem):
        self.kind, self.real, self.mem = kind, real, mem
        self.cell, self.finst, self.params, self.recent, self.delay = None, 1, {}, [], 0.0

    def copied(self, other):
        """The copy made of this buffer."""
        if other is not None:
            real, mem = self.real.copy(other.real), other
        elif self.kind == "goal":
            real, mem = self.real.copy(), self.mem
        else:
            real = self.real.copy()
            mem = Mem(real.dm, self.mem.times, self.mem.act)
        new = Buf(self.kind, real, mem)
        new.cell, new.finst, new.params, new.recent, new.delay = self.cell, self.finst, dict(self.params), list(self.recent), self.delay
        return new

    def get(self, c, t, ctx, where, seen=None):
        """A request for the chunk c among those not recently retrieved (or, with seen, among those that were)."""
        test = {"recently_retrieved": "True" if seen else "False"}
        got, extra = self.real.retrieve(t, actr.chunks.Chunk("mcbuf", **dict({"t": "None"}, **dict(c))), {}, {}, test, dict(PARAMS))
        exp = c if c in self.mem.times and self.mem.times[c][0] != t and (c in self.recent) == bool(seen) else None
        got = None if got is None else simrun.canon(got)
        if got != exp:
            ctx.bad("retrieved", f"{where}: request for {c} ({test}) gives {got}, expected {exp}; remembered {self.recent}, memory {self.mem.times}")
        want = 0 if exp else self.params.get("rule_firing", PARAMS["rule_firing"])
        if extra != want:
            ctx.bad("retrieval-time", f"{where}: request for {c} takes {extra}, expected {want}")
        if exp:
            self.recent.append(exp)
            if len(self.recent) > self.finst:
                del self.recent[0]

    def do(self, op, t, world, ctx, where):
        """Carry out an operation; False if it does not apply."""
        r = self.real
        if op in ("addA", "addB"):
            c = A if op == "addA" else B
            if self.kind == "goal":
                if self.cell is not None:
                    return False
                r.add(mk(c), t)
            else:
                r.add(mk(c), t)
                if self.cell is not None:
                    self.mem.add(self.cell, t)
            self.cell = c
        elif op == "create":
            if self.cell is not None:
                return False
            r.create(actr.chunks.Chunk("mcbuf", s="=x"), None, {"=x": "a"})
            self.cell = A
        elif op in ("clear", "clear2"):
            mem = self.mem if op == "clear" else world[0]
            r.clear(*((t,) if op == "clear" else (t, mem.real)))
            if self.cell is not None:
                mem.add(self.cell, t)
            self.cell = None
        elif op == "modT":
            if self.cell is None:
                return False
            r.modify(actr.chunks.Chunk("mcbuf", t="d"), {})
            self.cell = tuple(sorted(dict(self.cell, t="d").items()))
        elif op == "finst":
            self.finst += 1
            r.finst = self.finst
        elif op == "firing":
            v = self.params.get("rule_firing", 0) + 1
            self.params["rule_firing"] = v
            r.model_parameters["rule_firing"] = v
        elif op in ("getA", "getB"):
            self.get(A if op == "getA" else B, t, ctx, where)
        elif op == "newA":
            r.dm.add(mk(A), t)
            self.mem.add(A, t)
        elif op == "act":
            v = self.mem.act.get(B, 0) + 1
            r.dm.activations.update({mk(B): v})
            self.mem.act[B] = v
        elif op == "delay":
            self.delay += 0.5
            r.delay = self.delay
        elif op == "target":
            r.default_harvest = world[1].real
            self.mem = world[1]
        return True


PARAMS = {"subsymbolic": False, "rule_firing": 0.05}


def agree(bufs, mems, ctx, where):
    for n, b in bufs:
        if simrun.content(b.real) != b.cell:
            ctx.bad("content", f"{where}: the {n} holds {simrun.content(b.real)}, expected {b.cell}")
        if b.kind == "goal":
            if b.real.delay != b.delay:
                ctx.bad("setting", f"{where}: the delay of the {n} is {b.real.delay}, expected {b.delay}")
        else:
            if b.real.finst != b.finst or dict(b.real.model_parameters) != b.params:
                ctx.bad("setting", f"{where}: the {n} has finst {b.real.finst} and parameters {b.real.model_parameters}, expected {b.finst} {b.params}")
        if b.real.dm is not b.mem.real:
            ctx.bad("memory", f"{where}: the {n} uses another memory than the one given to it")
    for n, b in bufs:
        if simrun.dm_content(b.mem.real) != b.mem.times or b.mem.real_act() != b.mem.act:
            ctx.bad("harvest", f"{where}: the memory of the {n} is {simrun.dm_content(b.mem.real)} {b.mem.real_act()}, expected {b.mem.times} {b.mem.act}")
    for m in mems:
        if simrun.dm_content(m.real) != m.times:
            ctx.bad("harvest", f"{where}: another memory is {simrun.dm_content(m.real)}, expected {m.times}")


def run_seq(kind, pre, how, post, ctx):
    """One sequence; returns the number of operations of post carried out before one that does not apply, or None."""
    actr.chunktype("mcbuf", "s, t")
    world = [Mem(actr.declarative.DecMem()) for _ in range(3)]
    mem = Mem(actr.declarative.DecMem())
    for c in (A, B):
        mem.real.add(mk(c), 0)
        mem.add(c, 0)
        world[2].real.add(mk(c), 0)
        world[2].add(c, 0)
    real = actr.goals.Goal(None, mem.real) if kind == "goal" else actr.declarative.DecMemBuffer(mem.real, None, 1)
    orig = Buf(kind, real, mem)
    t = 0
    for op in pre:
        t += 1
        if not orig.do(op, t, world, ctx, f"{kind} {pre}"):
            return -1
    bufs = [("original", orig), ("copy", orig.copied({"memory": world[2], "empty": world[0]}.get(how)))]
    if how == "twice":
        bufs.append(("copy of the copy", bufs[1][1].copied(None)))
    if kind == "retrieval" and how in ("plain", "twice"):
        reals = [b.real.dm for _, b in bufs]
        if len({id(x) for x in reals}) != len(reals):
            ctx.bad("shared", f"{kind} {pre} copied ({how}): the buffers share one memory")
            return -1
    where = f"{kind} {pre} copied ({how})"
    agree(bufs, world, ctx, where)
    if ctx.problems:
        return None
    for i, (who, op) in enumerate(post):
        t += 1
        w = f"{where}, then {post[:i + 1]}"
        if not bufs[who][1].do(op, t, world, ctx, w):
            return i
        ctx.step()
        agree(bufs, world, ctx, w)
        ctx.state((kind, [(b.cell, b.finst, b.params, b.recent, b.delay, b.mem.times) for _, b in bufs]))
        if ctx.problems:
            return None
    if kind == "retrieval":
        for n, b in bufs:
            for seen in (True, False):
                for c in (B, A):
                    t += 1
                    b.get(c, t, ctx, f"{where}, then {post}, the {n} at last")
        agree(bufs, world, ctx, f"{where}, then {post} and requests")
    ctx.ran()
    ctx.outcome((kind, how, tuple(len(b.recent) for _, b in bufs), tuple(b.cell is None for _, b in bufs)))
    return None


def run_case(case, ctx):
    kind, pre, how, after = case
    n = 3 if how == "twice" else 2
    moves = [(w, o) for w in range(n) for o in OPS[kind]]
    cut = set()
    for post in itertools.product(moves, repeat=after):
        if any(post[:k] in cut for k in range(1, after + 1)):
            continue
        x = run_seq(kind, pre, how, post, ctx)
        if x == -1:
            return
        if x is not None:
            cut.add(post[:x + 1])
        if ctx.problems:
            return


def final(total, tier):
    if len(total.outcomes) < 12:
        yield "vacuous", f"outcomes {dict(total.outcomes)}"
