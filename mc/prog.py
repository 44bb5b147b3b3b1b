"""
Small ACT-R programs as data, their construction through the public API (textual or function rules), and a
refinement monitor: every event of a run must be explained by the reference semantics, everything the reference
semantics promises must happen at its time, and after every instant all buffers and the declarative memory must have
the predicted content.

rule    (name, lhs, rhs[, {"utility": u, "reward": r}])
lhs     ("=", buffer, pattern) or ("?", buffer, ((key, value), ...))
rhs     ("=" | "@" | "*" | "+", buffer, pattern), ("~", buffer), ("?", buffer, ((key, value), ...)), ("!", buffer, slots shown)
pattern tuple of (slot, (value, variable, negvalues, negvariables)), see ref.py
"""
import itertools

from mc import ref, simrun
from mc.ref import NOTHING
from mc.simrun import actr

TYPE = "mct"
SLOTS = "s, t"
INNER = {"mcinnera": (("v", "p"),), "mcinnerb": (("v", "q"),)}
INNER_NAME = {v: k for k, v in INNER.items()}


def sp(value=NOTHING, var=None, nv=(), nvar=()):
    return (value, var, tuple(nv), tuple(nvar))


def pat(**kw):
    return tuple((k, v if isinstance(v, tuple) and len(v) == 4 else sp(v)) for k, v in kw.items())


def declare():
    actr.chunktype(TYPE, SLOTS)
    actr.chunktype("mcinner", "v")
    for n, c in INNER.items():
        actr.makechunk(nameofchunk=n, typename="mcinner", **dict(c))


def text(pattern, typename=TYPE):
    p = tuple((s, (INNER_NAME.get(v[0], v[0]),) + tuple(v[1:])) for s, v in pattern)
    return ref.pattern_text(p, typename)


def rule_text(rule, typename=TYPE):
    _, lhs, rhs = rule[:3]
    l, r = [], []
    for it in lhs:
        if it[0] == "?":
            l.append(f"?{it[1]}> " + " ".join(f"{k} {v}" for k, v in it[2]))
        else:
            l.append(f"={it[1]}> " + text(it[2], typename))
    for it in rhs:
        if it[0] == "~":
            r.append(f"~{it[1]}>")
        elif it[0] == "?":
            r.append(f"?{it[1]}> " + " ".join(f"{k} {v}" for k, v in it[2]))
        elif it[0] == "!":
            r.append(f"!{it[1]}> " + " ".join(f"show {x}" for x in it[2].split()))
        else:
            r.append(f"{it[0]}{it[1]}> " + text(it[2], typename))
    return "\n".join(l) + "\n==>\n" + "\n".join(r)


def varval(spec):
    v, var, nv, nvar = spec
    return actr.utilities.VarvalClass(
        values=None if v == NOTHING else ("None" if v is None else (simrun.mk(v, "mcinner") if isinstance(v, tuple) else v)),
        variables=var, negvalues=tuple("None" if n is None else n for n in nv), negvariables=tuple(nvar))


def rule_function(rule, typename=TYPE):
    """The same rule as a generator function, the other public rule format."""
    name, lhs, rhs = rule[:3]
    opts = rule[3] if len(rule) > 3 else {}

    def chunk(p):
        return actr.chunks.Chunk(typename, **{s: varval(v) for s, v in p})

    def side(items):
        d = {}
        for it in items:
            key = it[0] + it[1]
            if it[0] == "~":
                d[key] = None
            elif it[0] == "?":
                d[key] = dict(it[2])
            elif it[0] == "!":
                d[key] = [("show", x) for x in it[2].split()]
            else:
                d[key] = chunk(it[2])
        return d

    def f(utility=opts.get("utility", 0), reward=opts.get("reward")):
        yield side(lhs)
        yield side(rhs)
    f.__name__ = name
    return f


def build(rules, goals=(("g", 0),), init=(), dm=(), params=None, mode="text", env=None, model=None):
    """goals: (name, delay); init: (buffer, canonical content); dm: (canonical chunk, time)."""
    declare()
    m = model or actr.ACTRModel(environment=env, **(params or {}))
    for name, delay in goals:
        if name == "g":
            m.goals["g"].delay = delay
        else:
            m.set_goal(name, delay)
    if mode == "text":
        for r in rules:
            opts = r[3] if len(r) > 3 else {}
            m.productionstring(name=r[0], string=rule_text(r), utility=opts.get("utility", 0), reward=opts.get("reward"))
    else:
        m.set_productions(*[rule_function(r) for r in rules])
    for name, c in init:
        if c is None:
            continue
        if name in m.retrievals:
            m.retrievals[name]._data = {mkc(c)} if False else m.retrievals[name]._data
            raise ValueError("retrieval starts empty")
        m.goals[name].add(mkc(c))
    for c, t in dm:
        m.decmem.add(mkc(c), t)
    return m


def mkc(c, typename=TYPE):
    kw = {s: (simrun.mk(v, "mcinner") if isinstance(v, tuple) else v) for s, v in dict(c).items() if v is not None}
    return actr.chunks.Chunk("mcnone" if not kw else "mcinner" if set(kw) == {"v"} else typename, **kw)


# ------------------------------------------------------------------------------------------ reference semantics

def lhs_bindings(lhs, bufs, queries, refs=()):
    """Bindings under which all conditions hold, or None.  bufs: name -> canonical content; queries: callable."""
    b = {}
    for it in lhs:
        if it[0] == "?":
            for k, v in it[2]:
                if not queries(it[1], k, v):
                    return None
        else:
            c = bufs.get(it[1])
            if c is None:
                return None
            if it[1] in refs and b.get(it[1], c) != c:
                return None
            b = ref.match(it[2], c, b)
            if b is None:
                return None
            if it[1] in refs:
                b[it[1]] = c                    # the buffer's name is a variable that stands for the chunk in it
    return b


def buffer_variables(rule):
    """Names used as variables in the rule (they may be names of buffers)."""
    out = set()
    for it in rule[1] + rule[2]:
        if it[0] not in "?~!":
            for _, (_, var, _, nvar) in it[2]:
                out |= set(nvar) | {var}
    return out


def instantiate(pattern, b):
    """Slots of a right-hand-side chunk under bindings: {slot: value}; value None: the slot is left/made empty."""
    out = {}
    for slot, (v, var, nv, nvar) in pattern:
        if v != NOTHING:
            out[slot] = v
        elif var:
            out[slot] = b[var]
    return out


def canon_of(d):
    return tuple(sorted(((k, v) for k, v in d.items() if v is not None), key=lambda p: (p[0], repr(p[1]))))


def request_pattern(pattern, b, loose=False):
    """
    A retrieval pattern with its variables replaced by their bindings.  A variable bound to an empty slot may be read
    as "the slot must be empty" or (loose) as no constraint: both readings are accepted.
    """
    out = []
    for slot, (v, var, nv, nvar) in pattern:
        val = v
        if var:
            val = NOTHING if loose and b[var] is None else b[var]
        neg = tuple(b[n] for n in nvar if not (loose and b[n] is None))
        out.append((slot, (val, None, tuple(nv) + neg, ())))
    return tuple(out)


class Ob:
    """Something the reference semantics says must happen: module, due time, label, effect."""

    def __init__(self, module, due, label, effect=None, kind="direct"):
        self.module, self.due, self.label, self.effect, self.kind = module, round(due, 4), label, effect, kind
        self.optional = False
        self.alternative = False         # one of two ways in which a request can go

    def __repr__(self):
        return f"({self.due}, {self.module}, {self.label})"


class Monitor:
    """Refinement monitor for symbolic programs over goal buffers and one retrieval buffer."""

    GOALS_FIRST_ORDER = {"!": 0, "?": 0, "=": 1, "@": 2, "*": 3, "+": 4, "~": 5}

    def __init__(self, model, rules, goals, ctx=None, check=("all",), strict=False, rule_firing=0.05, retrieval="retrieval", start=0):
        self.m = model
        self.rules = {r[0]: r for r in rules}
        self.delay = dict(goals)
        self.ctx = ctx
        self.strict = strict
        self.rf = rule_firing
        self.rname = retrieval
        self.t = None
        self.errors = []
        self.obs = []
        self.events = 0
        self.bufs, self.dm = self.real()
        self.prev = (dict(self.bufs), self.states())   # state at the end of the previous instant
        self.inst = [self.prev]                  # states seen in this instant
        self.selected = None
        self.cr = None
        self.next_cr = (start, True)             # (time, obligatory)
        self.dead = False
        self.fired = []
        self.harvests = 0
        self.shown = []                  # lines printed by commands
        self.pstate = {n: "free" for n in self.bufs}   # predicted module states; None: not determined

    # -- observation of the real model
    def real(self):
        b = {n: simrun.content(x) for n, x in self.m.goals.items()}
        b[self.rname] = simrun.content(self.m.retrieval)
        return b, simrun.dm_content(self.m.decmem)

    def states(self):
        s = {n: x.state for n, x in self.m.goals.items()}
        s[self.rname] = self.m.retrieval.state
        return s

    def err(self, sig, detail):
        if not self.dead:
            self.errors.append((sig, f"t={self.t}: {detail}"))
        self.dead = True

    def dm_add(self, content, t):
        self.dm[content] = tuple(sorted(self.dm.get(content, ()) + (round(t, 4),)))
        self.harvests += 1

    # -- events
    def __call__(self, ev):
        if self.dead:
            return
        t, proc, action = ev
        self.events += 1
        if self.t is None:
            self.t = t
        if t < self.t:
            return self.err("time", f"event {ev} printed after time {self.t}")
        if t > self.t:
            self.close(t)
            if self.dead:
                return
            self.t = t
        snap = self.real()
        st = self.states()
        self.inst.append((dict(snap[0]), st))
        if proc == "PROCEDURAL":
            self.procedural(t, action, snap, st)
        else:
            self.module(t, proc, action, snap)
        self.last = snap
        self.last_states = st

    def close(self, newt):
        """End of an instant: the real state must be the predicted one, and nothing due may be outstanding."""
        for o in self.obs:
            if o.due < newt - 1e-9 and not o.optional:
                return self.err("missed", f"{o} did not happen")
        self.obs = [o for o in self.obs if o.due >= newt - 1e-9]
        if self.next_cr and self.next_cr[0] < newt - 1e-9 and self.next_cr[1]:
            return self.err("stalled", f"no conflict resolution at {self.next_cr[0]}")
        rb, rd = self.last
        if rb != self.bufs:
            return self.err("buffers", f"buffers {rb}, predicted {self.bufs}")
        if rd != self.dm:
            return self.err("declarative memory", f"memory {rd}, predicted {self.dm}")
        if self.last_states is not None:
            for n, x in self.pstate.items():
                if x is not None and self.last_states[n] != x:
                    return self.err("module state", f"buffer {n} reports state {self.last_states[n]}, predicted {x}")
        self.prev = self.inst[-1]
        self.inst = [self.prev]
        if self.ctx is not None:
            self.ctx.state((sorted(rb.items(), key=repr), sorted(rd.items(), key=repr)))

    def finish(self, until):
        """Call after the run."""
        if self.dead:
            return self.errors
        if self.t is None:
            self.err("empty", "no event")
            return self.errors
        self.last = self.real()
        self.last_states = self.states()
        self.close(until)
        return self.errors

    def query_in(self, bufs, states):
        def q(buf, k, v):
            if k == "buffer":
                return (bufs.get(buf) is not None) == (v == "full")
            return states[buf] == v
        return q

    def procedural(self, t, action, snap, st):
        bufs = snap[0]
        if action == "CONFLICT RESOLUTION":
            if not self.next_cr or abs(self.next_cr[0] - t) > 1e-9:
                return self.err("schedule", f"conflict resolution at {t}, expected {self.next_cr}")
            self.next_cr = None
            self.cr = {}
            for n, r in self.rules.items():
                b = lhs_bindings(r[1], bufs, self.query_in(bufs, st), buffer_variables(r))
                if b is not None:
                    self.cr[n] = b
            self.cr_t = t
        elif action.startswith("RULE SELECTED: "):
            n = action[len("RULE SELECTED: "):]
            if self.cr is None or self.cr_t != t:
                return self.err("selection", "a rule is selected without conflict resolution")
            if n not in self.cr:
                return self.err("selection", f"rule {n} selected, but its conditions do not hold in {bufs} {st}")
            u = {x: self.utility(x) for x in self.cr}
            if u[n] < max(u.values()):
                return self.err("selection", f"rule {n} selected with utility {u[n]}, matching rules have {u}")
            self.cr = None
            self.selected = (n, round(t + self.rf, 4))
        elif action == "NO RULE FOUND":
            if self.cr is None or self.cr_t != t:
                return self.err("selection", "no rule found without conflict resolution")
            if self.cr:
                return self.err("selection", f"no rule found, but {sorted(self.cr)} match {bufs} {st}")
            self.cr = None
            # from now on any event of a module starts a new cycle
            self.next_cr = (float("inf"), False)
            self.waiting = True
        elif action.startswith("RULE FIRED: ") or action.startswith("RULE STOPPED FROM FIRING: "):
            n = action.split(": ", 1)[1]
            if not self.selected or self.selected != (n, t):
                return self.err("firing", f"{action} at {t}, selected {self.selected}")
            self.selected = None
            cands = []
            nomatch = False
            for b, s in self.inst:
                x = lhs_bindings(self.rules[n][1], b, self.query_in(b, s), buffer_variables(self.rules[n]))
                if x is None:
                    nomatch = True
                elif x not in cands:
                    cands.append(x)
            if action.startswith("RULE STOPPED"):
                if not nomatch:
                    return self.err("firing", f"rule {n} stopped although its conditions hold in {bufs}")
            else:
                if not cands:
                    return self.err("firing", f"rule {n} fired although its conditions do not hold in {self.inst}")
                if len(cands) > 1:
                    self.dead = True       # two simultaneous changes: the bindings are not determined
                    return
                self.fired.append(n)
                self.fire(self.rules[n], cands[0], t)
                if self.dead:
                    return
            # the next cycle starts when the rule's own (inline) actions are over
            self.next_cr = (max([t] + [o.due for o in self.obs if o.kind == "inline" and o.due >= t]), True)
            self.waiting = False
        else:
            return self.err("unknown event", action)

    def utility(self, name):
        opts = self.rules[name][3] if len(self.rules[name]) > 3 else {}
        return opts.get("utility", 0)

    def pending(self, buf):
        return any(o.module == buf and o.kind == "request" for o in self.obs)

    # -- right-hand side
    def fire(self, rule, b, t):
        rhs = sorted(rule[2], key=lambda x: self.GOALS_FIRST_ORDER[x[0]])
        bufs_in_rhs = {x[1] for x in rhs}
        extra = {}
        t0 = t
        for it in rhs:
            code, buf = it[0], it[1]
            if code in "+*":
                self.pstate[buf] = "busy"
            elif self.pending(buf):
                self.pstate[buf] = None
            else:
                self.pstate[buf] = "free" if code != "@" else None
            if t > t0:
                self.pstate[buf] = None                 # only begun after a delayed overwrite
            if code in "+*":
                for o in self.obs:
                    if o.module == buf and o.kind == "request":
                        o.optional = True           # superseded by the new request
                self.obs = [o for o in self.obs if not (o.optional and o.due > t + 1e-9)]
            if code == "?":
                extra[buf] = dict(it[2])
                self.obs.append(Ob(buf, t, "EXTRA TEST ADDED", None, "inline"))
            elif code == "!":
                self.obs.append(Ob(buf, t, "EXECUTED", self.eff_show(buf, it[2]), "inline"))
            elif code == "=":
                self.obs.append(Ob(buf, t, "MODIFIED", self.eff_modify(buf, it[2], b), "inline"))
            elif code == "@":
                # overwriting takes the delay of the buffer; the actions that follow in the rule come after it
                t = round(t + self.delay.get(buf, 0), 4)
                self.obs.append(Ob(buf, t, "WROTE A CHUNK", self.eff_set(buf, it[2], b), "inline"))
            elif code == "*":
                due = t + self.delay.get(buf, 0)
                self.obs.append(Ob(buf, due, "MODIFIED", self.eff_modify(buf, it[2], b), "request"))
            elif code == "~":
                self.obs.append(Ob(buf, t, "CLEARED", self.eff_clear(buf), "inline"))
            elif code == "+" and buf in self.delay:
                self.obs.append(Ob(buf, t, "CLEARED", self.eff_clear(buf), "request"))
                self.obs.append(Ob(buf, t + self.delay[buf], "CREATED A CHUNK", self.eff_set(buf, it[2], b), "request"))
            elif code == "+":
                self.obs.append(Ob(buf, t, "START RETRIEVAL", self.eff_start(buf, it[2], b), "request"))
        if self.strict:
            for it in rule[1]:
                if it[0] == "=" and it[1] not in bufs_in_rhs:
                    self.pstate[it[1]] = None if self.pending(it[1]) else "free"
                    for o in self.obs:
                        if o.module == it[1] and o.kind == "request":
                            o.optional = True
                    self.obs.append(Ob(it[1], t, "CLEARED", self.eff_clear(it[1]), "direct"))
                    bufs_in_rhs.add(it[1])

    def eff_modify(self, buf, pattern, b):
        new = instantiate(pattern, b)

        def f(t, snap, action):
            d = dict(self.bufs[buf])
            d.update(new)
            self.bufs[buf] = canon_of(d)
        return f

    def eff_show(self, buf, slots):
        def f(t, snap, action):
            for slot in slots.split():
                value = dict(self.bufs[buf] or ()).get(slot)
                self.shown.append((slot, value) if isinstance(value, str) else (slot, None))
        return f

    def eff_set(self, buf, pattern, b):
        new = canon_of(instantiate(pattern, b))

        def f(t, snap, action):
            self.bufs[buf] = new
        return f

    def eff_clear(self, buf):
        def f(t, snap, action):
            if self.bufs[buf] is not None:
                self.dm_add(self.bufs[buf], t)
                self.bufs[buf] = None
        return f

    def eff_start(self, buf, pattern, b):
        def f(t, snap, action):
            strict, loose = ([c for c, times in snap[1].items()
                              if ref.match(request_pattern(pattern, b, l), c, {}) is not None and min(times) != t] for l in (False, True))
            if loose:
                self.obs.append(Ob(buf, t, "CLEARED", None, "request"))
                self.obs.append(Ob(buf, t, "RETRIEVED", self.eff_retrieved(buf, loose), "request"))
            if not strict:
                self.obs.append(Ob(buf, t + self.rf, "RETRIEVED: None", None, "request"))
            if loose and not strict:
                for o in self.obs[-3:]:
                    o.optional = o.alternative = True
        return f

    def eff_retrieved(self, buf, cands):
        def f(t, snap, action):
            got = snap[0][buf]
            if action == "RETRIEVED: None":
                return self.err("retrieval", f"nothing retrieved although {cands} match")
            if got not in cands:
                return self.err("retrieval", f"retrieved {got}, but only {cands} match")
            if self.bufs[buf] is not None:
                self.dm_add(self.bufs[buf], t)
            self.bufs[buf] = got
        return f

    def module(self, t, proc, action, snap):
        for i, o in enumerate(self.obs):
            if o.module == proc and abs(o.due - t) < 1e-9 and (action == o.label or action.startswith(o.label + ":")):
                del self.obs[i]
                if o.alternative:
                    self.obs = [x for x in self.obs if x.module != proc or not x.alternative or (x.label == "RETRIEVED" and o.label == "CLEARED")]
                if o.label == "WROTE A CHUNK":
                    self.pstate[proc] = None if self.pending(proc) else "free"
                if o.kind == "request" and o.label != "START RETRIEVAL" and o.label != "CLEARED" and not self.pending(proc):
                    self.pstate[proc] = None if o.optional and not o.alternative else "error" if action == "RETRIEVED: None" else "free"
                if o.effect:
                    o.effect(t, snap, action)
                break
        else:
            return self.err("unexplained", f"{(t, proc, action)} is not an effect of any fired rule; outstanding {self.obs}")
        if self.next_cr and not self.next_cr[1]:
            self.next_cr = (t, True)


def run(rules, goals=(("g", 0),), init=(), dm=(), params=None, mode="text", until=0.42, ctx=None, monitor=Monitor):
    """Run a program under the monitor; returns (errors, monitor)."""
    params = dict(params or {})
    m = build(rules, goals, init, dm, params, mode)
    mon = None
    sim = m.simulation(gui=False)
    mon = monitor(m, rules, goals, ctx, strict=params.get("strict_harvesting", False), rule_firing=params.get("rule_firing", 0.05))
    _, _, w = simrun.simulate(m, until, mon, sim=sim)
    errs = mon.finish(until)
    if not mon.dead and (len(w.lines) != len(mon.shown) or any(l.split() != [x for x in s if x] and s[1] is not None for l, s in zip(w.lines, mon.shown))):
        errs.append(("shown", f"printed {w.lines}, expected {mon.shown}"))
    if ctx is not None:
        ctx.ran()
        ctx.step(mon.events)
    return errs, mon
