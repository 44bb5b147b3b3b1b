"""
Driving whole ACT-R simulations: builds models through the public API, runs them and captures the trace
through standard output (the documented interface), with an optional callback at every trace event.
"""
import contextlib
import re

import numpy as np

from mc import core  # noqa: F401  (puts /repo on sys.path)
import pyactr as actr
from pyactr import utilities

INF = float("inf")
PLAIN = re.compile(r"\((-?[0-9.]+), '([A-Za-z0-9_]+)', '([^'\"\\]*)'\)")


def parse_event(line):
    """A trace line is the repr of the tuple (time, module, action)."""
    if not line.startswith("("):
        return None
    m = PLAIN.fullmatch(line)
    if m:
        return (round(float(m[1]), 4), m[2], m[3])
    try:
        t = eval(line, {"np": np, "__builtins__": {}})
    except Exception:
        return None
    if isinstance(t, tuple) and len(t) == 3 and isinstance(t[1], str) and isinstance(t[2], str):
        return (round(float(t[0]), 4), t[1], t[2])
    return None


class TraceWriter:
    """A stand-in for stdout that turns the printed trace into a list of events."""

    def __init__(self, on_event=None, on_line=None):
        self.buf = ""
        self.events = []
        self.lines = []
        self.on_event = on_event
        self.on_line = on_line

    def write(self, s):
        self.buf += s
        while "\n" in self.buf:
            line, self.buf = self.buf.split("\n", 1)
            ev = parse_event(line)
            if ev is not None:
                self.events.append(ev)
                if self.on_event:
                    self.on_event(ev)
            else:
                self.lines.append(line)
                if self.on_line:
                    self.on_line(line)
        return len(s)

    def flush(self):
        pass


def simulate(model, until=10.0, on_event=None, on_line=None, writer=None, sim=None, **simkw):
    """Run the model until `until`; returns (events, simulation, writer)."""
    w = writer or TraceWriter(on_event, on_line)
    if sim is None:
        sim = model.simulation(gui=False, **simkw)
    with contextlib.redirect_stdout(w):
        sim.run(until)
    return w.events, sim, w


def val(x):
    """Canonical value of a slot: None for empty, a string, or a canonical chunk tuple."""
    if x is None:
        return None
    if isinstance(x, utilities.VarvalClass):
        x = x.values
        if x is None:
            return None
    if isinstance(x, actr.chunks.Chunk):
        return canon(x)
    if isinstance(x, str):
        return None if x == "None" else x
    if x == None:  # noqa: E711   (the library's empty value)
        return None
    return x


def canon(chunk):
    """Canonical form of a chunk: sorted tuple of non-empty (slot, value)."""
    if chunk is None:
        return None
    return tuple(sorted(((s, val(v)) for s, v in chunk if val(v) is not None), key=lambda p: (p[0], repr(p[1]))))


def content(buffer):
    """Canonical content of a buffer, None if empty."""
    l = list(buffer)
    if not l:
        return None
    if len(l) > 1:
        return ("MULTIPLE",) + tuple(canon(c) for c in l)
    return canon(l[0])


def dm_content(dm):
    """Canonical content of a declarative memory: {canonical chunk: tuple of times}; detects duplicate keys."""
    d = {}
    for c in dm:
        k = canon(c)
        t = tuple(sorted(round(float(x), 4) for x in np.atleast_1d(dm[c])))
        if k in d:
            d[k] = d[k] + ("DUPLICATE",) + t
        else:
            d[k] = t
    return d


def mk(slots, typename=None):
    """Make a chunk out of a canonical tuple / dict (values None, str or canonical chunk tuples)."""
    d = dict(slots)
    tn = typename or "T" + "_".join(sorted(d))
    kw = {}
    for s, v in d.items():
        if isinstance(v, tuple):
            kw[s] = mk(v)
        elif v is None:
            continue
        else:
            kw[s] = v
    return actr.chunks.Chunk(tn, **kw)


def vv(text):
    """The value written as in a textual rule (a, =x, ~a, ~=x, <=x, combinations) for the function format."""
    if not isinstance(text, str):
        return text
    value = var = None
    nv, nvar = [], []
    for neg, eq, word in re.findall(r"(~?)(=?)([^~=]+)", text):
        if neg:
            (nvar if eq else nv).append(word)
        elif eq:
            var = word
        else:
            value = word
    return utilities.VarvalClass(values=value, variables=var, negvalues=tuple(nv), negvariables=tuple(nvar))


def frule(name, lhs, rhs, utility=0, reward=None):
    """A rule in the function format: sides are {buffer key: None | dict of queries | (chunk type, slot values as written in rules)}."""
    def side(d):
        return {k: (actr.chunks.Chunk(v[0], **{s: vv(x) for s, x in v[1].items()}) if isinstance(v, tuple) else v) for k, v in d.items()}

    def f(utility=utility, reward=reward):
        yield side(lhs)
        yield side(rhs)
    f.__name__ = name
    return f
