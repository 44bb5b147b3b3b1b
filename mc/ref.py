"""
Boring reference models.  Written from the documented behaviour (docs/, README, ACT-R), not from the code.
Values: None (empty), str, or a canonical chunk (tuple of (slot, value) pairs).
"""
import math

# ---------------------------------------------------------------- pattern matching
# A pattern is a tuple of (slot, (value, variable, negvalues, negvariables)); value NOTHING: no value constraint
NOTHING = "<nothing>"


def match(pattern, chunk, bound):
    """
    All constraints of a pattern against a canonical chunk (dict or tuple), with the bindings in bound
    {variable: value} and the forbidden values in bound {"~variable": set}.
    Returns the extended bindings, or None.  Order independent: positive constraints first.
    """
    chunk = dict(chunk) if chunk is not None else None
    if chunk is None:
        return None
    b = {k: (set(v) if k.startswith("~") else v) for k, v in bound.items()}
    for slot, (value, var, negvals, negvars) in pattern:
        actual = chunk.get(slot)
        if value is not NOTHING and value != NOTHING and value != actual:
            return None
        if var:
            if var in b:
                if b[var] != actual:
                    return None
            else:
                b[var] = actual
        if actual in negvals:
            return None
    for slot, (value, var, negvals, negvars) in pattern:
        actual = chunk.get(slot)
        for nv in negvars:
            b.setdefault("~" + nv, set()).add(actual)
    for k in b:
        if k.startswith("~") and k[1:] in b and b[k[1:]] in b[k]:
            return None
    return b


def spec_to_text(spec):
    """Slot constraints of a pattern spec as the strings used in the textual rule format."""
    out = []
    value, var, negvals, negvars = spec
    if value != NOTHING:
        out.append("None" if value is None else value)
    if var:
        out.append("=" + var)
    for n in negvals:
        out.append("~" + ("None" if n is None else n))
    for n in negvars:
        out.append("~=" + n)
    return out


def pattern_text(pattern, typename):
    s = "isa " + typename
    for slot, spec in pattern:
        for t in spec_to_text(spec):
            s += f" {slot} {t}"
    return s


# ---------------------------------------------------------------- activation
def base_level(now, times, decay):
    """ln(sum (now - t)^-d) over presentations strictly in the past; None if there is none."""
    past = [now - t for t in times if t < now]
    if not past:
        return None
    return math.log(sum(x ** (-decay) for x in past))
