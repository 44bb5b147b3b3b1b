"""Generates DESIGN.md from tools/design_intro.md, the properties, the checks and known_findings.txt:  /opt/venv/bin/python tools/design.py"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import mc.properties_src as ps  # noqa: E402

ORACLE = {
    "C01": "a 40-line matcher (`mc/ref.py`): a constraint is satisfied or not by a value, variables bind on first use; all occurrences agree.",
    "C02": "the content of a chunk as a frozenset of (slot, value) pairs without empty values.",
    "C03": "the generator knows the denoted slots and constraints of every description it writes.",
    "C04": "a buffer is one cell plus the memory that receives what leaves it.",
    "C05": "buffers as cells and memory as a map from contents to presentation times; the monitor (`mc/prog.py`) compares all of them at the end of every instant.",
    "C06": "a dictionary from contents to lists of times.",
    "C07": "the set of matching chunks of the reference memory at the moment of the request, and the documented time of success and failure.",
    "C08": "`mc/subsym.py`: base-level equation (also optimized), threshold, latency; the retrieval must be the maximum, at the time that its activation determines.",
    "C09": "fans counted afresh from the reference memory at each request; weights divided over the sources of a buffer.",
    "C10": "the sum over the constraints of the request of what the chunk does not meet: similarity times penalty.",
    "C11": "the list of results of past requests; recent for sure / not recent for sure / undetermined.",
    "C12": "the set of matching rules and the maximal utility (plus scripted noise) in the reference state; re-test at the firing time.",
    "C13": "executable semantics of each action sign on the reference state; every printed event must be explained and every promised event must happen.",
    "C14": "as C13, with the implicit clearing of tested buffers that the right-hand side does not mention.",
    "C15": "U + alpha (R - elapsed - U) applied to the rules since the last reward.",
    "C16": "the two uncompiled rules, run by the code itself on the same content: final buffers, requests, and the set of contents on which both fire.",
    "C17": "a motor module with preparation, initiation and execution phases, the features of the previous press and a queue.",
    "C18": "screens as a list with deadlines (sum of the times so far) and sets of trigger keys.",
    "C19": "set of displayed objects that meet every part of the request; extremes and closest among those; recently attended ones by a bounded list.",
    "C20": "encoding and eye movement as two clocks (EMMA without noise), with the phases of a shift: preparation, initiation, landing.",
    "C21": "a reference of both visual buffers, focus, remembered objects and pending automatic encodings, replayed screen by screen.",
    "C22": "the uninterrupted run of the same program (itself decided by the other properties).",
    "C23": "the same model alone in a process of its own.",
    "C24": "the same rule as a function.",
    "C25": "each buffer a cell attached to one memory; parameters of the buffer over those of the model.",
    "C31": "one reference cell, settings, list of remembered retrievals and memory for every buffer; a copy takes them over.",
    "C32": "dictionaries of what was set last; rules as (kind, tag, utility, reward), the effect of each simulation computed from them.",
    "C30": "bindings that do not depend on the order of the conditions, effects on contents; for compiled rules the two rules themselves.",
    "C29": "the exception class, and the state before the call.",
    "C27": "the script of draws: which distribution, parameters and number of draws each process takes, and what each value does.",
    "C28": "the activation components of `mc/subsym.py` for every chunk considered, and the final retrieval.",
    "C26": "a newly built model with the same contents, run by the same code (whose single simulations the other checks decide).",
}
THOROUGH = json.load(open(os.path.join(V, "tools", "thorough.json"))) if os.path.exists(os.path.join(V, "tools", "thorough.json")) else {}


def fmt(x):
    if isinstance(x, dict):
        return "; ".join(f"{k}: {fmt(v)}" for k, v in x.items())
    if isinstance(x, (list, tuple, set)):
        return ", ".join(fmt(v) for v in x)
    return str(x)


def main():
    out = [open(os.path.join(V, "tools", "design_intro.md")).read().rstrip(), "", "## Properties", ""]
    for p in ps.P:
        i = p["id"]
        c = importlib.import_module("mc.checks." + i.lower())
        out += [f"### {i} {p['title']}", "", p["statement"], "",
                f"* **Enumerated:** {c.RULE}.",
                f"* **Bounds (quick):** {fmt(c.bounds('quick'))}."]
        if fmt(c.bounds("thorough")) != fmt(c.bounds("quick")):
            out.append(f"* **Bounds (thorough):** {fmt(c.bounds('thorough'))}.")
        out += [f"* **Oracle:** {ORACLE[i]}",
                f"* **Why the tests cannot:** {p['why']}",
                f"* **Assumptions, left open:** {fmt(c.ASSUMPTIONS)}. {p['note']}"]
        if i in THOROUGH:
            out.append(f"* **Cost (8 cores):** {THOROUGH[i]}")
        out.append("")
    out += ["## Genuine defects found", "",
            "Each was first reported by the check of the property on the unchanged tree, then repaired in /repo by the commit named; the check passes since. None is recorded as an open finding.", ""]
    for line in open(os.path.join(V, "known_findings.txt")):
        if line.startswith("fixed: "):
            _, prop, commit, what = line.strip().split(" ", 3)
            out.append(f"* {prop.split('=')[1]} `{commit}` {what}")
        elif line.startswith("finding: "):
            out.append("* open: " + line.strip()[9:])
    out += ["", open(os.path.join(V, "tools", "design_end.md")).read().rstrip(), "", "## Planted changes", "",
            "| change | property | needs | caught by (quick) |", "|---|---|---|---|"]
    caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
    sd = os.path.join(V, "seeded")
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        out.append(f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, '?')} |")
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


main()
