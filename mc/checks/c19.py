"""C19 visual location search: finds an object that meets the whole request, iff there is one."""
import itertools
import math

from mc import simrun
from mc.simrun import actr

ID = "C19"
LEVEL = "model_checking"
RULE = ("(a) every displayed set of up to three objects in every order x every request over value, horizontal and vertical position; (b) every history of requests "
        "restricted to (un)attended objects x number of remembered objects x layout; simulated, and the found location, buffer, memory and module state "
        "compared with the reference; state = distinct (objects, request, attended objects)")
ASSUMPTIONS = ["if several extreme positions are requested at once, any object that no other one beats may be found", "an attribute searched for that an object does not show "
               "externally does not exclude that object; an attribute it shows must be named in the search (documented)", "positions (lists or tuples) with a fraction are those of the pixel, without the fraction"]
CHUNK = 20

OBJ = {
    "a": {"text": "A", "position": (100, 100)},
    "b": {"text": "B", "position": (200, 50)},
    "c": {"text": "A", "position": [150, 100]},
    "zz": {"position": (100.6, 200)},     # no text
    "e": {"text": "A", "position": (210, 0), "color": "red", "externally_visible": ["color"], "visual_location_typename": "mclocation", "visual_typename": "mcobject"},
    "f": {"text": "C", "position": (0, 150), "color": "red"},
}
actr.chunktype("mclocation", "screen_x, screen_y, value, color")
actr.chunktype("mcobject", "cmd, value, screen_pos, color")
FOCUS = (120, 90)
VALUE = [None, "A", "~A", "=v", "zz", "~C~=v"]         # =v is B
XS = [None, "100", "~100", "<150", ">=n", "lowest", "highest", "closest", "onewayclosest", "=n"]     # =n is 150
YS = [None, "100", "~100", "<100", ">=m", "lowest", "highest", "closest", "onewayclosest", "0"]      # =m is 100
BIND = {"=v": "B", "=n": "150", "=m": "100"}
COLOR = [None, "red", "blue"]

HSPECS = [{}, {"value": "A"}, {"screen_x": "lowest"}, {"screen_x": "closest"}, {"screen_y": "100"}]
HATT = [None, "False", "True"]
HLAYOUTS = [("a", "b", "c"), ("c", "zz", "a"), ("b", "a", "e"), ("zz",)]
FINST = [0, 1, 2, 4]


def bounds(tier):
    return {"layouts": f"all ordered sets of up to {3 if tier == 'quick' else 4} of {len(OBJ)} objects", "requests": f"{len(VALUE)} values x {len(XS)} x {len(YS)} positions x {len(COLOR)} colours (colours: with few positions)",
            "histories": f"length {3 if tier == 'quick' else 4} over {3 if tier == 'quick' else 4} requests x 3 restrictions, {len(HLAYOUTS)} layouts, remembered {FINST}; all sequences of {4 if tier == 'quick' else 6} finds of three objects, each then asked for"}


def cases(tier):
    for n in range(4 if tier == "quick" else 5):
        for lay in itertools.permutations(sorted(OBJ), n):
            yield ("colors", lay)
            for v in range(len(VALUE)):
                if n == 3 and tier == "quick" and v > 2:
                    continue
                yield ("all", lay, v)
    k = 3 if tier == "quick" else 4
    for h in itertools.product(range(k if k == 4 else 3), range(3)):
        for rest in itertools.product(itertools.product(range(k if k == 4 else 3), range(3)), repeat=1):
            yield ("hist", h, rest[0], k)


    for h in itertools.product("abf", repeat=4 if tier == "quick" else 6):
        yield ("again", h)


def posn(o):
    return int(o["position"][0]), int(o["position"][1])


def split(spec):
    """(required, [excluded]) of a constraint, with variables replaced."""
    if spec is None:
        return None, []
    neg, val = [], None
    for part in spec.replace("~", " ~").split():
        if part.startswith("~"):
            neg.append(BIND.get(part[1:], part[1:]))
        else:
            val = part[0] + BIND[part[1:]] if part[0] in "<>" and part[1:] in BIND else BIND.get(part, part)
    return val, neg


def rank(val, o, axis):
    """The quantity to minimize, or None."""
    p = posn(o)
    return {"lowest": p[axis], "highest": -p[axis], "onewayclosest": abs(p[axis] - FOCUS[axis]),
            "closest": round(math.dist(p, FOCUS), 9)}.get(val)


def candidates(objs, req):
    """The acceptable objects for a request (name list)."""
    ok = []
    for name, o in objs:
        good = True
        val, neg = split(req.get("value"))
        if (val is not None and val != o.get("text", "")) or o.get("text", "") in neg:
            good = False
        for axis, slot in enumerate(("screen_x", "screen_y")):
            val, neg = split(req.get(slot))
            c = posn(o)[axis]
            if str(c) in neg:
                good = False
            if val is None or rank(val, o, axis) is not None:
                continue
            if val[0] in "<>":
                if not (c < int(val[1:]) if val[0] == "<" else c > int(val[1:])):
                    good = False
            elif int(val) != c:
                good = False
        for f in o.get("externally_visible", []):
            if req.get(f) != o[f]:
                good = False
        if good:
            ok.append((name, o))
    ranks = {}
    for name, o in ok:
        ranks[name] = [r for r in (rank(split(req.get(s))[0], o, i) for i, s in enumerate(("screen_x", "screen_y"))) if r is not None]
    return [n for n, o in ok if not any(all(x <= y for x, y in zip(ranks[k], ranks[n])) and ranks[k] != ranks[n] for k, _ in ok)]


def loc(o):
    d = {"screen_x": str(posn(o)[0]), "screen_y": str(posn(o)[1])}
    for f in o.get("externally_visible", []):
        d[f] = o[f]
    return tuple(sorted(d.items()))


def run(lay, reqs, ctx, finst=4, states=True, touch=False):
    """reqs: list of (request dict, attended restriction). Checks each request (and the state of the module after it); reports the first deviation."""
    env = actr.Environment(focus_position=FOCUS)
    m = actr.ACTRModel(environment=env, emma_noise=False, automatic_visual_search=False)
    _, vl = m.visualBuffer("visual", "visual_location", m.decmem, finst)
    actr.chunktype("mcn", "k, v, n, m")
    m.goal.add(actr.chunks.Chunk("mcn", k="0", v="B", n="150", m="100"))
    rules = []
    for i, (r, att) in enumerate(reqs):
        rhs = {"=g": ("mcn", {"k": f"{i}w" if states else str(i + 1)}), "+visual_location": ("_visuallocation", {k: v for k, v in r.items() if v is not None})}
        if att:
            rhs["?visual_location"] = {"attended": att}
        rules.append(simrun.frule(f"r{i}", {"=g": ("mcn", {"k": str(i), "v": "=v", "n": "=n", "m": "=m"})}, rhs))
        if states:
            vis = {"=visual_location": ("_visuallocation", {"screen_x": "=x"})} if touch else {}      # the rule modifies the buffer
            rules += [simrun.frule(f"ok{i}", {"=g": ("mcn", {"k": f"{i}w"}), "?visual_location": {"state": "free"}, **vis}, {"=g": ("mcn", {"k": str(i + 1)}), **vis}),
                      simrun.frule(f"err{i}", {"=g": ("mcn", {"k": f"{i}w"}), "?visual_location": {"state": "error"}}, {"=g": ("mcn", {"k": str(i + 1)})})]
    m.set_productions(*rules)
    objs = [(n, OBJ[n]) for n in lay]
    recent, mem = [], {}
    st = {"i": -1, "found": None, "buf": None, "bad": None, "t": 0}

    def on_event(e):
        t, mod, act = e
        if st["bad"]:
            return
        if act.startswith("RULE FIRED: r"):
            st["i"] = int(act[len("RULE FIRED: r"):])
            st["t"] = t
            st["found"] = "?"
        elif mod == "visual_location" and act.startswith("ENCODED LOCATION"):
            r, att = reqs[st["i"]]
            pool = objs
            if att and finst:
                seen = recent[-finst:]
                pool = [(n, o) for n, o in objs if (n in seen) == (att == "True")]
            cand = candidates(pool, r)
            now = simrun.content(vl)
            ctx.state((lay, sorted(r.items(), key=repr), att, tuple(recent[-finst:]) if finst else ()))
            ctx.outcome((len(cand) > 0, len(cand) > 1, att))
            hit = [n for n in cand if loc(OBJ[n]) == now]
            if t != st["t"]:
                st["bad"] = ("time", f"answered at {t}, requested at {st['t']}")
            elif not cand:
                if "None" not in act or now != st["buf"]:
                    st["bad"] = ("found", f"request {r} attended {att}: {act}, buffer {now}, but no object matches")
            elif not hit or f"screen_x= {posn(OBJ[hit[0]])[0]}" not in act:
                st["bad"] = ("found", f"request {r} attended {att}: {act}, buffer {now}, expected one of {cand}")
            elif not any(next(iter(vl)).typename == OBJ[n].get("visual_location_typename", "_visuallocation") for n in hit):
                st["bad"] = ("type", f"request {r}: found {hit}, but the chunk is of the type {next(iter(vl)).typename}")
            else:
                if st["buf"] is not None:
                    mem.setdefault(st["buf"], []).append(t)
                recent.append(hit[0])
                st["buf"] = now
            st["found"] = bool(cand)
            if not st["bad"]:
                dm = simrun.dm_content(m.decmem)
                if dm != {k: tuple(v) for k, v in mem.items()}:
                    st["bad"] = ("memory", f"after request {r}: memory {dm}, expected {mem}")
        elif act.startswith("RULE FIRED: ok") and st["found"] is not True or act.startswith("RULE FIRED: err") and st["found"] is not False:
            st["bad"] = ("state", f"{act} although the search {'succeeded' if st['found'] else 'failed'}")
    events, _, _ = simrun.simulate(m, .1 * len(reqs) + .2, on_event, environment_process=env.environment_process, stimuli=[dict(objs)], triggers="", times=100)
    ctx.ran()
    ctx.step(len(events))
    if not st["bad"] and sum(1 for e in events if "RULE FIRED" in e[2]) != (2 if states else 1) * len(reqs):
        st["bad"] = ("incomplete", f"{[e for e in events if 'FIRED' in e[2]][-2:]}")
    if st["bad"]:
        ctx.bad(st["bad"][0], f"objects {objs}, requests {reqs}, remembered {finst}: {st['bad'][1]}")
        return False
    return True


def run_case(case, ctx):
    if case[0] == "all":
        _, lay, v = case
        for x in XS:
            reqs = [({"value": VALUE[v], "screen_x": x, "screen_y": y}, None) for y in YS]
            if not run(lay, reqs, ctx, states=False):
                return
    elif case[0] == "colors":
        reqs = [({"value": v, "screen_x": x, "color": c}, None) for v in (None, "A") for x in (None, "lowest", "closest") for c in COLOR]
        run(case[1], reqs, ctx)
    elif case[0] == "again":
        # found objects, some of them again, then asked for each whether it is remembered
        for f in (1, 2, 3, 4):
            for att in ("False", "True"):
                hist = [({"value": OBJ[n]["text"]}, None) for n in case[1]]
                for n in "abf":
                    if not run(("a", "b", "f"), hist + [({"value": OBJ[n]["text"]}, att)], ctx, f):
                        return
    else:
        _, a, b, k = case
        specs = HSPECS[:3] if k == 3 else HSPECS[:4]
        for rest in itertools.product(itertools.product(range(len(specs)), range(3)), repeat=k - 2):
            hist = [(specs[i], HATT[j]) for i, j in (a, b) + rest]
            for lay in HLAYOUTS:
                for f in FINST:
                    if f == 0 and any(h[1] == "True" for h in hist):
                        continue
                    if len(lay) == 1 and f > 1:
                        continue
                    for touch in (True, False)[:4 - k]:
                        if not run(lay, hist, ctx, f, touch=touch):
                            return


def final(total, tier):
    if len(total.outcomes) < 7:
        yield "vacuous", f"{total.outcomes}"
