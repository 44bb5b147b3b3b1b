"""C24 textual rules: a rule written as text is the rule written as a function with the same conditions and actions."""
import itertools

from mc import simrun
from mc.simrun import actr, frule

ID = "C24"
LEVEL = "model_checking"
RULE = ("every rule over the notations of values on both sides x contents of the buffers; every pair of a condition and an action of every kind, over all modules; every layout of the text; every naming, utility, reward and order of rules; "
        "the model with textual rules is compared with that of function rules: every event, printed line, buffer, memory and utility; state = distinct (rules, contents)")
ASSUMPTIONS = ["function rules are checked by the other properties", "one value or constraint per mention of a slot; several constraints are several mentions"]
CHUNK = 10

actr.chunktype("mcx", "k, v, w")
actr.chunktype("mcy", "u")
NAMED = actr.makechunk(nameofchunk="mcxnamed", typename="mcy", u="q")

# (text of the slot v, value for the function format)
LV = [("", None), ("v a", "a"), ("v =x", "=x"), ("v ~a", "~a"), ("v ~=y", "~=y"), ("v =x v ~b", "~b=x"), ("v ~a v ~b", "~a~b"), ("v 'a b'", "a b"), ('v "a"', "a"), ("v 3", "3"), ("v None", "None"),
      ("v ~None", "~None"), ("v mcxnamed", NAMED), ("v ~a v ~=y", "~a~=y"), ("v a v =x", "a=x"), ("v a-b.c", "a-b.c"), ("v ~'a'", "~a"), ('v ~"b" v ~None', "~b~None")]
RV = [("", None), ("v a", "a"), ("v =x", "=x"), ("v 'a b'", "a b"), ('v "c"', "c"), ("v 12", "12"), ("v mcxnamed", NAMED), ("v a_b", "a_b"), ("v =y", "=y"), ("v None", "None")]
CV = [None, "a", "b", "a b", "3", NAMED, "a-b.c"]

# conditions and actions of all modules: (buffer key, text, function)
Z = actr.utilities.VarvalClass
COND = [("=h", "isa mcx v =x", ("mcx", {"v": "=x"})), ("=retrieval", "isa mcx v ~a", ("mcx", {"v": "~a"})), ("?h", "buffer empty", {"buffer": "empty"}), ("?h", "buffer full state free", {"buffer": "full", "state": "free"}),
        ("?retrieval", "state free buffer empty", {"state": "free", "buffer": "empty"}), ("?retrieval", "state error", {"state": "error"}), ("?manual", "preparation free", {"preparation": "free"}), ("?visual", "state free", {"state": "free"}),
        ("?manual", "state free execution free preparation busy", {"state": "free", "execution": "free", "preparation": "busy"}), ("?h", "state free state busy buffer full", {"state": "busy", "buffer": "full"}), ("?manual", "preparation free processor free execution free state free", {"preparation": "free", "processor": "free", "execution": "free", "state": "free"}),
        ("=visual_location", "isa _visuallocation screen_x 100", ("_visuallocation", {"screen_x": "100"})), ("=visual", "isa _visual value A", ("_visual", {"value": "A"})), None]
ACT = [("=h", "isa mcx v b", ("mcx", {"v": "b"})), ("=h", "", ("mcx", {})), ("~h", "", None), ("+h", "isa mcx k 5 v a", ("mcx", {"k": "5", "v": "a"})), ("@h", "isa mcx v =k", ("mcx", {"v": "=k"})), ("*h", "isa mcx w 'x y'", ("mcx", {"w": "x y"})),
       ("+retrieval", "isa mcx v ~a", ("mcx", {"v": "~a"})), ("+retrieval", "isa mcx", ("mcx", {})), ("~retrieval", "", None), ("?retrieval", "recently_retrieved False", {"recently_retrieved": "False"}),
       ("+manual", "isa _manual cmd press_key key a", ("_manual", {"cmd": "press_key", "key": "a"})), ("+manual", "isa _manual cmd 'press_key' key 'F'", ("_manual", {"cmd": "press_key", "key": "F"})),
       ("+visual_location", "isa _visuallocation screen_x <150", ("_visuallocation", {"screen_x": "<150"})), ("+visual_location", "isa _visuallocation value ~A", ("_visuallocation", {"value": "~A"})), ("+visual_location", "isa _visuallocation screen_x >=k", ("_visuallocation", {"screen_x": Z(variables="k", values=">", negvariables=(), negvalues=())})),
       ("?visual_location", "attended False", {"attended": "False"}), ("+visual", "isa _visual cmd clear", ("_visual", {"cmd": "clear"})), ("~visual_location", "", None), ("!h", "show v", [("show", "v")]), ("!g", "show k", [("show", "k")]), ("!h", "show w\n  show v show k", [("show", "w"), ("show", "v"), ("show", "k")]), None]
MODULES = ["first", "second"]

LAYOUT = {
    "lines": lambda key, typ, slots: f"\n    {key}>\n    isa {typ}\n    " + "\n    ".join(slots) + "\n",
    "one line": lambda key, typ, slots: f"{key}> isa {typ} " + " ".join(slots) + " ",
    "tabs": lambda key, typ, slots: f"\t{key}>\tisa\t{typ}\t" + "\t\t".join(slots) + "\t",
    "dense": lambda key, typ, slots: f"{key}>isa {typ} " + " ".join(slots),
    "type last": lambda key, typ, slots: f"{key} > " + " ".join(slots) + f"\nisa {typ}\n",
    "type inside": lambda key, typ, slots: f"{key}> " + " ".join(slots[:1]) + f" isa {typ} " + " ".join(slots[1:]) + " ",
    "windows": lambda key, typ, slots: f"{key}>\r\nisa {typ}\r\n" + "\r\n".join(slots) + "\r\n",
}
ARROW = [" ==> ", "\n==>\n", "==>", "\t\n\n ==>\n  "]


def bounds(tier):
    return {"notations": [len(LV), len(RV)], "contents": len(CV), "conditions": len(COND), "actions": f"{len(ACT)}, one and two per rule", "pairs of rules that are compiled": f"every pair of notations in the first, several in the second, {len(CV)} contents", "layouts": f"{list(LAYOUT)} x {len(ARROW)} arrows x orders of conditions, actions and slots",
            "rules": "all orders of three named, unnamed and mixed rules, utilities, rewards; all histories of three (thorough: four) definitions, redefinitions and deletions"}


def cases(tier):
    for l in range(len(LV)):
        yield ("notation", l)
    for l in range(len(LV)):
        yield ("compile", l, tier)
    for c in range(len(COND)):
        for a in range(len(ACT)):
            yield ("parts", c, a, tier)
    for name in LAYOUT:
        for a in range(len(ARROW)):
            yield ("layout", name, a)
    for o in itertools.permutations(range(3)):
        for n in itertools.product((False, True), repeat=3):
            yield ("rules", o, n)
    for h in itertools.product(range(len(REDEF)), repeat=3 if tier == "quick" else 4):
        yield ("redefine", h)
    for a, b in itertools.product(range(len(REDEF)), repeat=2):         # rules without a name after a deletion
        yield ("redefine", (a, 6, 8, 6, b))


# (name, utility, reward, what the rule writes)
REDEF = [("r0", None, None, "a"), ("r0", 3, None, "b"), ("r0", 5, 2, "c"), ("r1", None, None, "a"), ("r1", 4, 0, "b"), ("r0", 0, None, "d"), ("", 3.5, 1, "e"), ("r1", 4, None, "f"), "delete"]       # delete: the first rule is deleted


def redefine(h, ctx):
    """A name given again: the later rule takes the place of the earlier one."""
    m = start(actr.ACTRModel(utility_learning=True), "a")
    ref, un = {}, 0
    for i in h:
        if REDEF[i] == "delete":
            if ref:
                del m.productions[next(iter(ref))]
                del ref[next(iter(ref))]
            continue
        name, u, r, v = REDEF[i]
        before = set(m.productions)
        m.productionstring(name=name, string=f"=g> isa mcx k 0 ==> =g> isa mcx k {v}", **{k: x for k, x in (("utility", u), ("reward", r)) if x is not None})
        if not name:
            name = (set(m.productions) - before or {"none"}).pop()
        ref[name] = (u or 0, r, v)
        ctx.step()
        got = {n: (m.productions[n]["utility"], m.productions[n]["reward"]) for n in m.productions}
        if got != {n: x[:2] for n, x in ref.items()}:
            ctx.bad("redefine", f"{[REDEF[j] for j in h]}: after adding {REDEF[i]} the rules are {got}, expected {ref}")
            return
    if not ref:
        return
    best = max(u for u, _, _ in ref.values())
    events, _, _ = simrun.simulate(m, .2)
    ctx.ran()
    ctx.state((sorted(ref.items(), key=repr)))
    fired = [a.split(": ")[1] for _, _, a in events if "FIRED" in a]
    got = dict(simrun.content(m.goals["g"])).get("k")
    ctx.outcome(("redefine", len(ref)))
    if len(fired) != 1 or fired[0] not in ref or ref[fired[0]][0] != best or ref[fired[0]][2] != got:
        ctx.bad("redefine", f"{[REDEF[j] for j in h]}: fired {fired}, goal {got}, rules {ref}")


def start(m, content):
    """h, retrieval and memory hold chunks with the given values."""
    m.goals["g"].add(simrun.mk({"k": "0", "w": "b"}, "mcx"))
    m.set_goal("h", 0)
    if content != "empty":
        m.goals["h"].add(simrun.mk({"k": "1", "v": None if content is NAMED else content}, "mcx") if content is not NAMED else actr.chunks.Chunk("mcx", k="1", v=NAMED))
    for i, v in enumerate(("a", "b", None)):
        m.decmem.add(simrun.mk({"k": "7", "v": v}, "mcx"), time=-1 - i)
    return m


def outcome(m, until, **kw):
    """Everything that can be observed, or the error."""
    env = actr.Environment(focus_position=(0, 0)) if kw.pop("env", False) else None
    try:
        events, sim, w = simrun.simulate(m, until, **kw)
    except actr.utilities.ACTRError as e:
        return ("error", type(e).__name__), []
    return (events, [l for l in w.lines if not l.startswith("****Env")], [(n, simrun.content(b)) for n, b in m.goals.items()], simrun.content(m.retrieval), [simrun.content(b) for b in m.visbuffers.values()],
            sorted(simrun.dm_content(m.decmem).items(), key=repr), [(r, m.productions[r]["utility"], m.productions[r]["reward"]) for r in m.productions]), events


def compare(text, func, ctx, make, until, what, **kw):
    """text: [(name, string, options)], func: [function rule]"""
    res = []
    for form in (0, 1):
        m, more = make()
        if form:
            m.set_productions(*func)
        else:
            for n, s, o in text:
                m.productionstring(name=n, string=s, **o)
        r, ev = outcome(m, until, **more)
        ctx.ran()
        ctx.step(len(ev))
        res.append(r)
    ctx.state((text, what))
    if res[0] != res[1]:
        i = next((i for i, (a, b) in enumerate(zip(*res)) if a != b), 0)
        a, b = res[0][i] if len(res[0]) > i else res[0], res[1][i] if len(res[1]) > i else res[1]
        if i == 0 and isinstance(a, list) and isinstance(b, list):
            j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            a, b = a[j:j + 2], b[j:j + 2]
        return f"{what}: rules {[t[1] for t in text]}: as text {a}, as functions {b}"
    ctx.outcome(("error",) if res[0][0] == "error" else (len([e for e in res[0][0] if "FIRED" in e[2]]), bool(res[0][1]), len(res[0][-1]) > len(text)))
    return None


def compiled(l, tier, ctx):
    """Two rules that are compiled while a third one brings them back; the compiled rule is then used."""
    lt, lf = LV[l]
    for r, (rt, rf) in enumerate(RV):
        if "=x" in rt and "=x" not in lt:
            continue
        for k, c in enumerate(CV):
            for n in range(2 if tier == "quick" else 6):
                lt2, lf2 = LV[(l * 3 + r + 5 * k + 7 * n) % len(LV)]
                rt2, rf2 = RV[(l + r * 3 + k + n) % len(RV)]
                if "=x" in rt2 and "=x" not in lt2:
                    rt2, rf2 = "v c", "c"
                lt2, lf2, rt2, rf2 = lt2.replace("=x", "=u"), lf2.replace("=x", "=u") if isinstance(lf2, str) else lf2, rt2.replace("=x", "=u"), rf2.replace("=x", "=u") if isinstance(rf2, str) else rf2
                back = "" if c is None else "v mcxnamed" if c is NAMED else f"v '{c}'"
                v = (lambda f: {} if f is None else {"v": f})
                if (l + r + k + n) % 2:        # through a retrieval
                    one = (f"=g> isa mcx k 0 w =y =h> isa mcx {lt} ==> =g> isa mcx k 1 w =y +retrieval> isa mcx k 7 {rt} =h> isa mcx",
                           {"=g": ("mcx", {"k": "0", "w": "=y"}), "=h": ("mcx", v(lf))}, {"=g": ("mcx", {"k": "1", "w": "=y"}), "+retrieval": ("mcx", dict(v(rf), k="7")), "=h": ("mcx", {})})
                    two = (f"=g> isa mcx k 1 w =y =retrieval> isa mcx {lt2} =h> isa mcx ==> ~retrieval> =g> isa mcx k 2 =h> isa mcx {rt2}",
                           {"=g": ("mcx", {"k": "1", "w": "=y"}), "=retrieval": ("mcx", v(lf2)), "=h": ("mcx", {})}, {"~retrieval": None, "=g": ("mcx", {"k": "2"}), "=h": ("mcx", v(rf2))})
                else:
                    one = (f"=g> isa mcx k 0 w =y =h> isa mcx {lt} ==> =g> isa mcx k 1 w =y =h> isa mcx {rt}",
                           {"=g": ("mcx", {"k": "0", "w": "=y"}), "=h": ("mcx", v(lf))}, {"=g": ("mcx", {"k": "1", "w": "=y"}), "=h": ("mcx", v(rf))})
                    two = (f"=g> isa mcx k 1 w =y =h> isa mcx {lt2} ==> =g> isa mcx k 2 =h> isa mcx {rt2}",
                           {"=g": ("mcx", {"k": "1", "w": "=y"}), "=h": ("mcx", v(lf2))}, {"=g": ("mcx", {"k": "2"}), "=h": ("mcx", v(rf2))})
                again = (f"=g> isa mcx k 2 ==> =g> isa mcx k 0 +h> isa mcx k 1 {back}", {"=g": ("mcx", {"k": "2"})}, {"=g": ("mcx", {"k": "0"}), "+h": ("mcx", dict(v(c), k="1"))})
                rules = [("one", one), ("two", two), ("again", again)]
                res = compare([(m, t, {"utility": i}) for i, (m, (t, _, _)) in enumerate(rules)], [frule(m, a, b, utility=i) for i, (m, (_, a, b)) in enumerate(rules)], ctx,
                              lambda: (start(actr.ACTRModel(production_compilation=True, utility_learning=True), c), {}), .55, f"compiled, content {c}")
                if res:
                    ctx.bad("compile", res)
                    return


def run_case(case, ctx):
    if case[0] == "notation":
        lt, lf = LV[case[1]]
        for rt, rf in RV:
            if ("=x" in rt and "=x" not in lt):
                continue
            for c in CV + ["empty"]:
                text = f"=g> isa mcx k 0 w =y =h> isa mcx {lt} ==> =g> isa mcx k 1 =h> isa mcx {rt}"
                func = frule("r", {"=g": ("mcx", {"k": "0", "w": "=y"}), "=h": ("mcx", {} if lf is None else {"v": lf})}, {"=g": ("mcx", {"k": "1"}), "=h": ("mcx", {} if rf is None else {"v": rf})})
                r = compare([("r", text, {})], [func], ctx, lambda: (start(actr.ACTRModel(), c), {}), .2, f"content {c}")
                if r:
                    ctx.bad("notation", r)
                    return
    elif case[0] == "parts":
        cond = COND[case[1]]
        for second in ACT if case[3] != "quick" else (ACT[case[1] * 2 % len(ACT)], ACT[(case[1] * 2 + 1) % len(ACT)], None):
            acts = [a for a in (ACT[case[2]], second) if a]
            if len({a[0][1:] for a in acts if a[0][0] != "?"}) < len([a for a in acts if a[0][0] != "?"]) or any(a[0] == "=h" or a[0] == "*h" for a in acts) and not (cond and cond[0] == "=h"):
                continue
            for c in ("a", "empty"):
                lhs = [("=g", "isa mcx k 0 w =k", ("mcx", {"k": "0", "w": "=k"}))] + [cond] * bool(cond)
                rhs = [("=g", "isa mcx k 1", ("mcx", {"k": "1"}))] * (not any(a[0] == "!g" for a in acts)) + acts
                # a first rule fills the modules, the rule under test follows
                text = "\n".join(f"{k}> {t}" for k, t, _ in lhs) + "\n==>\n" + "\n".join(f"{k}> {t if f != ('mcx', {}) or t else 'isa mcx'}" for k, t, f in rhs)
                func = frule("r", {k: f for k, _, f in lhs}, {k: f for k, _, f in rhs})
                pre = frule("pre", {"=g": ("mcx", {"k": "p"})}, {"=g": ("mcx", {"k": "0"}), "+retrieval": ("mcx", {"v": "b"}), "+visual_location": ("_visuallocation", {"value": "A"})})
                pretext = "=g> isa mcx k p ==> =g> isa mcx k 0 +retrieval> isa mcx v b +visual_location> isa _visuallocation value A"

                def make(fill):
                    env = actr.Environment(focus_position=(100, 95))
                    m = start(actr.ACTRModel(environment=env, emma_noise=False), c)
                    m.visualBuffer("visual", "visual_location", m.decmem)
                    m.goals["g"].pop()
                    m.goals["g"].add(simrun.mk({"k": "p" if fill else "0", "w": "50"}, "mcx"))
                    return m, dict(environment_process=env.environment_process, stimuli=[{"s": {"text": "A", "position": (100, 100), "vis_delay": 2}, "t": {"text": "B", "position": (200, 100), "vis_delay": 2}}], triggers="Q", times=20)
                for fill in (False, True):
                    r = compare([("pre", pretext, {}), ("r", text, {})], [pre, func], ctx, lambda: make(fill), .8, f"content {c}, filled {fill}")
                    if r:
                        ctx.bad("parts", r)
                        return
    elif case[0] == "layout":
        lay, arrow = LAYOUT[case[1]], ARROW[case[2]]
        for slots in itertools.permutations(["k 0", "w =y", "v ~a"]):
            for flip in range(8):
                ls = [lay("=g", "mcx", list(slots)), lay("=h", "mcx", ["v =x", "k =z"]), "?retrieval> buffer empty\n"][::1 if flip & 1 else -1]
                rs = [lay("=g", "mcx", ["k 1", "v =x"]), lay("+retrieval", "mcx", ["v ~=y", "k 7"]), "~h>\n"][::1 if flip & 2 else -1]
                text = " ".join(ls) + arrow + " ".join(rs) + ("\n\n" if flip & 4 else "")
                func = frule("r", {"=g": ("mcx", {"k": "0", "w": "=y", "v": "~a"}), "=h": ("mcx", {"v": "=x", "k": "=z"}), "?retrieval": {"buffer": "empty"}},
                             {"=g": ("mcx", {"k": "1", "v": "=x"}), "+retrieval": ("mcx", {"v": "~=y", "k": "7"}), "~h": None})
                r = compare([("r", text, {})], [func], ctx, lambda: (start(actr.ACTRModel(), "a"), {}), .3, case[1])
                if r:
                    # the order of effects in one moment may follow the order in the text
                    ctx.bad("layout", r)
                    return
    elif case[0] == "redefine":
        redefine(case[1], ctx)
    elif case[0] == "compile":
        compiled(case[1], case[2], ctx)
    else:
        _, order, named = case
        for u in itertools.product((0, 3), repeat=3):
            for reward in (None, 4, 0):
                text, func = [], []
                m = actr.ACTRModel(utility_learning=True)
                start(m, "a")
                rules = []
                for i in order:
                    name = f"r{i}" if named[i] else ""
                    o = {} if u[i] == 0 and reward is None else dict(utility=u[i], reward=reward) if i else dict(utility=u[i])
                    before = set(m.productions)
                    m.productionstring(name=name, string="=g> isa mcx k 0 ==> =g> isa mcx k %s" % "abc"[i], **o)
                    new = set(m.productions) - before
                    if len(new) != 1 or name and new != {name}:
                        ctx.bad("names", f"rules named {named} in order {order}: adding the rule {name!r} gave {new}")
                        return
                    rules.append((i, new.pop()))
                best = max(u)
                events, _, _ = simrun.simulate(m, .2)
                ctx.ran()
                ctx.step(len(events))
                ctx.state((order, named, u, reward))
                fired = [a.split(": ")[1] for _, _, a in events if "FIRED" in a]
                ok = [n for i, n in rules if u[i] == best]
                got = dict(simrun.content(m.goals["g"])).get("k")
                ctx.outcome(("rules", len(ok)))
                if len(fired) != 1 or fired[0] not in ok or got != "abc"[next(i for i, n in rules if n == fired[0])]:
                    ctx.bad("rules", f"rules named {named} in order {order}, utilities {u}: fired {fired}, goal {got}, expected one of {ok}")
                    return
                for i, n in rules:
                    r, ut = m.productions[n]["reward"], m.productions[n]["utility"]
                    want = reward if i else None
                    if r != want or (ut != u[i] and (n != fired[0] or want is None)):
                        ctx.bad("rules", f"rule {n}: utility {ut}, reward {r}, given {u[i]}, {want}")
                        return


def final(total, tier):
    if len(total.outcomes) < 6:
        yield "vacuous", f"{total.outcomes}"
