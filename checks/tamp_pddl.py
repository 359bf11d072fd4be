"""A small reader and interpreter for the planning domains, and the monitor that plays them against a physical model (C49)."""
import itertools
import os
import re

import numpy as np
from checks.tamp_load import BASE


# ------------------------------------------------------------------------------ reading
def sexprs(text):
    text = re.sub(r";[^\n]*", "", text)
    toks = re.findall(r"[()]|[^\s()]+", text)
    stack = [[]]
    for t in toks:
        if t == "(":
            stack.append([])
        elif t == ")":
            e = stack.pop()
            stack[-1].append(e)
        else:
            stack[-1].append(t.lower())
    assert len(stack) == 1, "unbalanced"
    return stack[0]


def fields(e):
    out = {}
    for k, v in zip(e[::2], e[1::2]):
        out[k] = v
    return out


def parse_domain(text):
    d = sexprs(text)[0]
    dom = {"predicates": {}, "actions": {}, "derived": []}
    for e in d[1:]:
        if e[0] == ":predicates":
            for p in e[1:]:
                dom["predicates"][p[0]] = len(p) - 1
        elif e[0] == ":action":
            f = fields(e[2:])
            dom["actions"][e[1]] = {"params": f.get(":parameters", []), "pre": f.get(":precondition", ["and"]), "eff": f.get(":effect", ["and"])}
        elif e[0] == ":derived":
            dom["derived"].append((tuple(e[1]), e[2]))
    return dom


def parse_streams(text):
    out = {}
    for e in sexprs(text)[0][1:]:
        if e[0] == ":stream":
            f = fields(e[2:])
            out[e[1]] = {"inputs": f.get(":inputs", []), "outputs": f.get(":outputs", []), "domain": conj(f.get(":domain", ["and"])),
                         "certified": conj(f.get(":certified", ["and"])), "fluents": f.get(":fluents", [])}
    return out


def conj(c):
    if not c:
        return []
    if c[0] == "and":
        return [x for s in c[1:] for x in conj(s)]
    return [c]


def read(folder):
    d = os.path.join(BASE, folder)
    return parse_domain(open(os.path.join(d, "domain.pddl")).read()), parse_streams(open(os.path.join(d, "stream.pddl")).read())


# ------------------------------------------------------------------------------ meaning
def key(x):
    return x if isinstance(x, (str, int)) else id(x)


class State:
    """Facts as tuples (predicate, value, ...); values compare by identity unless they are names or numbers."""

    def __init__(self, dom, facts):
        self.dom = dom
        self.facts = {}
        for f in facts:
            self.add(f)

    def add(self, f):
        f = (f[0].lower(),) + tuple(f[1:])
        self.facts.setdefault(f[0], {})[tuple(key(a) for a in f[1:])] = f

    def remove(self, f):
        self.facts.get(f[0].lower(), {}).pop(tuple(key(a) for a in f[1:]), None)

    def of(self, pred):
        return list(self.facts.get(pred.lower(), {}).values())

    def has(self, f):
        return tuple(key(a) for a in f[1:]) in self.facts.get(f[0].lower(), {})


def ground(lit, b):
    return (lit[0],) + tuple(b.get(a, a) if isinstance(a, str) and a.startswith("?") else a for a in lit[1:])


def free_vars(lit, b):
    return [a for a in lit[1:] if isinstance(a, str) and a.startswith("?") and a not in b]


def unify(lit, fact, b):
    if len(lit) != len(fact):
        return None
    b = dict(b)
    for a, v in zip(lit[1:], fact[1:]):
        if isinstance(a, str) and a.startswith("?"):
            if a in b:
                if key(b[a]) != key(v):
                    return None
            else:
                b[a] = v
        elif key(a) != key(v):
            return None
    return b


def true(c, b, st):
    """A condition without free variables."""
    if not c or c[0] == "and":
        return all(true(x, b, st) for x in c[1:])
    if c[0] == "or":
        return any(true(x, b, st) for x in c[1:])
    if c[0] == "not":
        return not true(c[1], b, st)
    if c[0] == "imply":
        return not true(c[1], b, st) or true(c[2], b, st)
    if c[0] == "=":
        g = ground(c, b)
        return key(g[1]) == key(g[2])
    if c[0] == "exists":
        return any(True for _ in solve(conj(c[2]), {v: b[v] for v in b if v not in c[1]}, st))
    if c[0] == "forall":
        vals = {key(v): v for fs in st.facts.values() for f in fs.values() for v in f[1:]}
        return all(true(c[2], dict(b, **dict(zip(c[1], vs))), st) for vs in itertools.product(vals.values(), repeat=len(c[1])))
    for head, body in st.dom["derived"]:
        if head[0] == c[0]:
            g = ground(c, b)
            bb = dict(zip(head[1:], g[1:]))
            if true(body, bb, st):
                return True
    return st.has(ground(c, b))


def solve(lits, b, st, streams=None, make=None):
    """All bindings that make the literals true, facts first; `make(stream, inputs)` may produce facts that are missing."""
    if not lits:
        yield b
        return
    derived = {h[0] for h, _ in st.dom["derived"]}
    special = derived | {"not", "=", "or", "exists", "forall", "imply"}
    cert = {c[0] for s in (streams or {}).values() for c in s["certified"]}

    def rank(l):
        fv = len(free_vars(l, b)) if l[0] not in special else 0
        if l[0] in special:
            return (0, 0) if not deep_free(l, b) else (9, 0)
        if l[0] in cert:
            return (5, fv)
        return (1, len(st.facts.get(l[0], ())) if fv else 0)
    k = min(range(len(lits)), key=lambda i: rank(lits[i]))
    lit, rest = lits[k], lits[:k] + lits[k + 1:]
    if lit[0] in special:
        if true(lit, b, st):
            yield from solve(rest, b, st, streams, make)
        return
    found = False
    for f in st.of(lit[0]):
        bb = unify(lit, f, b)
        if bb is not None:
            found = True
            yield from solve(rest, bb, st, streams, make)
    if make is None or lit[0] not in cert or (found and not free_vars(lit, b)):
        return
    for name, s in streams.items():
        for c in s["certified"]:
            if c[0] != lit[0]:
                continue
            # stream variables <- what the literal binds
            sb, links = {}, {}
            for sv, lv in zip(c[1:], lit[1:]):
                v = b.get(lv, None) if isinstance(lv, str) and lv.startswith("?") else lv
                if isinstance(lv, str) and lv.startswith("?") and lv not in b:
                    links[sv] = lv
                else:
                    sb[sv] = v
            if any(o in sb for o in s["outputs"]):
                continue
            for full in solve(s["domain"], {k_: v for k_, v in sb.items()}, st):
                if any(i not in full for i in s["inputs"]):
                    continue
                vals = tuple(full[i] for i in s["inputs"])
                for facts in make(name, s, vals):
                    for f in facts:
                        if f[0] == lit[0]:
                            bb = unify(lit, f, b)
                            if bb is not None:
                                yield from solve(rest, bb, st, streams, make)


def deep_free(c, b):
    if not isinstance(c, list) and not isinstance(c, tuple):
        return isinstance(c, str) and c.startswith("?") and c not in b
    if c and c[0] in ("exists", "forall"):
        return deep_free(c[2], dict(b, **{v: 1 for v in c[1]}))
    return any(deep_free(x, b) for x in c[1:])


def apply(eff, b, st):
    adds, dels = [], []
    for l in conj(eff):
        (dels if l[0] == "not" else adds).append(ground(l[1] if l[0] == "not" else l, b))
    for f in dels:
        st.remove(f)
    for f in adds:
        st.add(f)


# ------------------------------------------------------------------------------ random play
def canonical(trace):
    seen = {}
    return repr([(n, [seen.setdefault(id(a), len(seen)) for a in args]) for n, args in trace])


class Tok:
    """A thing without a name."""
    n = itertools.count()

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)
        self.i = next(self.n)

    def __repr__(self):
        return "%s%d" % (self.kind, self.i)


def roles(stream, vals):
    """The inputs of a motion stream, told apart by what they are."""
    r = {}
    for v in vals:
        if isinstance(v, Tok):
            r.setdefault(v.kind, []).append(v)
    return r


def motion_make(st, streams, log):
    """Streams that always succeed, with new things that remember what they were made from."""
    def make(name, s, vals):
        r = roles(s, vals)
        outs = []
        for _ in s["outputs"]:
            qs = r.get("conf", [])
            if len(qs) == 2:
                outs.append(Tok("traj", start=qs[0], end=qs[1], body=(r.get("object") or [None])[0], grasp=(r.get("grasp") or [None])[0], stream=name))
            else:
                outs.append(Tok("conf", obj=(r.get("object") or [None])[0], pose=(r.get("pose") or [None])[0]))
        b = dict(zip(s["inputs"] + s["outputs"], list(vals) + outs))
        facts = [ground(c, b) for c in s["certified"]]
        for f in facts:
            st.add(f)
        log.append(name)
        yield facts
    return make


def choose(rng, act, st, streams, make, tries=6):
    """A random applicable instance of an action, or None."""
    for f in list(st.facts):
        items = list(st.facts[f].items())
        perm = rng.permutation(len(items))
        st.facts[f] = dict(items[k] for k in perm)
    lits = conj(act["pre"])
    for b in itertools.islice(solve(lits, {}, st, streams, make), tries):
        if all(p in b for p in act["params"]):
            return b
    return None


def play_rover(mon, rng, dom, streams):
    rover = Tok("rover")
    objs = [Tok("object") for _ in range(int(rng.integers(1, 4)))]
    q0 = Tok("conf")
    st = State(dom, [("hfree",), ("rover", rover), ("conf", rover, q0), ("atconf", rover, q0)])
    phys = {"conf": q0, "held": None, "at": {}}
    poses = {}
    for o in objs:
        poses[o] = [Tok("pose") for _ in range(int(rng.integers(1, 4)))]
        st.add(("target", o))
        for p in poses[o]:
            st.add(("pose", o, p))
        st.add(("atpose", o, poses[o][0]))
        phys["at"][o] = poses[o][0]
    log = []
    make = motion_make(st, streams, log)
    trace = []
    for _ in range(int(rng.integers(2, 14))):
        names = list(dom["actions"])
        moved = False
        for name in [names[k] for k in rng.permutation(len(names))]:
            b = choose(rng, dom["actions"][name], st, streams, make)
            if b is None:
                continue
            args = [b[p] for p in dom["actions"][name]["params"]]
            trace.append((name, args))
            act_rover(mon, name, args, st, phys, trace)
            apply(dom["actions"][name]["eff"], b, st)
            mon.count("rover_" + name)
            moved = True
            break
        if not mon.expect(moved, "stuck", domain="rover", trace=trace):
            return
        # the facts say what is the case
        mon.expect([f[2] for f in st.of("atconf")] == [phys["conf"]], "conf-facts", facts=st.of("atconf"), robot=phys["conf"], trace=trace)
        mon.expect(bool(st.of("hfree")) == (phys["held"] is None), "hand-facts", trace=trace)
        mon.expect([f[1] for f in st.of("holding")] == ([] if phys["held"] is None else [phys["held"]]), "holding-facts", facts=st.of("holding"), held=phys["held"], trace=trace)
        want = {(id(o), id(p)) for o, p in phys["at"].items()}
        mon.expect({(id(f[1]), id(f[2])) for f in st.of("atpose")} == want, "pose-facts", facts=st.of("atpose"), world=list(phys["at"].items()), trace=trace)
        mon.count("states_judged")
    mon.case(canonical(trace), nontrivial=len(trace) > 2)
    mon.sample([n for n, _ in trace])


def act_rover(mon, name, args, st, phys, trace):
    """What the commands made from this step do: run the motion, then take hold or let go."""
    v, q1, t, q2, p, o = args
    ok = isinstance(t, Tok) and t.kind == "traj"
    mon.expect(ok and t.start is phys["conf"] and t.end is q2 and q1 is phys["conf"], "motion-from-elsewhere", step=trace[-1], robot=phys["conf"], motion=(t.start, t.end) if ok else t, trace=trace)
    mon.expect(ok and t.body is phys["held"], "motion-for-other-load", step=trace[-1], held=phys["held"], planned_for=t.body if ok else None, trace=trace)
    mon.expect(isinstance(q2, Tok) and getattr(q2, "obj", None) is o and getattr(q2, "pose", None) is p, "grip-out-of-reach", step=trace[-1], trace=trace)
    phys["conf"] = t.end if ok else q2
    if name == "pick":
        mon.expect(phys["held"] is None and phys["at"].get(o) is p, "picks-what-is-not-there", step=trace[-1], held=phys["held"], at=phys["at"].get(o), trace=trace)
        phys["held"] = o
        phys["at"].pop(o, None)
    else:
        mon.expect(phys["held"] is o, "places-what-is-not-held", step=trace[-1], held=phys["held"], trace=trace)
        phys["held"] = None
        phys["at"][o] = p


def play_arm(mon, rng, dom, streams):
    n = int(rng.integers(1, 4))
    objs = [Tok("object") for _ in range(n)]
    sinks = [Tok("surface") for _ in range(n)]
    stove = Tok("surface")
    start = Tok("conf")
    st = State(dom, [("canmove",), ("handempty",), ("conf", start), ("atconf", start), ("stove", stove)])
    phys = {"conf": start, "held": None, "grasp": None, "at": {}, "clean": set(), "cooked": set(), "supported": {}, "kin": set()}
    for s in sinks:
        st.add(("sink", s))
    for o, s in zip(objs, sinks):
        g = Tok("grasp", obj=o)
        on, pre, post = (Tok("pose") for _ in range(3))
        qs = [Tok("conf") for _ in range(3)]
        st.add(("graspable", o))
        st.add(("grasp", o, g))
        for p, q in zip((on, pre, post), qs):
            st.add(("pose", o, p))
            st.add(("conf", q))
            st.add(("kin", o, p, g, q))
            phys["kin"].add((id(o), id(p), id(g), id(q)))
        st.add(("preinsert", qs[1]))
        st.add(("postinsert", qs[2]))
        for r in sinks:
            st.add(("stackable", o, r))
        if rng.random() < .5:
            st.add(("stackable", o, stove))
            st.add(("supported", o, on, stove))
            phys["supported"][(id(o), id(on))] = stove
        st.add(("supported", o, post, s))
        phys["supported"][(id(o), id(post))] = s
        st.add(("atpose", o, on))
        phys["at"][o] = on
    log = []
    make = motion_make(st, streams, log)
    trace = []
    # the intended course for the first object, or steps at random
    course = ["move_free", "pick", "move_holding", "place", "pick", "move_insert", "place", "clean"] if rng.random() < .5 else None
    for k in range(int(rng.integers(4, 22))):
        names = list(dom["actions"])
        order = [names[j] for j in rng.permutation(len(names))]
        if course and k < len(course) and course[k] in names:
            order = [course[k]] + order
        moved = False
        for name in order:
            act = dom["actions"][name]
            b = choose(rng, act, st, streams, make)
            if b is None:
                continue
            args = dict(zip([p for p in act["params"]], [b[p] for p in act["params"]]))
            trace.append((name, list(args.values())))
            act_arm(mon, name, args, st, phys, trace, sinks, stove)
            apply(act["eff"], b, st)
            mon.count("arm_" + name)
            moved = True
            break
        if not moved:
            mon.count("arm_stuck")
            break
        mon.expect([f[1] for f in st.of("atconf")] == [phys["conf"]], "conf-facts", facts=st.of("atconf"), robot=phys["conf"], trace=trace)
        mon.expect(bool(st.of("handempty")) == (phys["held"] is None), "hand-facts", trace=trace)
        mon.expect([(f[1], f[2]) for f in st.of("atgrasp")] == ([] if phys["held"] is None else [(phys["held"], phys["grasp"])]), "holding-facts", facts=st.of("atgrasp"), held=phys["held"], trace=trace)
        want = {(id(o), id(p)) for o, p in phys["at"].items()}
        mon.expect({(id(f[1]), id(f[2])) for f in st.of("atpose")} == want, "pose-facts", facts=st.of("atpose"), world=list(phys["at"].items()), trace=trace)
        mon.expect({id(f[1]) for f in st.of("cleaned")} == phys["clean"], "clean-facts", facts=st.of("cleaned"), trace=trace)
        for o in objs:
            mon.expect(true(["holding", o], {}, st) == (phys["held"] is o), "holding-derived", trace=trace)
            for r in sinks + [stove]:
                at = phys["at"].get(o)
                on = at is not None and phys["supported"].get((id(o), id(at))) is r
                mon.expect(true(["on", o, r], {}, st) == on, "on-derived", object=o, surface=r, trace=trace)
        mon.count("states_judged")
    mon.case(canonical(trace), nontrivial=len(trace) > 2)


def act_arm(mon, name, a, st, phys, trace, sinks, stove):
    if name.startswith("move"):
        t, q1, q2 = a["?t"], a["?q1"], a["?q2"]
        ok = isinstance(t, Tok) and t.kind == "traj"
        mon.expect(ok and t.start is phys["conf"] and q1 is phys["conf"] and t.end is q2, "motion-from-elsewhere", step=trace[-1], robot=phys["conf"], motion=(t.start, t.end) if ok else t, trace=trace)
        mon.expect(ok and t.body is phys["held"] and t.grasp is phys["grasp"], "motion-for-other-load", step=trace[-1], held=phys["held"], planned_for=t.body if ok else None, trace=trace)
        if name == "move_insert" and ok:
            pre, post = [{id(f[1]) for f in st.of(p)} for p in ("preinsert", "postinsert")]
            mon.expect(id(t.start) in pre and id(t.end) in post, "insertion-elsewhere", step=trace[-1], trace=trace)
        phys["conf"] = q2
    elif name == "pick":
        o, p, g, q = a["?o"], a["?p"], a["?g"], a["?q"]
        mon.expect(phys["held"] is None and phys["at"].get(o) is p, "picks-what-is-not-there", step=trace[-1], held=phys["held"], at=phys["at"].get(o), trace=trace)
        mon.expect(q is phys["conf"] and (id(o), id(p), id(g), id(q)) in phys["kin"], "grip-out-of-reach", step=trace[-1], robot=phys["conf"], trace=trace)
        phys["held"], phys["grasp"] = o, g
        phys["at"].pop(o, None)
    elif name == "place":
        o, p, g, q = a["?o"], a["?p"], a["?g"], a["?q"]
        mon.expect(phys["held"] is o and phys["grasp"] is g, "places-what-is-not-held", step=trace[-1], held=phys["held"], trace=trace)
        mon.expect(q is phys["conf"] and (id(o), id(p), id(g), id(q)) in phys["kin"], "grip-out-of-reach", step=trace[-1], robot=phys["conf"], trace=trace)
        phys["held"] = phys["grasp"] = None
        phys["at"][o] = p
    elif name == "clean":
        o, r = a["?o"], a["?r"]
        at = phys["at"].get(o)
        mon.expect(any(r is s for s in sinks) and at is not None and phys["supported"].get((id(o), id(at))) is r, "cleaned-elsewhere", step=trace[-1], at=at, trace=trace)
        phys["clean"].add(id(o))
    elif name == "cook":
        o, r = a["?o"], a["?r"]
        at = phys["at"].get(o)
        mon.expect(r is stove and at is not None and phys["supported"].get((id(o), id(at))) is r and id(o) in phys["clean"], "cooked-elsewhere", step=trace[-1], at=at, trace=trace)
        phys["clean"].discard(id(o))
    else:
        mon.violate("unknown-action", name=name)


def well_formed(mon, folder, dom, streams):
    """Every name that the files use is declared, with the same number of arguments."""
    preds, only = dom["predicates"], {}     # streams may use facts of their own

    def check(c, where, must=True):
        for l in walk(c):
            if l[0] in ("=",):
                continue
            mon.expect(preds.get(l[0]) == len(l) - 1 if must or l[0] in preds else only.setdefault(l[0], len(l)) == len(l), "undeclared-predicate", folder=folder, literal=l, where=where)
            mon.count("literals_read")
    for n, a in dom["actions"].items():
        check(a["pre"], n)
        check(a["eff"], n)
        used = {v for l in list(walk(a["pre"])) + list(walk(a["eff"])) for v in l[1:] if isinstance(v, str) and v.startswith("?")}
        mon.expect(used <= set(a["params"]), "undeclared-variable", folder=folder, action=n, used=sorted(used), declared=a["params"])
    for h, b in dom["derived"]:
        check(b, h)
        check(list(h), h)
    for n, s in streams.items():
        for part in ("domain", "certified"):
            for l in s[part]:
                check(l, n, must=part == "certified")
        used = {v for l in s["domain"] for v in l[1:]}
        mon.expect(set(s["inputs"]) <= used | set(), "input-without-domain", folder=folder, stream=n, inputs=s["inputs"])
        cert = {v for l in s["certified"] for v in l[1:]}
        mon.expect(cert <= set(s["inputs"]) | set(s["outputs"]), "certified-unknown", folder=folder, stream=n)
        if any(l[0] in ("freemotion", "holdingmotion") for l in s["certified"]) and folder == "kuka_carry":
            # such a motion is good for a state only if the planner hands over where the objects are in it
            mon.expect("atpose" in s["fluents"], "motion-without-state", folder=folder, stream=n, fluents=s["fluents"])
        for f in s["fluents"]:
            mon.expect(f in preds, "undeclared-predicate", folder=folder, literal=f, where=n)


def walk(c):
    if not c:
        return
    if c[0] in ("and", "or", "not", "imply"):
        for x in c[1:]:
            yield from walk(x)
    elif c[0] in ("exists", "forall"):
        yield from walk(c[2])
    else:
        yield c


def domains(mon):
    rd, rs = read("turtlebot_move")
    kd, ks = read("kuka_carry")
    well_formed(mon, "turtlebot_move", rd, rs)
    well_formed(mon, "kuka_carry", kd, ks)
    rng = mon.rng("play")
    for i in range(mon.n(16000, 200000)):
        play_rover(mon, rng, rd, rs)
        play_arm(mon, rng, kd, ks)
        if mon.hurry():
            break
