"""Histories for the real code out of the transition graph that TLC explores of HirmMC."""
import collections
import random
import re

import core

SCHEMA = {  # the schemas of HirmMC.tla, as the driver declares them
    "pair": (True, ["A clean bernoulli 1 D", "B clean bernoulli 1 D,D"]),
    "noise": (True, ["A clean bernoulli 0 D", "B noisy sometimes_bitflip 1 A D,E"]),
    "chain": (True, ["A clean bernoulli 0 D", "B noisy sometimes_bitflip 1 A D", "C noisy sometimes_bitflip 1 B D"]),
    "cross": (False, ["A clean bernoulli 1 D,E"]),
    "self": (False, ["A clean bernoulli 1 D,D", "B noisy sometimes_bitflip 1 A D,D"]),
    "three": (True, ["A clean bernoulli 1 D", "B clean bernoulli 1 D", "C clean bernoulli 1 D,E"]),
}
CFG = """SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Model = "%s"
  MaxObs = %d
  Lemmas = TRUE
INVARIANTS TypeOK Formed Undo Visit Covered GibbsIsJoint PredIsJoint LatentIsJoint RelIsJoint ShowState
ACTION_CONSTRAINT ShowStep
"""


class Graph:
    def __init__(self, model, out):
        self.model, self.facts, self.next, self.n = model, {}, collections.defaultdict(dict), 0
        for line in out.splitlines():
            if line.startswith('"S '):
                k, _, f = line[3:-1].partition(" ")
                f = frozenset(f.split())
                if self.facts.setdefault(k, f) != f:
                    raise core.Machinery("two states of one name in " + model)
            elif line.startswith('"E '):
                a, b, act = line[3:-1].split(" ", 2)
                if act not in self.next[a].setdefault(b, []):
                    self.next[a][b].append(act)
                    self.n += 1
        self.init = next(k for k, f in self.facts.items()
                         if not any(x[0] == "d" for x in f)
                         and {x.split(":")[1] for x in f} == {s.split()[0] for s in SCHEMA[model][1]}
                         and len({x.split(":")[1] for x in f}) ** 2 == sum(1 for x in f if x[0] == "w"))


def explore(work, model, maxobs):
    """Explore one small model; the graph, or Machinery when an invariant of the specification fails."""
    cfg = work.path("mc_%s.cfg" % model)
    with open(cfg, "w") as f:
        f.write(CFG % (model, maxobs))
    rc, out, wall = core.tlc(work, "HirmMC.tla", cfg, {}, name="mc_" + model, workers=2, heap="4g")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if rc != 0 or "Model checking completed. No error" not in out or not m:
        raise core.Machinery("HirmMC (%s) does not satisfy its own invariants:\n%s" % (model, out[-1500:]))
    g = Graph(model, out)
    return g, dict(module="HirmMC", model=model, max_observations=maxobs, generated=int(m.group(1)),
                   distinct=int(m.group(2)), transitions=g.n, wall_s=round(wall, 1))


def placed(facts):
    """{(relation, domain, entity): entities at its table}, {relation: relations in its view}"""
    seats, views = collections.defaultdict(set), collections.defaultdict(set)
    for f in facts:
        p = f.split(":")
        if p[0] == "s":
            seats[p[1], p[2], p[3]].add(p[4])
        elif p[0] == "w":
            views[p[1]].add(p[2])
    return seats, views


def seat_ops(rel, before, after, only=None):
    """Put the entities of rel's view that are new there where they should be."""
    out, here = [], collections.defaultdict(set)
    for (r, d, e) in after:
        if r == rel and (rel, d, e) in before:
            here[d].add(e)
    for (r, d, e), mates in sorted(after.items()):
        if r != rel or (rel, d, e) in before:
            continue
        m = sorted(mates & here[d] - {e})
        out.append("setitem @%s %s %s %s" % (rel, d, e, "=" + m[0] if m else "new"))
        here[d].add(e)
    return out


def ops(act, fa, fb):
    """The driver operations of one transition."""
    a = act.split()
    (s0, v0), (s1, v1) = placed(fa), placed(fb)
    if a[0] == "inc":
        return [act] + seat_ops(a[1], s0, s1)
    if a[0] in ("uninc", "update", "rmrel"):
        return [act]
    if a[0] == "setitem":
        m = sorted(s1[a[1], a[2], a[3]] - {a[3]})
        return ["setitem @%s %s %s %s" % (a[1], a[2], a[3], "=" + m[0] if m else "new")]
    if a[0] == "hset":
        m = sorted(v1[a[1]] - {a[1]})
        if not m:
            # everybody in the new view has just come
            return ["hset %s new" % a[1]] + seat_ops(a[1], {}, s1)
        old = {(a[1], d, e): 1 for (r, d, e) in s0 if r == m[0]}
        return ["hset %s =%s" % (a[1], m[0])] + seat_ops(a[1], old, s1)
    if a[0] == "addrel":
        m = sorted(v1[a[1]] - {a[1]})
        return ["addrel " + a[1], "hset %s %s" % (a[1], "=" + m[0] if m else "new")]
    return None


def start(model):
    hier, rels = SCHEMA[model]
    first = rels[0].split()[0]
    out = ["schema " + r for r in rels] + ["build"]
    if hier:
        out += ["hset %s =%s" % (r.split()[0], first) for r in rels[1:]]
    return out + ["spec " + r for r in rels]


def probes(rng, g, facts, kinds):
    """Questions about a state."""
    seats, views = placed(facts)
    data = {tuple(f.split(":")[1:3]): f.split(":")[3] for f in facts if f[0] == "d"}
    rels = {s.split()[0]: s.split() for s in SCHEMA[g.model][1] if s.split()[0] in views}
    out = []
    if "exact" in kinds:
        firsts = {min(v) for v in views.values()}
        out += ["exact @%s %s %s" % k for k in sorted(seats) if k[0] in firsts]
    if "pred" in kinds:
        qs = []
        for r, t in sorted(rels.items()):
            doms = t[-1].split(",")
            for _ in range(2):
                x = ",".join(str(rng.randrange(3)) for _ in doms)
                if (r, x) in data:
                    continue
                if t[1] == "noisy":
                    nb = len(rels[t[4]][-1].split(","))
                    if (t[4], ",".join(x.split(",")[:nb])) not in data:
                        continue
                q = "%s %s %s" % (r, x, rng.choice("01"))
                out += ["rlogp " + q, "clogp " + q]
                if t[1] == "clean":
                    qs.append(q)
                    if len(doms) > 1:
                        out.append("logp %s %s %s" % (r, ",".join("5" for _ in doms), rng.choice("01")))
        if qs:
            out.append("logp " + " ".join({q.split()[0]: q for q in qs}.values()))
    if "latent" in kinds:
        for r, t in sorted(rels.items()):
            if t[1] == "noisy" and rels[t[4]][3] == "0":
                xs = [x for (q, x) in sorted(data) if q == t[4]]
                if xs:
                    out.append("inclogp %s %s 0 1" % (t[4], rng.choice(xs)))
    return out


def walks(g, seed, limit=None, length=60, kinds=()):
    """Sessions that together take every transition (or `limit` of them)."""
    rng = random.Random(seed)
    todo = {a: {(b, x) for b, xs in bs.items() for x in xs if not x.startswith("latent1")} for a, bs in g.next.items()}
    todo = {a: t for a, t in todo.items() if t}
    left = sum(len(t) for t in todo.values())
    total, budget = left, left if limit is None else min(limit, left)
    out, done, asked = [], 0, set()

    def step(k, b, x, lines):
        lines += ops(x, g.facts[k], g.facts[b])
        lines.append("expect " + " ".join(sorted(g.facts[b])))
        if kinds and b not in asked:
            asked.add(b)
            lines += probes(rng, g, g.facts[b], kinds)
        if k in todo and (b, x) in todo[k]:
            todo[k].discard((b, x))
            if not todo[k]:
                del todo[k]
            return 1
        return 0

    while done < budget and todo:
        lines = ["session model %s %d" % ("hirm" if SCHEMA[g.model][0] else "irm", rng.randrange(10**6))] + start(g.model)
        k, n, got = g.init, 0, 0
        while n < length:
            if todo.get(k):
                b, x = rng.choice(sorted(todo[k]))
                got += step(k, b, x, lines)
                k, n = b, n + 1
                continue
            # the nearest state with something to do
            back, queue, goal = {k: None}, collections.deque([k]), None
            while queue and goal is None:
                u = queue.popleft()
                nb = sorted(g.next[u])
                rng.shuffle(nb)
                for w in nb:
                    x = [y for y in g.next[u][w] if not y.startswith("latent1")]
                    if w not in back and x:
                        back[w] = (u, x[0])
                        queue.append(w)
                        if todo.get(w):
                            goal = w
                            break
            if goal is None:
                break
            path = []
            while back[goal]:
                path.append((back[goal][0], goal, back[goal][1]))
                goal = back[goal][0]
            for u, w, x in reversed(path):
                got += step(u, w, x, lines)
                k, n = w, n + 1
        done += got
        out.append(lines + ["destroy"])
        if not got:
            break
    return out, done, total
