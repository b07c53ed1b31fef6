"""Scripts for the plotting tools: schemas, observations, clusterings and pages."""
import random

import gen_io
from gen_io import World, tok

NUMERIC = ["bernoulli", "normal", "skellam", "categorical(k=3)"]


def chunks(rng, ents):
    """A random partition of names, as lists sorted by name."""
    parts = {}
    for e in ents:
        parts.setdefault(rng.randrange(4), []).append(e)
    return [sorted(p) for _, p in sorted(parts.items())]


def clusters(rng, w):
    """A clustering of the relations and entities of w, as the programs save it."""
    views = {}
    for r in w.rels:
        views.setdefault(rng.choice([0, 0, 1, 2, 5, 12]), []).append(r)
    out = ["%d %s" % (v, " ".join(r.name for r in rs)) for v, rs in sorted(views.items())]
    blocks = []
    for v, rs in sorted(views.items()):
        ents = {}
        for r in rs:
            for x in w.obs.get(r.name, {}):
                for d, e in zip(r.doms, x):
                    ents.setdefault(d, set()).add(e)
        b = ["irm=%d" % v]
        ds = sorted(ents)
        rng.shuffle(ds)
        for d in ds:
            q = chunks(rng, sorted(ents[d]))
            for z, es in zip(sorted(rng.sample(range(15), len(q))), q):
                b.append("%s %d %s" % (d, z, " ".join(es)))
        blocks.append("\n".join(b) + "\n")
    return "\n".join(out) + "\n\n" + "\n".join(blocks)


def observations(w):
    s = w.observations()
    return s if s.strip() else ""


def page(rng):
    w = World(rng, per=rng.choice([3, 8]), kinds=NUMERIC)
    doms = {d for r in w.rels for d in r.doms}
    sch = "" if len(doms) == 1 and rng.random() < 0.5 else w.schema()
    return "plots %s %s %s" % (tok(sch), tok(observations(w)), tok(clusters(rng, w)))


def schema(rng):
    """Also with parameters that hold what ends parameters elsewhere."""
    s = World(rng).schema()
    if rng.random() < 0.4:
        v = [rng.choice(["a", "b c", "]", ",", "(x)", "=", "#", "; y", " "]) for _ in range(rng.randint(1, 4))]
        s += "\nZZ ~ stringcat[%sstrings%s=%s'%s'%s, delim=\",\"%s] %s(D9%s)" % (
            tuple(rng.choice(["", " "]) for _ in range(3)) + (",".join(v),) + tuple(rng.choice(["", " "]) for _ in range(4)))
    return s


KINDS = [lambda rng: "pschema " + tok(schema(rng)), lambda rng: "pobs " + tok(observations(World(rng))),
         lambda rng: "pclusters " + tok(clusters(rng, World(rng)))]


def gen(seed, pages=30, files=60):
    rng = random.Random(seed)
    q = [page(rng) for _ in range(pages)] + [KINDS[k % 3](rng) for k in range(files)]
    rng.shuffle(q)
    out = []
    for k, l in enumerate(q):
        if k % 10 == 0:
            out.append("session plots")
        out.append(l)
    return out
