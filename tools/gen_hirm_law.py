"""Laws of the relational model: data sampled from it, then kernels that draw from conditionals.

The transition of latent values is not among them: its candidates are proposals computed from the data."""
import random

SCHEMAS = {
    # name: (schema lines, cells to sample in order, entities of (relation, domain))
    "two": (["a clean bernoulli 1 D", "b clean bernoulli 1 D", "c clean categorical(k=3) 1 D"],
            ["a 0", "a 1", "a 2", "b 0", "b 1", "c 0", "c 2"], [("a", "D", 3)]),
    "pairs": (["a clean bernoulli 1 D,E", "b clean bernoulli 1 D", "c clean bernoulli 1 E"],
              ["a 0,0", "a 0,1", "a 1,0", "a 2,1", "b 0", "b 1", "c 1", "c 0"], [("a", "D", 3), ("a", "E", 2), ("b", "D", 2)]),
    "self": (["a clean bernoulli 1 D,D", "b clean categorical(k=2) 1 D"],
             ["a 0,0", "a 0,1", "a 1,2", "a 2,0", "b 0", "b 1", "b 2"], [("a", "D", 3), ("b", "D", 3)]),
    "noisy": (["a clean bernoulli 0 D", "n noisy sometimes_bitflip 1 a D", "b clean bernoulli 1 D"],
              ["a 0", "n 0", "a 1", "n 1", "a 2", "n 2", "b 0", "b 1"], [("a", "D", 3), ("n", "D", 3)]),
    "noisy2": (["a clean bernoulli 0 D", "n noisy sometimes_bitflip 1 a D,E", "m noisy sometimes_bitflip 1 a D"],
               ["a 0", "n 0,0", "n 0,1", "a 1", "n 1,0", "m 0", "m 1"], [("a", "D", 2), ("n", "D", 2), ("n", "E", 2)]),
    "real": (["a clean normal 1 D", "b clean bernoulli 1 D", "c clean categorical(k=3) 1 E"],
             ["a 0", "a 1", "a 2", "b 0", "b 1", "c 0", "c 1"], [("a", "D", 3), ("c", "E", 2)]),
    "words": (["a clean stringcat(strings=ab;b;cab,delim=;) 1 D", "b clean bernoulli 1 D"],
              ["a 0", "a 1", "a 2", "b 0", "b 1"], [("a", "D", 3)]),
}


KERNELS = ["gibbs", "hgibbs", "again"]


def laws(rng, which, k, per=2, use=KERNELS, what=None):
    spec, cells, ents = SCHEMAS[which]
    rels = [s.split(" ")[0] for s in spec]
    bases = {s.split(" ")[4] for s in spec if " noisy " in s}
    noisy = {s.split(" ")[0] for s in spec if " noisy " in s}
    out = ["session model hirm %d" % rng.randrange(10**6)] + ["schema " + s for s in spec]
    for _ in range(per):
        cells = rng.sample(cells, len(cells))
        steps, have = [], set()
        for c in cells:
            if c not in have:
                r, x = c.split(" ")
                have |= {c} | {b + " " + x.split(",")[0] for b in bases if r != b and r in noisy}   # sampled along
                steps.append("hsamplerel " + c)
        for _ in range(rng.randint(1, 4)):
            kind = rng.choice(use)
            if kind == "hgibbs":
                steps.append("hgibbsall" if rng.random() < 0.5 else "hgibbs " + rng.choice(rels))
            elif kind == "gibbs":
                rel, d, n = rng.choice(ents)
                steps.append("gibbsall @" + rng.choice(rels) if rng.random() < 0.6 else "gibbs @%s %s %d" % (rel, d, rng.randrange(n)))
            else:
                c = rng.choice([c for c in cells if c.split(" ")[0] not in bases])
                steps += ["uninc " + c, "hsamplerel " + c]
        kind = rng.choice(what or ["views", "views", "ents", "ents", "pair"])
        if kind == "views":
            end = "views " + " ".join(rels)
        elif kind == "ents":
            rel, d, n = rng.choice(ents)
            end = "ents %s %s %s" % (rel, d, " ".join(map(str, range(n))))
        else:
            cand = [s for s in spec if " clean bernoulli" in s and s.endswith(" D")]
            if not cand:
                continue
            end = "pair %s 0 1" % rng.choice(cand).split(" ")[0]
        out.append("law %d %s | %s" % (k, " | ".join(steps), end))
    return out


def gen(seed, per, reps, kernels=None, what=None):
    rng = random.Random(seed)
    out = []
    for which in rng.sample(list(SCHEMAS), min(per, len(SCHEMAS))):
        out += laws(rng, which, reps, 2, kernels or KERNELS, what)
    return out
