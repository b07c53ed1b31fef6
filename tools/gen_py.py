"""Scripts for the Python implementation: Bernoulli relations, no retractions."""
import random
import re

import gen_model

WEIGHTS = dict(inc=30, uninc=0, gibbs=10, setitem=8, exact=8, gibbsall=3, hgibbs=7, hset=7, hgibbsall=2, addrel=3, rmrel=3,
               latent1=0, latents=0, inclogp=0, update=0, hyp=0, alpha=3, preds=12)
KNOWN = {"session", "schema", "spec", "build", "inc", "gibbs", "gibbsdom", "gibbsall", "setitem", "exact", "hgibbs", "hgibbsall", "hset",
         "addrel", "rmrel", "transalpha", "setalpha", "rlogp", "logp", "hist"}


def gen(seed, sessions=8, steps=36):
    rng = random.Random(seed)
    out = []
    for s in range(sessions):
        q = gen_model.session(rng, steps, WEIGHTS, hier=s % 3 != 0, dists=["bernoulli"], noisy=0, selfrel=0.35, maxar=3,
                              ents=rng.choice([3, 4, 5]))
        if rng.random() < 0.3:   # a domain's name may be a number
            name = str(rng.choice([0, 1, 7, 12]))
            q = [re.sub(r"\bD0\b", name, l) for l in q]
        for l in q:
            if l.split(" ")[0] in KNOWN:
                out.append(l)
            if l[0] != "s" and l != "build" and rng.random() < 0.06:
                out.append(rng.choice(["pyjson", "pysave", "pysave", "transalphas"]))
        out += ["pyagain sweep", "pyjson", "pyagain sweep", "pysave", "pyagain sweep"]
    return out


def gen_hist(seed, sessions=4, k=1500):
    return gen_model.gen_hist(seed, sessions, k, ("gibbs", "hgibbs", "addrel", "inc"), dists=["bernoulli"], rate=0)
