"""Scripts for IRM / HIRM sessions: random schemas, random histories."""
import random

CLEAN = {
    "bernoulli": "bool", "categorical(k=3)": "int", "normal": "double", "bigram": "string",
    "stringcat(strings=ab;b;cab,delim=;)": "string", "skellam": "int", "categorical(k=2)": "int",
}
NOISE = {
    "bool": ["sometimes_bitflip"],
    "int": ["sometimes_categorical(k=3)"],
    "double": ["gaussian", "sometimes_gaussian"],
    "string": ["simple_string"],
}
DOUBLES = ["-3", "-1.5", "-0.25", "0", "0.5", "0.75", "1", "2.25", "4", "7.5", "-12.125", "98.5"]
WORDS = ["%", "a", "b", "ab", "ba", "abc", "cab", "hello", "x%20y", "Z~!", "aaa", "bbbb"]


def value(rng, vt, dist):
    if vt == "bool":
        return rng.choice("01")
    if vt == "double":
        return rng.choice(DOUBLES)
    if vt == "int":
        return str(rng.randrange(3 if "k=3" in dist else 2)) if "cat" in dist else str(rng.randint(-3, 4))
    if dist.startswith("stringcat"):
        return rng.choice(["ab", "b", "cab"])
    return rng.choice(WORDS)


class Rel:
    def __init__(self, name, kind, dist, obs, doms, base=None, vt=None):
        self.name, self.kind, self.dist, self.obs = name, kind, dist, obs
        self.doms, self.base, self.vt = doms, base, vt
        self.data = {}

    def line(self, op="schema"):
        if self.kind == "clean":
            return "%s %s clean %s %d %s" % (op, self.name, self.dist, self.obs, ",".join(self.doms))
        return "%s %s noisy %s %d %s %s" % (op, self.name, self.dist, self.obs, self.base.name, ",".join(self.doms))


def table(rng):
    """A table to move to: one of those there or the next one, or any number."""
    return "?%d" % rng.randrange(3) if rng.random() < 0.88 else str(rng.choice([1, 3, 9, 10, 11, 12, 40, 117, 300000]))


def tup(x):
    return ",".join(map(str, x)) if x else "-"


class Gen:
    def __init__(self, rng, hier, dists=None, noisy=0.5, ents=4, nrel=(1, 4), ndom=2, selfrel=0.25,
                 maxar=2, order=True, chain=True):
        self.rng, self.hier, self.ents = rng, hier, ents
        self.doms = ["D%d" % k for k in range(ndom)]
        self.rels, self.out, self.spare = [], [], []
        self.dists = dists or list(CLEAN)
        names = iter("ABCDEFGH")
        for _ in range(rng.randint(*nrel)):
            self.rels.append(self.newrel(next(names), noisy, selfrel, maxar, chain))
        for _ in range(rng.randint(0, 2)):
            self.spare.append(self.newrel(next(names), noisy, selfrel, maxar, chain))
        if not order:   # names that sort the other way round
            for r in self.rels + self.spare:
                r.name = "Z" + chr(ord("A") + ord("Z") - ord(r.name[0])) + r.name[1:]

    def newrel(self, name, noisy, selfrel, maxar, chain):
        rng = self.rng
        bases = [r for r in self.rels if len(r.doms) < 3 and (chain or r.kind == "clean")
                 and r.vt in NOISE and (r.vt != "int" or "k=3" in r.dist)]
        if bases and rng.random() < noisy:
            b = rng.choice(bases)
            doms = list(b.doms) + [rng.choice(self.doms) for _ in range(rng.choice([0, 0, 1]))]
            return Rel(name, "noisy", rng.choice(NOISE[b.vt]), 1, doms, b, b.vt)
        d = rng.choice(self.dists)
        ar = rng.randint(1, maxar)
        doms = [rng.choice(self.doms) for _ in range(ar)]
        if rng.random() > selfrel:
            doms = list(dict.fromkeys(doms))
        return Rel(name, "clean", d, rng.choice([0, 1, 1]), doms, None, CLEAN[d])

    # --- emitting ---
    def emit(self, s):
        self.out.append(s)

    def start(self):
        self.emit("session model %s %d" % ("hirm" if self.hier else "irm", self.rng.randrange(10**6)))
        for r in self.rels:
            self.emit(r.line())
        self.emit("build")

    def fresh(self, r, tries=20):
        for _ in range(tries):
            x = tuple(self.rng.randrange(self.ents) for _ in r.doms)
            if x not in r.data:
                return x
        return None

    def val(self, r):
        d = r
        while d.kind == "noisy":
            d = d.base
        return value(self.rng, r.vt, d.dist)

    def inc(self, r=None, x=None):
        r = r or self.rng.choice(self.rels)
        x = x or self.fresh(r)
        if x is None or x in r.data:
            return
        if r.kind == "noisy":
            bx = x[:len(r.base.doms)]
            if bx not in r.base.data:
                self.inc(r.base, bx)
        v = self.val(r)
        r.data[x] = v
        self.emit("inc %s %s %s" % (r.name, tup(x), v))

    def needed(self, r, x):
        return any(n.kind == "noisy" and n.base is r and any(y[:len(x)] == x for y in n.data)
                   for n in self.rels)

    def uninc(self):
        c = [(r, x) for r in self.rels for x in sorted(r.data) if not self.needed(r, x)]
        if c:
            r, x = self.rng.choice(c)
            del r.data[x]
            self.emit("uninc %s %s" % (r.name, tup(x)))

    def someent(self):
        c = sorted({(r.name, r.doms[k], x[k]) for r in self.rels for x in r.data for k in range(len(x))})
        return self.rng.choice(c) if c else None

    def gibbs(self):
        e = self.someent()
        if e:
            self.emit("gibbs @%s %s %d" % e)

    def setitem(self):
        e = self.someent()
        if e:
            self.emit("setitem @%s %s %d %s" % (e + (table(self.rng),)))

    def exact(self):
        e = self.someent()
        if e:
            self.emit("exact @%s %s %d" % e)

    def gibbsall(self):
        r = self.rng.choice(self.rels)
        self.emit("gibbsall @%s" % r.name if self.rng.random() < 0.5
                  else "gibbsdom @%s %s" % (r.name, r.doms[0]))

    def hgibbs(self):
        if self.hier:
            self.emit("hgibbs %s" % self.rng.choice(self.rels).name)

    def hset(self):
        if self.hier:
            self.emit("hset %s %s" % (self.rng.choice(self.rels).name, table(self.rng)))

    def hgibbsall(self):
        if self.hier:
            self.emit("hgibbsall")

    def addrel(self):
        c = [r for r in self.spare if r.kind == "clean" or r.base in self.rels]
        if c:
            r = c[0]
            self.spare.remove(r)
            self.emit(r.line("spec"))
            self.emit("addrel %s" % r.name)
            self.rels.append(r)

    def rmrel(self):
        c = [r for r in self.rels if not any(n.base is r for n in self.rels)]
        if len(c) > 1:
            r = self.rng.choice(c)
            self.rels.remove(r)
            r.data = {}
            # A noisy relation may come back only while its base is there.
            self.spare.append(r)
            self.spare = [s for s in self.spare if s.kind == "clean" or s.base in self.rels or s.base in self.spare]
            self.emit("rmrel %s" % r.name)

    def bases(self):
        out = []
        for b in self.rels:
            ns = [n for n in self.rels if n.base is b]
            if ns and b.data:
                # every base tuple has something to be inferred from
                if all(any(y[:len(x)] == x for n in ns for y in n.data) for x in b.data):
                    out.append(b)
        return out

    def latent_tuples(self):
        return [(b, x) for b in self.rels if any(n.base is b for n in self.rels)
                for x in sorted(b.data) if self.needed(b, x)]

    def latent1(self):
        c = self.latent_tuples()
        if c:
            b, x = self.rng.choice(c)
            self.emit("latent1 %s %s" % (b.name, tup(x)))

    def latents(self):
        c = self.bases()
        if c:
            self.emit("latents %s" % self.rng.choice(c).name)

    def inclogp(self):
        c = self.latent_tuples()
        if c:
            b, x = self.rng.choice(c)
            self.emit("inclogp %s %s %s" % (b.name, tup(x), " ".join(self.val(b) for _ in range(3))))

    def update(self):
        # only where no noisy pair depends on the old value
        c = [(r, x) for r in self.rels for x in sorted(r.data) if not self.needed(r, x)]
        if c:
            r, x = self.rng.choice(c)
            r.data[x] = self.val(r)
            self.emit("update %s %s %s" % (r.name, tup(x), r.data[x]))

    def hyp(self):
        self.emit("hyp %s %d" % (self.rng.choice(self.rels).name, self.rng.randint(0, 2)))

    def alpha(self):
        r = self.rng.choice(self.rels)
        if self.rng.random() < 0.5:
            self.emit("transalpha @%s %s" % (r.name, r.doms[0]))
        else:
            self.emit("setalpha @%s %s %s" % (r.name, r.doms[0], self.rng.choice(["0.3", "2", "7.5"])))

    def query_tuple(self, r):
        for _ in range(30):
            x = tuple(self.rng.randrange(self.ents + 2) for _ in r.doms)
            if x in r.data:
                continue
            if r.kind == "noisy" and x[:len(r.base.doms)] not in r.base.data:
                continue
            return x
        return None

    def preds(self):
        rng = self.rng
        r = rng.choice(self.rels)
        x = self.query_tuple(r)
        if x is None:
            return
        which = rng.choice(["rlogp", "clogp", "logp", "logp", "same", "has"])
        if which == "same":
            # One unknown entity, several times in one tuple.
            q = rng.choice([q for q in self.rels if q.kind == "clean"])
            k = self.ents + rng.randrange(3)
            y = tuple(k if d == q.doms[0] else rng.randrange(self.ents) for d in q.doms)
            if y not in q.data:
                self.emit("logp %s %s %s" % (q.name, tup(y), self.val(q)))
        elif which == "has":
            self.emit("has @%s %s %d" % (r.name, r.doms[0], rng.randrange(self.ents + 1)))
        elif which == "clogp":
            self.emit("clogp %s %s %s" % (r.name, tup(x), self.val(r)))
        elif which == "rlogp":
            # an unknown entity named twice is a documented limitation
            if len({(d, e) for d, e in zip(r.doms, x)}) == len(x):
                self.emit("rlogp %s %s %s" % (r.name, tup(x), self.val(r)))
        else:
            cl = [q for q in self.rels if q.kind == "clean"]
            rng.shuffle(cl)
            s = "logp"
            for q in cl[:rng.choice([1, 1, 2, 3])]:
                y = self.query_tuple(q)
                if y is not None:
                    s += " %s %s %s" % (q.name, tup(y), self.val(q))
            if s != "logp":
                self.emit(s)


    # --- generating ---
    def rsample(self):
        r = self.rng.choice(self.rels)
        x = self.query_tuple(r)
        if x is not None:
            r.data[x] = None
            self.emit("rsample %s %s" % (r.name, tup(x)))

    def hsamplerel(self):
        if not self.hier:
            return
        r = self.rng.choice(self.rels)
        x = self.fresh(r)
        if x is None or x in r.data:
            return
        q = r
        while True:
            q.data[x] = None
            if q.kind == "clean":
                break
            q = q.base
            x = x[:len(q.doms)]
            if x in q.data:
                break
        self.emit("hsamplerel %s %s" % (r.name, self.lastx(r)))

    def lastx(self, r):
        return tup(list(r.data)[-1])

    def infer(self):
        if any(r.data for r in self.rels):
            self.emit(self.rng.choice(["infer 1", "infer 2"]))

    def step(self):
        if not self.hier and any(r.data for r in self.rels):
            self.emit("step %d %d" % (self.rng.randint(1, 3), self.rng.randint(0, 1)))

    def final(self):
        """Operations after which the generator no longer knows what is observed."""
        rng = self.rng
        if self.hier:
            for _ in range(2):
                self.emit("hsample %d" % rng.choice([0, 1, 2, 3, 5]))
            self.emit(rng.choice(["infer 1", "hgibbsall", "cleanup"]))
        if rng.random() < 0.5:
            self.emit("destroy")


WEIGHTS = {
    "inc": 30, "uninc": 12, "gibbs": 10, "setitem": 12, "exact": 6, "gibbsall": 2, "hgibbs": 6, "hset": 8,
    "hgibbsall": 1, "addrel": 2, "rmrel": 2, "latent1": 3, "latents": 1, "inclogp": 3, "update": 3, "hyp": 2,
    "alpha": 2, "preds": 10,
}


def session(rng, steps=40, weights=None, prefill=6, final=False, **kw):
    g = Gen(rng, **kw)
    g.start()
    w = dict(WEIGHTS)
    w.update(weights or {})
    names = [n for n in w if w[n] > 0]
    ws = [w[n] for n in names]
    for _ in range(prefill):
        g.inc()
    for _ in range(steps):
        getattr(g, rng.choices(names, ws)[0])()
    if final:
        g.final()
    return g.out


def gen(seed, sessions, steps=40, weights=None, **kw):
    rng = random.Random(seed)
    out = []
    for s in range(sessions):
        k = dict(kw)
        k.setdefault("hier", s % 2 == 1)
        out += session(rng, steps, weights, **k)
    return out


GROW = {"inc": 20, "uninc": 6, "gibbs": 6, "hset": 4, "rsample": 14, "hsamplerel": 14, "latent1": 4, "hyp": 2,
        "setitem": 0, "exact": 2, "gibbsall": 1, "hgibbs": 2, "hgibbsall": 1, "addrel": 2, "rmrel": 2, "latents": 2,
        "inclogp": 0, "update": 0, "alpha": 2, "preds": 4}
SWEEP = {"inc": 30, "uninc": 8, "gibbs": 0, "hset": 3, "infer": 8, "step": 6, "rsample": 4, "latents": 2, "hyp": 0,
         "setitem": 3, "exact": 2, "gibbsall": 2, "hgibbs": 1, "hgibbsall": 1, "addrel": 1, "rmrel": 1, "latent1": 1,
         "inclogp": 0, "update": 2, "alpha": 2, "preds": 3}


def _hist_base(rng, hier, ents=3, n=6, **kw):
    g = Gen(rng, hier, ents=ents, **kw)
    g.start()
    for _ in range(n):
        g.inc()
    for _ in range(rng.randint(0, 4)):
        g.setitem()
    if rng.random() < 0.5:
        g.alpha()
    return g


SMALL = ["bernoulli", "categorical(k=3)", "normal"]


def gen_hist(seed, sessions, k=1500, kinds=("gibbs", "hgibbs", "latent1", "addrel", "inc", "rsample", "hsamplerel"), dists=None, rate=None):
    """Sessions whose last operations are repeated k times from the same state."""
    rng = random.Random(seed)
    out, made = [], 0
    tries = 0
    while made < sessions and tries < sessions * 30:
        tries += 1
        kind = kinds[made % len(kinds)]
        hier = True if kind in ("hgibbs", "addrel", "hsamplerel") else rng.random() < 0.5
        nrel = (2, 3) if kind in ("hgibbs", "latent1") else (1, 3)
        g = _hist_base(rng, hier, ents=2 if kind == "hgibbs" else 4, n=rng.randint(3, 4 if kind == "hgibbs" else 8),
                       dists=dists or SMALL, nrel=nrel, noisy=rate if rate is not None else 0.7 if kind == "latent1" else 0.4, maxar=2,
                       selfrel=0.3 if kind == "gibbs" else 0, chain=False)
        op = None
        # sometimes_categorical has no closed-form score
        if kind in ("gibbs", "hgibbs", "latent1") and any("sometimes_categorical" in r.dist for r in g.rels):
            continue
        if kind == "gibbs":
            e = g.someent()
            op = e and "gibbs @%s %s %d" % e
        elif kind == "hgibbs":
            r = rng.choice(g.rels)
            if len({(d, x[j]) for x in r.data for j, d in enumerate(r.doms)}) <= 4:
                op = "hgibbs %s" % r.name
        elif kind == "latent1":
            c = [(b, x) for b, x in g.latent_tuples()
                 if all(n.dist in ("sometimes_bitflip", "gaussian", "sometimes_gaussian")
                        for n in g.rels if n.base is b)]
            if c:
                b, x = rng.choice(c)
                # distinct noisy values leave ties to be broken at random: one mode only
                vs = [n.data[y] for n in g.rels if n.base is b for y in n.data if y[:len(x)] == x]
                top = sorted((vs.count(v) for v in set(vs)), reverse=True)
                if len(top) == 1 or top[0] > top[1]:
                    op = "latent1 %s %s" % (b.name, tup(x))
        elif kind == "addrel":
            c = [r for r in g.spare if r.kind == "clean" or r.base in g.rels]
            if c:
                g.emit(c[0].line("spec"))
                op = "addrel %s" % c[0].name
        elif kind == "inc":
            c = [r for r in g.rels if r.kind == "clean" and len(r.doms) == 1]
            if c:
                r = rng.choice(c)
                op = "inc %s %d %s" % (r.name, 50, g.val(r))
        else:
            c = []
            for r in g.rels:
                if r.dist not in ("bernoulli", "categorical(k=3)", "sometimes_bitflip"):
                    continue
                view = [q for q in g.rels if q is r]
                ents = {}
                for q in view:
                    for x in q.data:
                        for d, e in zip(q.doms, x):
                            ents.setdefault(d, set()).add(e)
                for _ in range(10):
                    if any(d not in ents for d in r.doms):
                        break
                    x = tuple(rng.choice(sorted(ents[d])) for d in r.doms)
                    if x in r.data:
                        continue
                    if r.kind == "noisy" and x[:len(r.base.doms)] not in r.base.data:
                        continue
                    c.append((r, x))
            if c:
                r, x = rng.choice(c)
                op = "%s %s %s" % (kind, r.name, tup(x))
        if not op:
            continue
        out += g.out + ["hist %d %s" % (k, op)]
        made += 1
    return out


def gen_lat_hist(seed, sessions, k=1500):
    """Resampling the latent value of a tuple that some noisy relations mention and others do not."""
    rng = random.Random(seed)
    out = []
    for s in range(sessions):
        binary = s % 3 == 2
        hier = rng.random() < 0.5
        out.append("session model %s %d" % ("hirm" if hier else "irm", rng.randrange(10**6)))
        out.append("schema B clean %s 0 D" % ("bernoulli" if binary else "normal"))
        kinds = ["sometimes_bitflip"] * 3 if binary else rng.choice([
            ["gaussian", "sometimes_gaussian"], ["gaussian", "sometimes_gaussian", "gaussian"],
            ["sometimes_gaussian", "gaussian", "sometimes_gaussian"]])
        names = ["N%d" % j for j in range(len(kinds))]
        rng.shuffle(names)
        doms = [rng.choice(["D,D", "D,E"]) for _ in names]
        for n, d, ds in zip(names, kinds, doms):
            out.append("schema %s noisy %s 1 B %s" % (n, d, ds))
        out.append("build")
        pool = ["0", "1"] if binary else ["0.5", "2", "3.5"]
        loud = rng.sample(names, rng.randint(1, len(names) - 1))
        for e in range(3):
            out.append("inc B %d %s" % (e, rng.choice(pool)))
        for n in names:
            todo = [(0, y) for y in range(3)] if n in loud else []
            todo += [(1, 1)] + [(2, 0)] * (rng.random() < 0.5)
            # one value is the most frequent of tuple 0
            vs = [pool[0], pool[0], pool[-1]] if n == loud[0] else [pool[0], pool[1]]
            for j, (e, y) in enumerate(todo):
                out.append("inc %s %d,%d %s" % (n, e, y, vs[j % len(vs)] if e == 0 else rng.choice(pool)))
        out.append("hist %d latent1 B 0" % k)
    return out
