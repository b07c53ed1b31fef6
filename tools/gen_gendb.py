"""Histories of a GenDB: PClean schemas, rows, transitions of references, kernels underneath."""
import random

from gen_io import tok

CLASSES = ["City", "State", "Doc", "addr", "Zip"]
VARS = ["name", "Age", "x", "y2", "zip_code"]
REFS = ["a", "city", "Home", "ref2", "z"]


class Type:
    """vals: what may be seen through noise; exact: what may be the value itself."""

    def __init__(self, text, vals, exact=None):
        self.text, self.vals, self.exact = text, vals, exact or vals


def types(rng, strings=True):
    k = rng.randint(2, 4)
    words = rng.sample(["aa", "ab", "b", "Cc", "d0"], 3)
    t = [Type("bool", lambda: rng.choice("01")),
         Type("categorical(k=%d)" % k, lambda: str(rng.randrange(k))),
         Type("real", lambda: rng.choice(["0", "1.5", "-2", "0.25", "3"]))]
    if strings:
        t += [Type("stringcat(strings=\"%s\")" % " ".join(words), lambda: rng.choice(words + [words[0][:1], "aab"]), lambda: rng.choice(words)),
              Type("typo_nat", lambda: rng.choice(["1", "12", "120", "7"])),
              Type("typo_int", lambda: rng.choice(["1", "-2", "0"])),
              Type("typo_real", lambda: rng.choice(["1.5", "-2", "0"])),
              Type("string", lambda: rng.choice(["a", "ab", "b c", "abc"]))]
    return t


class Schema:
    """A PClean schema at random: a record class and classes below it."""

    def __init__(self, rng, strings=True, depth=3):
        n = rng.choice([0, 1, 1, 2, 2, 3])
        self.rng = rng
        self.record = rng.choice(["Record", "Obs", "A"])
        self.classes = [self.record] + rng.sample(CLASSES, n)
        self.attrs, self.refs = {}, {}
        pool = types(rng, strings)
        pool = pool[:3] + (rng.sample(pool[3:], 2) if strings else [])
        for c in self.classes:
            lo = 0 if c == self.record and n else 1
            self.attrs[c] = {v: rng.choice(pool) for v in rng.sample(VARS, rng.randint(lo, 2))}
            self.refs[c] = {}
        for k, c in enumerate(self.classes[1:], 1):
            # every class is below some earlier one; sometimes twice
            for _ in range(1 if rng.random() < 0.7 else 2):
                up = self.classes[rng.randrange(k)]
                free = [f for f in REFS if f not in self.refs[up]]
                if free and len(self.refs[up]) < 2:
                    self.refs[up][rng.choice(free)] = c
            if not any(c in r.values() for r in self.refs.values()):
                up = self.classes[k - 1]
                self.refs[up][[f for f in REFS if f not in self.refs[up]][0]] = c
        self.fields = {}
        paths = list(self.paths(self.record))
        rng.shuffle(paths)
        for j, p in enumerate(paths[:rng.randint(1, 4)]):
            self.fields[rng.choice(["F", "Q", "f"]) + str(j)] = p
        # an observed path may be observed twice
        long = [p for p in self.fields.values() if len(p[0]) > 1]
        if long and rng.random() < 0.15:
            self.fields["again"] = rng.choice(long)
        self.final = rng.random() < 0.5
        self.clean = rng.random() < 0.6

    def paths(self, c, pre=()):
        for v, t in self.attrs[c].items():
            yield pre + (v,), t
        for f, d in self.refs[c].items():
            yield from self.paths(d, pre + (f,))

    def text(self):
        rng = self.rng
        out = []
        for c in self.classes:
            body = ["  %s ~ %s" % (v, t.text) for v, t in self.attrs[c].items()]
            body += ["  %s ~ %s" % (f, d[0].upper() + d[1:]) for f, d in self.refs[c].items()]
            rng.shuffle(body)
            out.append("\n".join(["class " + c[0].upper() + c[1:]] + body))
        rng.shuffle(out)
        q = ["  %s as %s" % (".".join(p), f) for f, (p, _) in self.fields.items()]
        out.append("\n".join(["observe"] + q + ["  from " + self.record]))
        return "\n\n".join(out) + "\n"

    def cname(self, c):
        return c[0].upper() + c[1:]

    def value(self, f):
        p, t = self.fields[f]
        return t.exact() if len(p) == 1 and self.clean else t.vals()

    def all_refs(self):
        return [(self.cname(c), f) for c in self.classes for f in self.refs[c]]

    def line(self):
        return "pclean %s %d %d" % (tok(self.text()), self.final, self.clean)


def row(rng, s, i, unique=1, missing=0.15):
    fs = [f for f in s.fields if rng.random() >= missing]
    if not fs:
        fs = [rng.choice(list(s.fields))]
    return "row %d %d %s" % (i, unique, " ".join("%s %s" % (f, tok(s.value(f))) for f in fs))


def csv(rng, s, start, n):
    cols = list(s.fields) + (["Other"] if rng.random() < 0.3 else [])
    rng.shuffle(cols)
    rows = [",".join("u" if c == "Other" else "" if rng.random() < 0.15 else s.value(c) for c in cols) for _ in range(n)]
    rows = [r if r.strip(",") else None for r in rows]
    return [r for r in rows if r is not None], "csv %s %d" % (tok("\n".join([",".join(cols)] + [r for r in rows if r is not None]) + "\n"), start)


def session(rng, steps=14, under=0.25, moves=0.5, strings=True, trans=True):
    s = Schema(rng, strings)
    out = ["session model gendb %d" % rng.randrange(10**6), s.line()]
    unique = 1 if rng.random() < 0.7 else 0
    nrow = 0
    refs = s.all_refs()
    for _ in range(steps):
        r = rng.random()
        if nrow == 0 or r > under + moves:
            if nrow >= 7:
                continue
            k = rng.random()
            if k < 0.65:
                out.append(row(rng, s, nrow, unique))
                nrow += 1
            elif k < 0.85:
                rows, l = csv(rng, s, nrow, rng.randint(1, 3))
                if rows:
                    out.append(l)
                    nrow += len(rows)
            else:
                n = rng.choice([0, 1, 2])
                out.append("samples %d %d" % (n, nrow))
                nrow += n
        elif r < moves and refs and trans:
            k = rng.random()
            if k < 0.85:
                c, f = rng.choice(refs)
                out.append("transref %s %s ?%d" % (c, f, rng.randrange(8)))
            elif k < 0.95:
                out.append("transall %s" % s.record)
            else:
                out.append("ginfer 1 1")
        else:
            k = rng.random()
            if k < 0.25:
                out.append("hgibbsall")
            elif k < 0.5:
                out.append("gibbsall @%s" % rng.choice(list(s.fields)))
            elif k < 0.65:
                out.append("hset %s ?%d" % (rng.choice(list(s.fields)), rng.randrange(4)))
            elif k < 0.8:
                out.append("infer 1")
            else:
                out.append("gsave")
    return out


def gen(seed, sessions=10, **kw):
    rng = random.Random(seed)
    out = []
    for _ in range(sessions):
        out += session(rng, **kw)
    return out


def wide(rng):
    """Many rows; classes named alike, numbers past nine."""
    c = rng.choice(CLASSES).capitalize()
    d = c + "1"
    leaf = rng.choice(["Leaf", c + "11"])
    f, g = rng.sample(REFS, 2)
    up = rng.choice(REFS)
    ty = rng.choice(["bool", "categorical(k=3)"])
    text = "\n\n".join(rng.sample(["class %s\n  x ~ %s" % (leaf, ty), "class %s\n  %s ~ %s" % (c, up, leaf),
                                   "class %s\n  %s ~ %s" % (d, up, leaf),
                                   "class Record\n  %s ~ %s\n  %s ~ %s" % (f, c, g, d)], 4))
    text += "\n\nobserve\n  %s.%s.x as P\n  %s.%s.x as Q\n  from Record\n" % (f, up, g, up)
    val = lambda: str(rng.randrange(2))
    out = ["session model gendb %d" % rng.randrange(10**6), "pclean %s %d 1" % (tok(text), rng.random() < 0.5)]
    n = rng.randint(12, 13)
    out.append("csv %s 0" % tok("\n".join(["P,Q"] + ["%s,%s" % (val(), val()) for _ in range(n)]) + "\n"))
    for _ in range(4):
        if rng.random() < 0.5:
            out.append("row %d 1 P %s Q %s" % (n, val(), val()))
            n += 1
        else:
            k, r = rng.choice([(c, up), (d, up), ("Record", f), ("Record", g)])
            out.append("transref %s %s ?%d" % (k, r, rng.randrange(14)))
    return out


def gen_wide(seed, sessions=2):
    rng = random.Random(seed)
    return [l for _ in range(sessions) for l in wide(rng)]


def table(rng, s, n):
    """A table of n rows, each with something in it."""
    cols = list(s.fields) + (["Other"] if rng.random() < 0.3 else [])
    rng.shuffle(cols)
    rows = []
    while len(rows) < n:
        r = ",".join("u" if c == "Other" else "" if rng.random() < 0.15 else s.value(c) for c in cols)
        if r.strip(","):
            rows.append(r)
    return "\n".join([",".join(cols)] + rows) + "\n"


def gen_cli(seed, sessions=10):
    """The pclean program."""
    rng = random.Random(seed)
    out = []
    for _ in range(sessions):
        s = Schema(rng, rng.random() < 0.4)
        out += ["session model gendb %d" % rng.randrange(10**6), s.line()]
        for _ in range(2):
            held = tok(table(rng, s, rng.randint(0, 2))) if rng.random() < 0.6 else "-"
            out.append("pcli %d %d %d %d %d %s %s" % (
                rng.randrange(1000), rng.choice([0, 1, 2, 3]), rng.choice([1, 1, 2]), rng.random() < 0.8, rng.choice([0, 1, 3]),
                tok(table(rng, s, rng.randint(1, 5))), held))
        out.append("pclibad %s %s" % (tok(table(rng, s, 2)), rng.choice([
            "--schema=@s --obs=@d --samples=2", "--schema=@snowhere --obs=@d", "--schema=@s --obs=@dnowhere", "--schema=@s --obs=@d --iters=x",
            "--schema=@s --obs=@d --nope", "--schema=@d --obs=@d", "--schema=@s --obs=@d --heldout=@dnowhere"])))
    return out
