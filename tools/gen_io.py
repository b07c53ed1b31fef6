"""Scripts about files: schemas and observations as text, save and load."""
import random
import urllib.parse

import gen_model
from gen_model import CLEAN, NOISE, Rel


def tok(s):
    """One script token for any text."""
    return urllib.parse.quote(s, safe="~(),=;:.+-_[]<>'\"") if s else "%"


NAMES = ["x", "a1", "7", "007", "e.2", "-", "North", "b_c", "O'Neil", "q\"r", "~", "#1", "new_D0_1", "irm=0", "a|b",
         "\xc3\xa9t\xc3\xa9", "0", "D0", "A", "(", "k=v", "*"]
SPACED = ["New York", " lead", "trail ", "a  b", "\t"]


def dist_text(rng, d):
    """A distribution with its parameters, in one of the ways to write them."""
    if "(" not in d:
        return d
    name, args = d[:-1].split("(", 1)
    out = []
    for p in args.split(","):
        k, v = p.split("=", 1)
        if k == "strings":
            v = v.replace(";", " ")
        if k == "delim":
            v = " "
        if not v.isdigit() or rng.random() < 0.3:
            q = rng.choice("'\"")
            v = q + v + q
        out.append("%s%s=%s%s" % (k, rng.choice(["", " "]), rng.choice(["", " "]), v))
    return name + rng.choice(["", " "]) + "[" + (", " if rng.random() < 0.5 else ",").join(out) + "]"


class World:
    """A schema and consistent observations, by entity name."""

    def __init__(self, rng, names=NAMES, per=6, kinds=None, fixed=False):
        self.rng = rng
        g = gen_model.Gen(rng, True, nrel=(2, 6), noisy=0.55, chain=True, dists=kinds)
        self.rels = g.rels
        # A domain's name may be a number, or look like a word of the saved form.
        # (The reader of schemas wants a word in the first place.)
        first = {r.doms[0] for r in self.rels}
        new = {d: rng.choice(["irm", "_", "D_0"] if d in first else ["0", "1", "7", "12"])
               if rng.random() < (0.1 if d in first else 0.4) else d for d in g.doms}
        if len(set(new.values())) == len(new):
            for r in self.rels:
                r.doms = [new[d] for d in r.doms]
            g.doms = [new[d] for d in g.doms]
        self.doms = g.doms
        self.ents = {d: rng.sample(names, rng.randint(2, min(5, len(names)))) for d in self.doms}
        kids = {r: [n for n in self.rels if n.kind == "noisy" and n.base is r] for r in self.rels}
        # Which relations have observations: every noisy leaf; others by chance;
        # a base whose noisy relation has tuples it lacks stays latent.
        self.obs = {}
        for r in reversed(self.rels):
            if not kids[r]:
                if r.kind == "noisy" or rng.random() < 0.9:
                    self.obs[r.name] = {}
            elif rng.random() < 0.4:
                self.obs[r.name] = {}
        for r in self.rels:       # bases come first
            if r.name not in self.obs:
                continue
            o = self.obs[r.name]
            anc = self.observed_base(r)
            for _ in range(rng.randint(1, per)):
                x = tuple(rng.choice(self.ents[d]) for d in r.doms)
                if anc is not None:
                    bx = rng.choice(sorted(self.obs[anc.name]))
                    x = bx + x[len(bx):]
                if x not in o:
                    o[x] = self.value(r)

    def observed_base(self, r):
        while r.kind == "noisy":
            r = r.base
            if r.name in self.obs:
                return r
        return None

    def value(self, r):
        b = r
        while b.kind == "noisy":
            b = b.base
        v = urllib.parse.unquote(gen_model.value(self.rng, r.vt, b.dist)) if r.vt == "string" else \
            gen_model.value(self.rng, r.vt, b.dist)
        return "" if v == "%" else v

    def schema(self):
        rng = self.rng
        lines = []
        for r in self.rels:
            sp = lambda: rng.choice(["", " ", "  ", "\t"])
            head = r.name + sp() + "~" + sp() + dist_text(rng, r.dist) + sp() + "(" + sp()
            if r.kind == "noisy":
                head += r.base.name + sp() + ";" + sp()
            lines.append(head + ("," + sp()).join(r.doms) + sp() + ")" + rng.choice(["", "", "  # about " + r.name]))
        rng.shuffle(lines)
        for _ in range(rng.randint(0, 2)):
            lines.insert(rng.randrange(len(lines) + 1), rng.choice(["", "# a comment ~ [", "   ", "#"]))
        return "\n".join(lines) + rng.choice(["", "\n"])

    def observations(self):
        rows = [",".join((v, r) + x) for r, o in self.obs.items() for x, v in o.items()]
        self.rng.shuffle(rows)
        return "\n".join(rows) + self.rng.choice(["", "\n"])

    def heldout(self):
        """New tuples of known entities, one per clean relation."""
        rng = self.rng
        known = {}
        for r in self.rels:
            for x in self.obs.get(r.name, {}):
                for d, e in zip(r.doms, x):
                    known.setdefault(d, set()).add(e)
        rows = []
        for r in self.rels:
            if r.kind != "clean" or r.name not in self.obs or rng.random() < 0.3:
                continue
            x = tuple(rng.choice(sorted(known[d])) for d in r.doms)
            if x not in self.obs[r.name]:
                rows.append(",".join((self.value(r), r.name) + x))
        return "\n".join(rows) + "\n" if rows else None


def moves(rng, w, hier, n):
    out = []
    names = [r.name for r in w.rels]
    for _ in range(n):
        r = rng.choice(names)
        c = ["gibbsall @%s" % r, "infer 1"]
        if hier:
            c += ["hgibbs %s" % r, "hset %s %s" % (r, gen_model.table(rng)), "hset %s %s" % (r, gen_model.table(rng))]
        out.append(rng.choice(c))
    return out


def session(rng, names=NAMES):
    while True:
        w = World(rng, names)
        if any(w.obs.values()):
            break
    hier = rng.random() < 0.7
    out = ["session model %s %d" % ("hirm" if hier else "irm", rng.randrange(10**6)),
           "load %s %s" % (tok(w.schema()), tok(w.observations()))]
    out += moves(rng, w, hier, 3)
    h = w.heldout()
    if h:
        out.append("heldout %s" % tok(h))
    if names is NAMES:
        out.append("saveload")
        out += moves(rng, w, hier, 2)
        if rng.random() < 0.5:
            out.append("saveload")
    if hier:
        out.append("samplewrite %d" % rng.choice([0, 1, 2, 4]))
        # generated strings may hold commas (a listed finding)
        if not any(r.vt == "string" and r.dist[:9] != "stringcat" for r in w.rels):
            out.append("readback")
    return out


def gen(seed, sessions=12):
    rng = random.Random(seed)
    out = []
    for k in range(sessions):
        out += session(rng, NAMES if k % 4 else NAMES[:6] + SPACED)
    return out


def gen_cli(seed, sessions=10):
    """The command line program: from scratch, and from saved clusters."""
    rng = random.Random(seed)
    out = []
    for _ in range(sessions):
        while True:
            w = World(rng, NAMES)
            if any(w.obs.values()):
                break
        hier = rng.random() < 0.7
        out += ["session model %s %d" % ("hirm" if hier else "irm", rng.randrange(10**6)),
                "load %s %s" % (tok(w.schema()), tok(w.observations()))]
        h = w.heldout()
        held = lambda: tok(h) if h and rng.random() < 0.8 else "-"
        out.append("cli %d %d %d - %s" % (rng.randrange(1000), rng.choice([1, 2, 5]), rng.choice([0, 2]) if hier else 0, held()))
        for _ in range(rng.randint(1, 2)):
            out += moves(rng, w, hier, 3)
            out += ["saveload", "cli %d 0 %d saved %s" % (rng.randrange(1000), rng.choice([0, 0, 2]) if hier else 0, held())]
        if rng.random() < 0.5:
            out.append("cli %d %d 0 saved %s" % (rng.randrange(1000), rng.choice([1, 3]), held()))
        out.append("clibad " + rng.choice(["--mode=rim @", "--iters=0", "--iters=0 @missing", "--iters=x @", "--load=@nowhere @",
                                           "--heldout=@nowhere @"]))
    return out


# ----- readers on their own -----
def mangle(rng, s):
    """A small change to a text: mostly no longer in the language."""
    k = rng.randrange(5)
    lines = s.split("\n")
    j = rng.randrange(len(lines))
    l = lines[j]
    if k == 0 and l:
        p = rng.randrange(len(l))
        l = l[:p] + l[p + 1:]
    elif k == 1:
        p = rng.randint(0, len(l))
        l = l[:p] + rng.choice("~()[];=,.x7'\"# $@|") + l[p:]
    elif k == 2:
        l = l[:rng.randint(0, len(l))]
    elif k == 3 and l:
        p = rng.randrange(len(l))
        l = l[:p] + rng.choice("~()[];=,.x7'\"#") + l[p + 1:]
    elif k == 4:
        w = l.split(" ")
        rng.shuffle(w)
        l = " ".join(w)
    lines[j] = l
    return "\n".join(lines)


LEX = ["a", "b1", "_x", "12", "1.5", "1_000", ".", "..5", "~", "(", ")", "[", "]", "{", "}", "<", ">", ",", ":", ";", "=",
       "+", "*", "-", "/", "'s t'", '"d # q"', "''", '"\'"', "#", " ", "  ", "\t", "5e", "e5", "@", "$", "'", '"', "\\", "!", "A:b",
       "\x7f", "\xe9", "%"]


def tokens(rng):
    return "tokens %s" % tok("".join(rng.choice(LEX) for _ in range(rng.randint(0, 9))))


def hschema(rng):
    s = World(rng).schema()
    if rng.random() < 0.7:
        s = mangle(rng, s)
    return "schema %s" % tok(s)


CELL = ["", "", "a", "b c", " x", "1.5", "y ", "z\t", "\"q\"", "#", "ab-c", "'", "long cell with many words"]


def csv(rng):
    n = rng.randint(1, 4)
    cols = rng.sample(["A", "Long name", "x1", "y z", "c", "D"], n)
    ragged = rng.random() < 0.25
    rows = []
    for _ in range(rng.randint(0, 5)):
        m = n if not ragged or rng.random() < 0.7 else max(1, n + rng.choice([-1, 1, 2]))
        rows.append(",".join(rng.choice(CELL) for _ in range(m)))
    end = rng.choice(["\n", "\n", "\r\n"])
    if end == "\r\n":
        rows = [r for r in rows if r] if n > 1 else rows
    given = rng.random() < 0.3
    head = [",".join(cols)] if not given else []
    if head and rng.random() < 0.15:
        head[0] += rng.choice([" ", ","])
    if end == "\n" and rng.random() < 0.2:
        (head + rows) and rows.insert(rng.randint(0, len(rows)), "")
    s = end.join(head + rows) + rng.choice(["", end])
    if given:
        return "csv %s %s" % (tok(s), ",".join(c.replace(" ", "") for c in cols))
    return "%s %s" % (rng.choice(["csv", "csv", "csvfile"]), tok(s))


JOINTS = ["bool", "real", "string", "typo_int", "typo_nat", "typo_real", "categorical(k=5)", "categorical(k = 3)",
          "stringcat(strings=\"a b c\")", "stringcat(strings='x y', delim=' ')", "real()", "Name2(a=1)"]


def ptext(rng):
    classes = ["Record", "City", "State", "Doc"][:rng.randint(1, 4)]
    out = []
    vs = {}
    for k, c in enumerate(classes):
        body = []
        vs[c] = []
        for v in rng.sample(["name", "x", "y2", "zip_code"], rng.randint(1, 3)):
            body.append("%s%s%s~%s%s" % (rng.choice(["  ", "", "\t"]), v, rng.choice(["", " "]), rng.choice(["", " "]), rng.choice(JOINTS)))
            vs[c].append(v)
        for d in classes[k + 1:]:
            if rng.random() < 0.6:
                body.append("  %s ~ %s" % (d.lower(), d))
                vs[c].append(d.lower())
        rng.shuffle(body)
        if rng.random() < 0.3:
            body.insert(rng.randint(0, len(body)), rng.choice(["  # comment", "   ", " # x ~ y"]))
        out.append("\n".join(["class " + c + rng.choice(["", "  # first"])] + body))
    rng.shuffle(out)
    q = ["observe"]
    for j in range(rng.randint(1, 4)):
        path = [rng.choice(["city", "name", "x", "state"]) for _ in range(rng.randint(1, 3))]
        q.append("  %s as F%d" % (".".join(path), j))
    q.insert(rng.randint(1, len(q)), "  from Record")
    out.insert(rng.choice([0, len(out), len(out)]), "\n".join(q))
    return rng.choice(["", "\n", "# head\n\n"]) + "\n\n".join(out) + rng.choice(["", "\n", "\n\n"])


def pschema(rng):
    s = ptext(rng)
    if rng.random() < 0.6:
        s = mangle(rng, s)
    return "pschema %s" % tok(s)


def align(rng):
    a = "".join(rng.choice("ab c") for _ in range(rng.randint(0, 4)))
    b = "".join(rng.choice("abx") for _ in range(rng.randint(0, 4)))
    if rng.random() < 0.4:
        b = mangle(rng, a)[:4]
    c = rng.choice(["1 1 1 0", "1 1 1 0", "1 2 1.5 0", "0.5 0.25 2 0.125", "3 1 1 0.5"])
    return "align %d %s %s %s" % (rng.choice([1, 1, 2, 3, 10, 50, 1000]), tok(a), tok(b), c)


READERS = {"tokens": tokens, "schema": hschema, "csv": csv, "pschema": pschema, "align": align}


def gen_readers(seed, n, kinds):
    rng = random.Random(seed)
    out = []
    for k in range(n):
        if k % 25 == 0:
            out.append("session io")
        out.append(READERS[kinds[k % len(kinds)]](rng))
    return out
