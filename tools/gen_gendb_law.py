"""Laws: models drawn from the prior, data and all, keep its law under every kernel."""
import random

from gen_io import tok

# schema text, fields that are seen, references of the record class, of other classes, depth of the longest path
SCHEMAS = {
    "one": ("class City\n  n ~ bool\n  x ~ categorical(k=3)\n\nclass Obs\n  name ~ bool\n  Home ~ City\n\n"
            "observe\n  name as F1\n  Home.n as F2\n  from Obs\n",
            ["F1", "F2"], [("Obs", "Home")], [["Obs Home"]]),
    "two": ("class City\n  Age ~ categorical(k=3)\n  n ~ bool\n\nclass Obs\n  name ~ bool\n  Home ~ City\n  Work ~ City\n\n"
            "observe\n  name as F1\n  Home.n as F2\n  Work.Age as F3\n  from Obs\n",
            ["F1", "F2", "F3"], [("Obs", "Home"), ("Obs", "Work")], [["Obs Home"], ["Obs Work"]]),
    "deep": ("class State\n  s ~ bool\n\nclass City\n  n ~ bool\n  st ~ State\n\nclass Obs\n  name ~ bool\n  Home ~ City\n\n"
             "observe\n  name as F1\n  Home.n as F2\n  Home.st.s as F3\n  from Obs\n",
             ["F1", "F2", "F3"], [("Obs", "Home")], [["Obs Home", "City st"]]),
    "diamond": ("class State\n  s ~ bool\n\nclass City\n  n ~ bool\n  st ~ State\n\nclass Obs\n  Home ~ City\n  born ~ State\n\n"
                "observe\n  Home.n as F2\n  Home.st.s as F3\n  born.s as F4\n  from Obs\n",
                ["F2", "F3", "F4"], [("Obs", "Home"), ("Obs", "born")], [["Obs Home", "City st"]]),
    "twice": ("class State\n  s ~ bool\n\nclass City\n  n ~ bool\n  st ~ State\n\nclass Obs\n  Home ~ City\n  Work ~ City\n\n"
              "observe\n  Home.st.s as F2\n  Work.n as F3\n  from Obs\n",
              ["F2", "F3"], [("Obs", "Home"), ("Obs", "Work")], [["Obs Home", "City st"], ["Obs Work", "City st"]]),
    # no noise on the numbers: see F3
    "real": ("class City\n  n ~ bool\n  x ~ real\n\nclass Obs\n  v ~ real\n  Home ~ City\n\n"
             "observe\n  v as F1\n  Home.n as F2\n  from Obs\n",
             ["F1", "F2"], [("Obs", "Home")], [["Obs Home"]]),
    "words": ("class City\n  w ~ stringcat(strings=\"a b\")\n  n ~ bool\n\nclass Obs\n  v ~ bool\n  Home ~ City\n\n"
              "observe\n  v as F1\n  Home.n as F2\n  from Obs\n",
              ["F1", "F2"], [("Obs", "Home")], [["Obs Home"]]),
}


def laws(rng, which, k):
    text, fields, refs, paths = SCHEMAS[which]
    rows = rng.choice([3, 4]) if len(refs) == 1 else 2
    allrefs = ["%s %s" % r for r in refs]
    out = ["session model gendb %d" % rng.randrange(10**6),
           "pclean %s %d %d" % (tok(text), rng.random() < 0.5, which == "real" or rng.random() < 0.5)]
    for _ in range(2):
        steps = ["samples %d 0" % rows]
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < 0.5:
                steps.append("transall Obs")
            elif r < 0.8:
                c, f = rng.choice(refs)
                steps.append("transref %s %s %d" % (c, f, rng.randrange(rows)))
            elif r < 0.9:
                steps.append("gibbsall @%s" % rng.choice(fields))
            else:
                steps.append("hgibbsall")
        if not any(s.startswith("trans") for s in steps):
            steps.append("transall Obs")
        p = rng.choice(paths)
        same = [x for x in allrefs if SCHEMAS_CLASS[which].get(x) == SCHEMAS_CLASS[which].get(p[0])]
        q = rng.random()
        if q < 0.6 or len(p) == 1 and q < 0.8:
            cells = [(x, i) for x in same for i in range(rows)]
            rng.shuffle(cells)
            what = "refs " + " ".join("%s %d" % c2 for c2 in sorted_cells(cells[:4]))
        else:
            what = "meet " + " ".join(p)
        out.append("law %d %s | %s" % (k, " | ".join(steps), what))
    return out


SCHEMAS_CLASS = {w: {} for w in SCHEMAS}
for w in SCHEMAS:
    SCHEMAS_CLASS[w] = {"Obs Home": "City", "Obs Work": "City", "Obs born": "State", "City st": "State"}


def sorted_cells(cells):
    return [("%s" % c, i) for c, i in sorted(cells)]


def gen(seed, per, reps):
    rng = random.Random(seed)
    out = []
    for which in rng.sample(list(SCHEMAS), min(per, len(SCHEMAS))):
        out += laws(rng, which, reps)
    return out
