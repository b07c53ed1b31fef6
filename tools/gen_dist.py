"""Scripts for sessions on one distribution or emission (DistTrace)."""
import random


def enc(s):
    """One script token: percent-encoded, '%' alone for the empty string."""
    if s == "":
        return "%"
    return "".join(c if c.isascii() and c.isprintable() and c not in " %#" else
                   "".join("%%%02x" % b for b in c.encode("latin-1")) for c in s)


WORDS = ["yes", "no", "maybe", "", "yes!", "yell"]
TEXT = ["", "a", "ab", "abc", "hello", "hello world", "~", "aaaa", "a b", "ABba", "%#!", "zz~ z"]
DIGITS = ["", "0", "7", "42", "00501", "94110", "9999999"]


class Dist:
    def __init__(self, spec, values, probes, extra="", nearest=(), sets=(), hists=(), theta=False, draws=True,
                 weights=True, seeds=1000):
        self.__dict__.update(locals())


def num_values(rng):
    return lambda: repr(rng.choice([rng.gauss(0, 1), rng.gauss(5, 3), float(rng.randrange(-3, 4)), rng.gauss(0, 40)]))


def ints(lo, hi):
    return [str(i) for i in range(lo, hi)]


def dists(rng):
    nv = num_values(rng)
    k = rng.choice([1, 2, 3, 5, 9])
    words = rng.sample(WORDS, rng.choice([1, 2, 3, 5]))
    delim = rng.choice([" ", ":", ";"])
    if words == [""]:
        words = ["", "x"]
    small = rng.choice([2, 3, 4])
    hi = "abcd"[rng.choice([1, 2])]
    mk = lambda: "".join(rng.choice("ab" if hi == "b" else "abc") for _ in range(rng.randrange(0, small + 1)))
    mx = rng.choice([3, 6])
    bins = "-2.5 -1 -0.3 0 0.4 1.1 2.2 4"
    nonneg = [0.25, 0.5, 1, 1.5, 2, 3]
    fs = lambda n: " ".join(str(rng.choice([0.1, 0.5, 1, 2, 3.75])) for _ in range(n))
    return {
        "bernoulli": Dist("bernoulli", ["0", "1"], ["0", "1"], sets=[lambda: fs(2)], hists=["sample", "hyper"]),
        "categorical": Dist("categorical(k=%d)" % k, ints(0, k), ints(0, k), nearest=ints(-3, k + 3),
                            sets=[lambda: fs(1)], hists=["sample", "hyper"]),
        "stringcat": Dist("stringcat(strings=%s,delim=%s)" % (delim.join(words), delim) if delim != " " or
                          rng.random() < 0.5 else "stringcat(strings=%s)" % " ".join(words),
                          words, words, nearest=["ye", "nope", "xyz", "", "m", "yess", "yes!!", "yesyes"],
                          sets=[lambda: fs(1)], hists=["sample", "hyper"]),
        "normal": Dist("normal", nv, [nv() for _ in range(3)], sets=[lambda: "%s %s %s %s" % (
            rng.choice([.1, 1, 2.5]), rng.choice([.5, 1, 2, 5]), rng.choice([-1, 0, .7]), rng.choice([.5, 1, 2]))],
                       nearest=["1.5", "-3"], hists=["samplebin " + bins, "hyper"]),
        "zmn": Dist("zmn", nv, [nv() for _ in range(3)], sets=[lambda: fs(2)], hists=["hyper"], draws=True),
        "skellam": Dist("skellam", lambda: str(rng.choice([0, 1, -1, rng.randrange(-12, 13), rng.randrange(-90, 90)])),
                        ints(-3, 4), sets=[lambda: fs(2)], hists=["sample", "hyper", "inittheta"], theta=True,
                        draws=True, weights=True),
        "string_skellam": Dist("string_skellam", lambda: str(rng.randrange(-6, 7)), ints(-3, 4),
                               hists=["sample", "hyper", "inittheta"], theta=True),
        "string_normal": Dist("string_normal", lambda: repr(round(rng.gauss(0, 3), 2)), ["0", "1.25", "-2.5"],
                              hists=["samplebin " + bins, "hyper"]),
        "bigram": Dist("bigram", TEXT, TEXT[:5], sets=[lambda: fs(1)], nearest=["abc", "x" * 90, ""]),
        "bigram_max": Dist("bigram(maxlength=%d)" % mx, [t for t in TEXT if len(t) <= mx], ["", "a", "ab"],
                           nearest=["abcdefgh", "", "ab"], sets=[lambda: fs(1)]),
        "smallbigram": Dist("bigram3", mk, list({mk() for _ in range(4)}), extra="%d a %s" % (small, hi),
                            sets=[lambda: fs(1)], hists=["hyper", "sample"]),
        "string_nat": Dist("string_nat", DIGITS, DIGITS[:5], nearest=["a1b2", "", "123", "-5", "9" * 25],
                           sets=[lambda: fs(1)], hists=["hyper"]),
        "string_nat_max": Dist("string_nat(maxlength=2)", ["", "1", "23", "09"], ["", "1", "23", "5"],
                               nearest=["a1b2c3", "777"], sets=[lambda: fs(1)], hists=["hyper", "sample"]),
    }


def dist_session(rng, name, d, steps, histk):
    out = ["session dist dist %s %d%s" % (enc(d.spec), rng.randrange(d.seeds), " " + d.extra if d.extra else "")]
    out.append("probes " + " ".join(enc(p) for p in d.probes))
    val = d.values if callable(d.values) else (lambda: rng.choice(d.values))
    bag = []
    sane = True     # the rates of a Skellam are moderate
    for _ in range(steps):
        r = rng.random()
        if r < 0.40:
            x = val()
            if d.weights and rng.random() < 0.25:
                w = rng.choice(["0.5", "0.25", "2", "3", "1.5", "0.125"])
                bag.append((x, w))
                out.append("inc %s %s" % (enc(x), w))
            else:
                bag.append((x, None))
                out.append("inc %s" % enc(x))
        elif r < 0.62 and bag:
            x, w = bag.pop(rng.randrange(len(bag)))
            out.append("uninc %s%s" % (enc(x), " " + w if w else ""))
        elif r < 0.70 and d.draws and sane:
            out.append("draw %d" % rng.choice([1, 3]))
        elif r < 0.76 and d.nearest:
            out.append("nearest %s" % enc(rng.choice(list(d.nearest))))
        elif r < 0.82 and d.sets:
            out.append("set " + rng.choice(d.sets)())
            sane = True
        elif r < 0.87:
            out.append("hyper")
            if name in ("zmn", "normal"):   # tiny shapes: samples beyond the range of doubles
                sane = False
        elif r < 0.91 and d.theta:
            out.append(rng.choice(["theta", "theta", "inittheta"]))
            sane = False
        elif r < 0.91 + histk[1] and d.hists:
            c = rng.choice(d.hists)
            if c.startswith("sample") and not sane:
                continue
            if c == "hyper" and len(bag) > 14:
                continue
            out.append("hist %d %s" % (histk[0], c))
    return out


def unwind(rng, name, d):
    """Incorporate, take everything back in another order, and end with nothing."""
    out = ["session dist dist %s %d%s" % (enc(d.spec), rng.randrange(d.seeds), " " + d.extra if d.extra else "")]
    out.append("probes " + " ".join(enc(p) for p in d.probes))
    val = d.values if callable(d.values) else (lambda: rng.choice(d.values))
    bag = [val() for _ in range(rng.choice([1, 4, 9]))]
    out += ["inc " + enc(x) for x in bag]
    rng.shuffle(bag)
    out += ["uninc " + enc(x) for x in bag]
    out.append("hyper")
    return out


# ----- emissions -----
class Em:
    def __init__(self, spec, pair, probes, clean, hists, extra="", groups=(), weights=False, many=None, draws=True):
        self.__dict__.update(locals())


def garbled(rng, s):
    s = list(s)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        r = rng.random()
        p = rng.randrange(len(s) + 1)
        if r < 0.4:
            s.insert(p, rng.choice("abz Q~"))
        elif s and r < 0.7:
            del s[min(p, len(s) - 1)]
        elif s:
            s[min(p, len(s) - 1)] = rng.choice("abz Q~")
    return "".join(s)


def emissions(rng):
    b = lambda: (rng.choice("01"), rng.choice("01"))
    bn = lambda: (lambda c: (c, "1" if c == "0" else "0"))(rng.choice("01"))
    g = lambda: (lambda c: (repr(c), repr(c + rng.gauss(0, 2))))(round(rng.gauss(0, 3), 2))
    sg = lambda: g() if rng.random() < 0.6 else (lambda x: (x, x))(repr(round(rng.gauss(0, 3), 2)))
    k = rng.choice([2, 3, 5])
    c = lambda: (str(rng.randrange(k)), str(rng.randrange(k)))
    cn = lambda: (lambda a: (str(a), str((a + rng.randrange(1, k)) % k)))(rng.randrange(k))
    cneq = lambda: cn() if rng.random() < 0.6 else (lambda x: (x, x))(str(rng.randrange(k)))
    txt = ["", "a", "ab", "abc", "cat", "hello", "a b c", "aaaa"]
    st = lambda: (lambda t: (t, garbled(rng, t)))(rng.choice(txt))
    alltext = lambda: garbled(rng, rng.choice(txt))
    cats = [(str(a), str(b_)) for a in range(k) for b_ in range(k)]
    bins = "-3 -1.5 -0.5 0 0.5 1.5 3"
    return {
        "identity": Em("identity_int", lambda: (lambda x: (x, x))(str(rng.randrange(-3, 9))), [("1", "1"), ("-4", "-4")],
                       ["0", "5", "-2"], ["corrupt"], many=lambda: str(3)),
        "bitflip": Em("bitflip", bn, [("0", "1"), ("1", "0")], ["0", "1"], ["corrupt"],
                      many=lambda: "1"),
        "sometimes_bitflip": Em("sometimes_bitflip", b, [("0", "0"), ("0", "1"), ("1", "0"), ("1", "1")], ["0", "1"],
                                ["corrupt"], groups=["0 2"], weights=True, many=lambda: rng.choice("01")),
        "gaussian": Em("gaussian", g, [("0", "0.5"), ("2", "-1"), ("1", "1")], ["0", "2.5"], [], groups=["0 2"],
                       weights=True, many=lambda: repr(round(rng.gauss(0, 3), 1))),
        "sometimes_gaussian": Em("sometimes_gaussian", sg, [("0", "0.5"), ("2", "-1"), ("1", "1")], ["0", "2.5"], [],
                                 groups=["0 2", "2 4"], weights=True,
                                 many=lambda: rng.choice(["1", "2.5", "-3"])),
        "categorical": Em("categorical", c, cats, ints(0, k), ["corrupt"], extra=str(k),
                          groups=["%d %d" % (j, j + 1) for j in range(k)], weights=True,
                          many=lambda: str(rng.randrange(k))),
        "sometimes_categorical_neq": Em("sometimes_categorical_neq", cneq, cats, ints(0, k), [], extra=str(k),
                                        groups=["0 2"] + ["%d %d" % (j, j + 1) for j in range(2, k + 2)], weights=True,
                                        many=lambda: str(rng.randrange(k))),
        "sometimes_categorical": Em("sometimes_categorical(k=%d)" % k, c, cats, ints(0, k), ["corrupt"],
                                    many=lambda: str(rng.randrange(k))),
        "simple_string": Em("simple_string", st, [st() for _ in range(3)], ["", "ab", "cat", "a b"],
                            ["corrupt", "corruptlen"], groups=["0 2", "2 4", "4 6"], weights=True,
                            many=alltext),
        "bigram": Em("bigram", st, [st() for _ in range(2)], ["", "ab", "cat"], [], many=alltext),
    }


def em_session(rng, name, e, steps, histk):
    out = ["session dist emission %s %d%s" % (enc(e.spec), rng.randrange(1000), " " + e.extra if e.extra else "")]
    out.append("probes " + " ".join(enc(x) for p in e.probes for x in p))
    bag = []
    sane = True
    for _ in range(steps):
        r = rng.random()
        if r < 0.40:
            x = e.pair()
            w = rng.choice(["0.5", "0.25", "2", "1.5"]) if e.weights and rng.random() < 0.25 else None
            bag.append((x, w))
            out.append("inc %s %s%s" % (enc(x[0]), enc(x[1]), " " + w if w else ""))
        elif r < 0.60 and bag:
            x, w = bag.pop(rng.randrange(len(bag)))
            out.append("uninc %s %s%s" % (enc(x[0]), enc(x[1]), " " + w if w else ""))
        elif r < 0.68 and sane:
            out.append("draw %s %d" % (enc(rng.choice(e.clean)), rng.choice([1, 3])))
        elif r < 0.78:
            if name in ("identity", "bitflip"):
                v = [e.many()] * rng.choice([1, 3])
            elif rng.random() < 0.3:
                v = [e.many()] * rng.choice([1, 2, 4])
            else:
                v = [e.many() for _ in range(rng.choice([1, 2, 3, 5, 8]))]
            out.append("propose " + " ".join(enc(x) for x in v))
        elif r < 0.84:
            out.append("hyper")
            # after this, draws may be endlessly long or beyond the range of doubles
            sane = sane and "gaussian" not in name and name != "simple_string"
        elif r < 0.84 + histk[1]:
            c = rng.choice(list(e.hists) + (["hyper"] if e.groups else []) or [None])
            if c is None or (c.startswith("corrupt") and not sane):
                continue
            if c == "hyper":
                c += " " + rng.choice(e.groups)
            elif c.startswith("corrupt"):
                c += " " + enc(rng.choice(e.clean))
            out.append("hist %d %s" % (histk[0], c))
    return out


def gen(seed, rounds, steps=24, hist=(1500, 0.05), which=None):
    rng = random.Random(seed)
    out = []
    for _ in range(rounds):
        for name, d in dists(rng).items():
            if which and name not in which:
                continue
            out += dist_session(rng, name, d, steps, hist)
            out += unwind(rng, name, d)
        for name, e in emissions(rng).items():
            if which and "e:" + name not in which:
                continue
            out += em_session(rng, name, e, steps, hist)
    return out


def gen_hist(seed, rounds, k):
    """Few operations, then every random operation's frequencies."""
    rng = random.Random(seed)
    out = []
    for _ in range(rounds):
        for name, d in dists(rng).items():
            val = d.values if callable(d.values) else (lambda: rng.choice(d.values))
            for h in d.hists:
                out.append("session dist dist %s %d%s" % (enc(d.spec), rng.randrange(d.seeds),
                                                          " " + d.extra if d.extra else ""))
                if d.sets and (rng.random() < 0.5 or name == "skellam"):
                    out.append("set " + rng.choice(d.sets)())
                for _ in range(rng.choice([0, 1, 3, 7])):
                    out.append("inc " + enc(val()))
                out.append("hist %d %s" % (k, h))
        for name, e in emissions(rng).items():
            hs = list(e.hists) + ["hyper " + g for g in e.groups]
            for h in hs:
                out.append("session dist emission %s %d%s" % (enc(e.spec), rng.randrange(1000),
                                                              " " + e.extra if e.extra else ""))
                for _ in range(rng.choice([0, 2, 5])):
                    x = e.pair()
                    out.append("inc %s %s" % (enc(x[0]), enc(x[1])))
                if h.startswith("corrupt"):
                    for c in rng.sample(list(e.clean), min(2, len(e.clean))):
                        out.append("hist %d %s %s" % (k, h, enc(c)))
                else:
                    out.append("hist %d %s" % (k, h))
        out.append("session dist emission bigram 1")
        for c in ["", "a", "ab"]:
            out.append("hist %d corrupt %s" % (k, enc(c)))
    return out
