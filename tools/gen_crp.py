"""Scripts for CRP / Domain sessions."""
import random


def _session(rng, dom, n_items, steps, hist_k, seq):
    """One random history over a small set of items."""
    out = ["session crp " + ("domain" if dom else "bare")]
    present = set()
    for _ in range(steps):
        r = rng.random()
        items = list(range(n_items))
        absent = [x for x in items if x not in present]
        if r < 0.35 and absent:
            x = rng.choice(absent)
            out.append("join %d" % x)
            present.add(x)
        elif r < 0.47 and absent:
            x = rng.choice(absent)
            out.append("seat %d %d" % (x, rng.choice([0, 1, 2, 3, 5, 17])))
            present.add(x)
        elif r < 0.52 and present and dom:
            out.append("join %d" % rng.choice(sorted(present)))
        elif r < 0.66 and present:
            x = rng.choice(sorted(present))
            out.append("leave %d" % x)
            present.discard(x)
        elif r < 0.74 and present and not dom:
            x = rng.choice(sorted(present))
            out.append("move %d %d" % (x, rng.choice([0, 1, 2, 4, 9])))
        elif r < 0.80:
            out.append("alpha %s" % rng.choice(["0.1", "0.5", "1", "2.75", "13", "0.001"]))
        elif r < 0.83:
            out.append("transalpha")
        else:
            out.append("query")
            if rng.random() < hist_k[1]:
                k = hist_k[0]
                c = rng.choice(["sample", "sample", "joinwhere", "transalpha"])
                if c == "joinwhere":
                    if not absent:
                        continue
                    c += " %d" % rng.choice(absent)
                if c == "transalpha" and not present:
                    continue
                out.append("hist %d %s" % (k, c))
    out.append("query")
    return out


def gen(seed, sessions, steps=40, hist=(1500, 0.05), big=True):
    rng = random.Random(seed)
    out = []
    for s in range(sessions):
        n = rng.choice([1, 2, 3, 4, 6, 9])
        out += _session(rng, s % 2 == 0, n, steps, hist, s)
    if big:  # many customers, negative and large ids, far-apart tables
        out.append("session crp domain")
        ids = [-7, 0, 5, 123456789, 2147483647] + list(range(100, 160))
        for x in ids:
            out.append("join %d" % x)
        out.append("query")
        for x in ids[:20]:
            out.append("leave %d" % x)
        out.append("query")
        out.append("hist 3000 sample")
        out.append("hist 3000 transalpha")
    if big and seed % 3 == 0:  # one crowded table, seats on far tables, with the scores read on the way
        out.append("session crp bare")
        crowd = rng.choice([45, 52, 60])
        main = rng.choice([0, 3, 17])
        for x in range(crowd):
            out.append("seat %d %d" % (x, main if rng.random() < 0.95 else rng.choice([1, 40, 1000000])))
            if x % 15 == 14:
                out.append("query")
        out.append("alpha %s" % rng.choice(["0.1", "2.75", "40"]))
        out.append("transalpha")
        out.append("query")
        for x in rng.sample(range(crowd), 5):
            out.append("leave %d" % x)
        out.append("query")
        out.append("hist 1500 sample")
    return out
