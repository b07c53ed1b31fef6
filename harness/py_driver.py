#!/usr/bin/python3
"""Drives the Python implementation (src/hirm.py) with the scripts of the C++ driver and writes the same trace lines.

py_driver.py SCRIPT OUT [JOBS] [TIMEOUT]; REPO names the tree.  One process per session.
"""
import base64
import contextlib
import copy
import json
import multiprocessing
import os
import random
import re
import signal
import sys
import tempfile
import traceback
import urllib.parse

sys.dont_write_bytecode = True
SEED = int(os.environ.get("VERIF_SEED", "1"))
HIST_SEED = int(os.environ.get("HIST_SEED", str(SEED)))
hirm = util_io = None


def load_package():
    """src/ of the tree, as a package, without writing anything there."""
    global hirm, util_io
    import importlib.util
    src = os.path.join(os.environ.get("REPO", "/repo"), "src")
    spec = importlib.util.spec_from_file_location("pyhirm", os.path.join(src, "__init__.py"), submodule_search_locations=[src])
    m = importlib.util.module_from_spec(spec)
    sys.modules["pyhirm"] = m
    spec.loader.exec_module(m)
    import pyhirm.hirm as h
    import pyhirm.util_io as u
    hirm, util_io = h, u


class BadOp(Exception):
    pass


def num(x):
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    if x == 0:
        return "0"
    for p in range(1, 18):
        s = "%.*g" % (p, x)
        if float(s) == x:
            return s
    return "nan"


def ints(s):
    return [] if s == "-" else [int(w) for w in s.split(",")]


def bit(v):
    return "1" if v else "0"


# ----- the projection -----
def jdomain(d, irm_id, rels):
    return {"irm": irm_id, "name": d.name, "items": sorted(d.items), "assign": sorted([i, z] for i, z in d.crp.assignments.items()),
            "tables": sorted([z, sorted(s)] for z, s in d.crp.tables.items()), "n": d.crp.N, "alpha": num(d.crp.alpha),
            "score": num(d.crp.logp_score()), "rels": sorted(rels)}


def jrelation(name, doms, r, irm_id):
    rev = [[dn, e, sorted(list(x) for x in xs)] for dn in sorted(r.data_r) for e, xs in sorted(r.data_r[dn].items())]
    cl = [{"z": list(z), "d": {"hyp": [num(c.alpha), num(c.beta)], "n": num(c.N), "score": num(c.logp_score())}}
          for z, c in sorted(r.clusters.items())]
    return {"name": name, "irm": irm_id, "doms": list(doms), "obs": True, "objdoms": [d.name for d in r.domains],
            "data": [[list(x), bit(v)] for x, v in sorted(r.data.items())], "rev": rev, "kind": "clean", "cl": cl,
            "score": num(r.logp_score())}


def jirm(m, k, out):
    for dn in sorted(m.domains):
        out["doms"].append(jdomain(m.domains[dn], k, m.domain_to_relations.get(dn, [])))
    for rn in sorted(m.relations):
        out["rels"].append(jrelation(rn, m.schema[rn], m.relations[rn], k))
    out["irms"].append({"id": k, "rels": sorted(m.relations), "schema": sorted(m.schema), "score": num(m.logp_score())})


def jmodel(m):
    out = {"kind": "irm", "score": num(m.logp_score()), "b2n": [], "doms": [], "rels": [], "irms": []}
    if isinstance(m, hirm.IRM):
        jirm(m, 0, out)
        return out
    for k in sorted(m.irms):
        jirm(m.irms[k], k, out)
    out.update(kind="hirm", where=sorted([r, t] for r, t in m.crp.assignments.items()),
               tables=sorted([z, sorted(s)] for z, s in m.crp.tables.items()), n=m.crp.N, schema=sorted(m.schema),
               ncodes=len(m.crp.assignments), alpha=num(m.crp.alpha))
    return out


# ----- the plotting tools -----
def untok(s):
    return "" if s == "%" else urllib.parse.unquote(s)


def load_plots():
    """The modules of py/, and matplotlib, with figures kept instead of drawn."""
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.setdefault("MPLCONFIGDIR", tempfile.gettempdir())
    sys.path.insert(0, os.path.join(os.environ.get("REPO", "/repo"), "py"))
    import hirm_io
    import make_plots
    import matplotlib.figure

    def savefig(fig, f, **kw):
        FIGS.append(jfigure(fig))
        f.write(b"figure %d" % (len(FIGS) - 1))
    matplotlib.figure.Figure.savefig = savefig
    PLOTS.update(io=hirm_io, main=make_plots.main)


FIGS, PLOTS = [], {}


def jfigure(fig):
    ax = fig.axes[0]
    rows = {y: l.get_text() for y, l in zip(ax.get_yticks(), ax.get_yticklabels())}
    cols = {x: l.get_text() for x, l in zip(ax.get_xticks(), ax.get_xticklabels())}
    m = ax.images[0].get_array()
    m = m.filled(float("nan")) if hasattr(m, "filled") else m
    h, v = [], []
    for l in ax.lines:
        xs, ys = ([float(a) for a in q] for q in (l.get_xdata(), l.get_ydata()))
        (h if ys[0] == ys[1] else v).append([num((ys if ys[0] == ys[1] else xs)[0]), "%s/%s" % (l.get_color(), l.get_linewidth())])
    return {"rows": [rows.get(k, "") for k in range(m.shape[0])], "cols": [cols.get(k, "") for k in range(m.shape[1])],
            "cells": [["" if x != x else num(x) for x in q] for q in m.tolist()], "h": h, "v": v}


def plots_op(t, o):
    a = o["args"] = [untok(w) for w in t[1:]]
    with tempfile.TemporaryDirectory() as d:
        def path(k):
            p = os.path.join(d, str(k))
            with open(p, "w") as f:
                f.write(a[k])
            return p
        o["how"] = "ok"
        try:
            if t[0] == "pschema":
                o["got"] = [[n, r.name, r.distribution, sorted([k, v] for k, v in r.parameters.items()), list(r.domains)]
                            for n, r in PLOTS["io"].load_schema(path(0)).items()]
            elif t[0] == "pobs":
                o["got"] = [[r.relation, list(r.items), r.value] for r in PLOTS["io"].load_observations(path(0))]
            elif t[0] == "pclusters":
                o["got"] = [[c.cluster_id, list(c.relations), [[x.cluster_id, x.domain, list(x.entities)] for x in c.domain_clusters]]
                            for c in PLOTS["io"].load_clusters(path(0))]
            elif t[0] == "plots":   # schema (empty: none), observations, clusters
                html = os.path.join(d, "html")
                sys.argv = ["make_plots.py", "--observations=" + path(1), "--clusters=" + path(2), "--output=" + html] + (
                    ["--schema=" + path(0)] if a[0] else [])
                FIGS.clear()
                PLOTS["main"]()
                with open(html) as f:
                    text = f.read()
                o["page"] = []
                for k, irm, rel, fig in re.findall(r"(<h1>IRM #([^<]*)</h1>|<h2>([^<]*)</h2>|<img [^>]*base64,([A-Za-z0-9+/=]*)[^>]*>)", text):
                    if fig:
                        o["page"].append(["fig", FIGS[int(base64.b64decode(fig).split()[1])]])
                    else:
                        o["page"].append(["irm", irm] if k.startswith("<h1") else ["rel", rel])
            else:
                raise BadOp(t[0])
        except BadOp:
            raise
        except (Exception, SystemExit):
            o["how"] = "refused"
            o["what"] = traceback.format_exc()[-300:]


# ----- one object under test -----
class Session:
    def __init__(self, args):
        self.hier = args[0] == "hirm"
        self.prng = random.Random(0)
        self.decl, self.m = {}, None
        self.given = True     # the model has been given prng to draw from

    def irm_arg(self, s):
        if not s.startswith("@"):
            return int(s)
        return self.m.relation_to_table(s[1:]) if self.hier else 0

    def irm(self, k):
        return self.m.irms[k] if self.hier else self.m

    def rel(self, r):
        return self.m.relation(r) if self.hier else self.m.relations[r]

    @staticmethod
    def table_arg(s, crp, item):
        """?k: the k-th table item is not at, the last of which is a new one; none: -1."""
        cur = crp.assignments[item]
        c = [t for t in sorted(crp.tables_weights_gibbs(cur)) if t != cur]
        if s == "new":
            c = [t for t in c if t not in crp.tables]
            return c[0] if c else -1
        if s.startswith("="):
            t = crp.assignments[int(s[1:]) if not isinstance(item, str) else s[1:]]
            return t if t != cur else -1
        if not s.startswith("?"):
            return int(s) if int(s) != cur else -1
        return c[int(s[1:]) % len(c)] if c else -1

    def exec(self, t, o):
        """Performs an operation; says whether the state is to be logged."""
        op, m = t[0], self.m
        if op in ("gibbs", "gibbsdom", "gibbsall", "setitem", "exact", "transalpha", "setalpha", "has"):
            o["irm"] = self.irm_arg(t[1])
            v = self.irm(o["irm"])
        if op in ("schema", "spec"):
            if t[2:4] != ["clean", "bernoulli"]:
                raise BadOp(t)
            o["spec"] = {"kind": "clean", "dist": "bernoulli", "args": [], "obs": True, "base": "", "doms": t[5].split(",")}
            self.decl[t[1]] = tuple(t[5].split(","))
            return False
        if op == "build":
            self.m = (hirm.HIRM if self.hier else hirm.IRM)({r: self.decl[r] for r in self.decl}, prng=self.prng)
        elif op == "inc":
            m.incorporate(t[1], tuple(ints(t[2])), int(t[3]))
        elif op == "gibbs":
            v.transition_cluster_assignment_item(t[2], int(t[3]))
        elif op == "gibbsdom":
            v.transition_cluster_assignments(t[2].split(","))
        elif op == "gibbsall":
            v.transition_cluster_assignments()
        elif op == "setitem":
            d, e = v.domains[t[2]], int(t[3])
            z = o["table"] = self.table_arg(t[4], d.crp, e)
            if z >= 0:
                for r in v.domain_to_relations[t[2]]:
                    if v.relations[r].has_observation(d, e):
                        v.relations[r].set_cluster_assignment_gibbs(d, e, z)
                d.set_cluster_assignment_gibbs(e, z)
        elif op == "exact":
            d, e = v.domains[t[2]], int(t[3])
            w = d.tables_weights_gibbs(e)
            o["tables"] = [[z, num(x)] for z, x in w.items()]
            o["exact"] = [[r, [num(x) for x in v.relations[r].logp_gibbs_exact(d, e, list(w))]]
                          for r in sorted(v.domain_to_relations[t[2]]) if v.relations[r].has_observation(d, e)]
        elif op == "hgibbs":
            m.transition_cluster_assignment_relation(t[1])
        elif op == "hgibbsall":
            m.transition_cluster_assignments()
        elif op == "hset":
            z = o["table"] = self.table_arg(t[2], m.crp, t[1])
            if z >= 0:
                m.set_cluster_assignment_gibbs(t[1], z)
        elif op == "addrel":
            m.add_relation(t[1], self.decl[t[1]])
        elif op == "rmrel":
            m.remove_relation(t[1])
        elif op == "transalpha":
            o["grid"] = 30
            v.domains[t[2]].crp.transition_alpha()
        elif op == "transalphas":   # of every domain, and of the relations
            o["grid"] = 30
            for v in (m.irms.values() if self.hier else [m]):
                v.transition_crp_alphas()
            if self.hier:
                m.transition_crp_alpha()
        elif op == "setalpha":
            v.domains[t[2]].crp.alpha = float(t[3])
        elif op == "rlogp":
            o["lp"] = num(self.rel(t[1]).logp(tuple(ints(t[2])), int(t[3])))
        elif op == "logp":
            o["lp"] = num(m.logp([(t[k], tuple(ints(t[k + 1])), int(t[k + 2])) for k in range(1, len(t), 3)]))
        elif op == "pyjson":        # to a dictionary, to text and back
            to, fr = (util_io.to_dict_HIRM, util_io.from_dict_HIRM) if self.hier else (util_io.to_dict_IRM, util_io.from_dict_IRM)
            self.m = fr(json.loads(json.dumps(to(m))), prng=self.prng)
            self.given = True
        elif op == "pyagain":       # the same operation twice, from the same generator
            o["got"] = []
            for j in range(2):
                c = copy.deepcopy(self, {id(random): random})
                c.prng.seed(5)
                random.seed(j if self.given else 5)
                c.outcome(t[1:])
                o["got"].append(json.dumps(jmodel(c.m), sort_keys=True))
            return False
        elif op == "pysave":        # to the text formats and back
            with tempfile.TemporaryDirectory() as d:
                p = [os.path.join(d, f) for f in ("s", "o", "c")]
                sch = {r: (self.rel(r).domains, self.rel(r).data) for r in m.schema}
                with open(p[0], "w") as f:
                    f.writelines("bernoulli %s %s\n" % (r, " ".join(x.name for x in ds)) for r, (ds, _) in sch.items())
                with open(p[1], "w") as f:
                    f.writelines("%d %s %s\n" % (x, r, " ".join(map(str, e))) for r, (_, xs) in sch.items() for e, x in xs.items())
                (util_io.to_txt_hirm if self.hier else util_io.to_txt_irm)(p[2], m)
                with open(p[2]) as f:
                    o["saved"] = f.read()
                random.seed(self.prng.random())
                self.given = False
                self.m = (util_io.from_txt_hirm if self.hier else util_io.from_txt_irm)(*p)
        else:
            raise BadOp(op)
        return True

    def outcome(self, t):
        if t[0] == "sweep":         # everything that draws: new entities, moves, concentrations
            for r in sorted(self.m.schema):
                for e in (900, 901, 902):
                    self.m.incorporate(r, (e,) * len(self.rel(r).domains), e % 2)
            self.m.transition_cluster_assignments()
            for v in (self.m.irms.values() if self.hier else [self.m]):
                v.transition_cluster_assignments()
                v.transition_crp_alphas()
            return ""
        self.exec(t, {})
        if t[0] == "gibbs":
            return str(self.irm(self.irm_arg(t[1])).domains[t[2]].crp.assignments[int(t[3])])
        if t[0] in ("hgibbs", "addrel"):
            return str(self.m.relation_to_table(t[1]))
        if t[0] == "inc":
            r, x = self.rel(t[1]), tuple(ints(t[2]))
            return "%s@%s" % (bit(r.data[x]), ",".join(map(str, r.get_cluster_assignment(x))))
        raise BadOp(t[0])


def run_block(job):
    n, line0, lines, path, timeout = job
    signal.alarm(timeout)
    s = None
    with open(path, "w") as f:
        for k, text in enumerate(lines):
            t = text.split()
            o = {"op": t[0], "ses": n, "line": line0 + k}
            f.write("#%d\n" % (line0 + k))
            f.flush()
            log = True
            try:
                if t[0] == "session":
                    o.update(kind="model", args=t[2:])
                    s = Session(t[2:]) if t[1] == "model" else None
                    log = False
                elif s is None:
                    with contextlib.redirect_stdout(None):
                        plots_op(t, o)
                elif t[0] == "hist":
                    h = {}
                    for j in range(int(t[1])):
                        c = copy.deepcopy(s, {id(random): random})
                        c.prng.seed(hash((HIST_SEED, line0 + k, j)))
                        r = c.outcome(t[2:])
                        h[r] = h.get(r, 0) + 1
                    o.update(k=int(t[1]), args=t[2:], hist=sorted([a, b] for a, b in h.items()))
                    log = False
                else:
                    s.prng.seed(hash((SEED, line0 + k)))
                    o["args"] = t[1:]
                    log = s.exec(t, o)
                o["ok"] = True
                if log and s is not None and s.m is not None:
                    o["st"] = jmodel(s.m)
            except BadOp as e:
                traceback.print_exc()
                f.write("!badop\n")
                return
            except Exception as e:
                f.write(json.dumps({"op": "crash", "ses": n, "line": line0 + k, "text": text,
                                    "what": "exception: %s" % traceback.format_exc()[-600:]}) + "\n")
                return
            f.write(json.dumps(o, separators=(",", ":")) + "\n")
        f.write("#done\n")


def main():
    script, out = sys.argv[1:3]
    jobs, timeout = (int(x) for x in (sys.argv[3:] + ["8", "120"][len(sys.argv) - 3:]))
    blocks = []
    for n, line in enumerate(open(script).read().split("\n"), 1):
        if line.startswith("session "):
            blocks.append((n, []))
        if line:
            blocks[-1][1].append(line)
    if any(b[1][0].startswith("session model") for b in blocks):
        load_package()
    if any(b[1][0].startswith("session plots") for b in blocks):
        load_plots()
    ctx = multiprocessing.get_context("fork")
    rc = 0
    with tempfile.TemporaryDirectory() as d, open(out, "w") as f:
        todo = [(k + 1, b[0], b[1], os.path.join(d, str(k)), timeout) for k, b in enumerate(blocks)]
        running = []
        for j in todo:
            while len(running) >= jobs:
                running.pop(0).join()
            p = ctx.Process(target=run_block, args=(j,))
            p.start()
            running.append(p)
        for p in running:
            p.join()
        for j in todo:
            last, done = j[1], False
            for l in open(j[3]) if os.path.exists(j[3]) else []:
                if l.startswith("#done"):
                    done = True
                elif l.startswith("!badop"):
                    rc = 3
                elif l.startswith("#"):
                    last = int(l[1:])
                else:
                    done = done or l.startswith('{"op": "crash"')
                    f.write(l)
            if not done and rc == 0:
                f.write(json.dumps({"op": "crash", "ses": j[0], "line": last, "what": "died or ran out of time",
                                    "text": j[2][last - j[1]]}) + "\n")
    return rc


sys.exit(main())
