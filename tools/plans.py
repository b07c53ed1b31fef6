"""Which suites and which labelled requirements decide each property."""
import core
import gen_crp
import gen_dist
import gen_gendb
import gen_gendb_law
import gen_hirm_law
import gen_io
import gen_model
import gen_plots
import gen_py
from checklib import Suite

THOROUGH = core.TIER == "thorough"
S = core.SEED * 1000
LEVEL = {}


def n(quick, thorough=None):
    return (thorough if thorough is not None else quick * 8) if THOROUGH else quick


# ----- suites -----
def crp(k=8):
    return Suite("crp", "CrpTrace", [gen_crp.gen(S + j, 14, hist=(1500, 0.03)) for j in range(n(k))])


def dist(k=8, rounds=2, **kw):
    return Suite("dist", "DistTrace", [gen_dist.gen(S + j, rounds, **kw) for j in range(n(k))])


def dist_hist(k=4):
    return Suite("dist-hist", "DistTrace", [gen_dist.gen_hist(S + 50 + j, 1, 1500) for j in range(n(k))])


def model(k=8, sessions=7, steps=40, weights=None, name="model", **kw):
    return Suite(name, "HirmTrace", [gen_model.gen(S + 100 + j, sessions, steps, weights, **kw) for j in range(n(k))])


def grow(k=4):
    return Suite("grow", "HirmTrace", [gen_model.gen(S + 200 + j, 8, 30, gen_model.GROW, final=True, order=j % 2 == 0)
                                       for j in range(n(k))])


def sweep(k=4):
    return Suite("sweep", "HirmTrace", [gen_model.gen(S + 300 + j, 8, 30, gen_model.SWEEP, final=True, order=j % 2 == 0)
                                        for j in range(n(k))])


def model_hist(k=6, kinds=None, per=4):
    kw = dict(kinds=kinds) if kinds else {}
    return Suite("model-hist", "HirmTrace", [gen_model.gen_hist(S + 400 + j, per, **kw) for j in range(n(k))])


def lat_hist(k=4, per=6):
    return Suite("latent-hist", "HirmTrace", [gen_model.gen_lat_hist(S + 450 + j, per) for j in range(n(k))])


def files(k=4, sessions=20):
    return Suite("files", "HirmTrace", [gen_io.gen(S + 500 + j, sessions) for j in range(n(k))])


def cli(k=4, sessions=15):
    return Suite("cli", "HirmTrace", [gen_io.gen_cli(S + 600 + j, sessions) for j in range(n(k))])


def readers(kinds, k=2, m=1500):
    return Suite("readers", "IoTrace", [gen_io.gen_readers(S + 700 + j, m, kinds) for j in range(n(k))])


def gendb(k=8, sessions=25, name="gendb", **kw):
    return Suite(name, "GenDbTrace", [gen_gendb.gen(S + 800 + j, sessions, **kw) for j in range(n(k))])


def pcli(k=4, sessions=20):
    return Suite("pclean-cli", "GenDbTrace", [gen_gendb.gen_cli(S + 900 + j, sessions) for j in range(n(k))])


def wide(k=4, sessions=2):
    return Suite("gendb-wide", "GenDbTrace", [gen_gendb.gen_wide(S + 950 + j, sessions) for j in range(n(k))])


def gendb_laws(k=8, reps=7000, per=4):
    return Suite("gendb-laws", "GenDbTrace", [gen_gendb_law.gen(S + 1000 + j, per, n(reps)) for j in range(k)])


def laws(kernels, k=4, reps=15000, per=6, what=None):
    return Suite("laws", "HirmTrace", [gen_hirm_law.gen(S + 1100 + j, per, n(reps), kernels, what) for j in range(k)])


def small(*names, limit=6000):
    """Models explored exhaustively: (schema, observations at most, transitions at most)."""
    quick = {"pair": 2, "noise": 3, "chain": 3, "cross": 2, "self": 2, "three": 2}
    deep = {"pair": 4, "noise": 4, "chain": 5, "cross": 3, "self": 3, "three": 3}
    return [(x, (deep if THOROUGH else quick)[x], limit * 20 if THOROUGH else limit) for x in names]


def python(k=5, sessions=8):
    return Suite("python", "HirmTrace", [gen_py.gen(S + 1200 + j, sessions) for j in range(n(k))], py=True)


def python_hist(k=3, sessions=3):
    return Suite("python-hist", "HirmTrace", [gen_py.gen_hist(S + 1250 + j, sessions) for j in range(n(k))], py=True)


def plots(k=6, pages=150, files=300):
    return Suite("plots", "PlotTrace", [gen_plots.gen(S + 1300 + j, pages, files) for j in range(n(k))], py=True)


# ----- labels -----
MC = ["mc.state"]
CRP_SEAT = ["crp.tables", "crp.count", "crp.items", "crp.frame", "crp.seat", "crp.init", "dom.tables", "dom.items",
            "ent.items"]
CRP_NUM = ["crp.init", "crp.grid", "crp.weights", "crp.gibbs", "crp.logp", "crp.score", "crp.sample", "crp.alphahist",
           "score.dom", "ent.hist"]
REL = ["rel.decl", "rel.rev", "rel.clusters", "rel.keep", "rel.update"]
SCORE = ["score.dom", "score.cluster", "score.rel", "score.irm", "score.model"]
ENT = ["ent.has", "ent.hist", "ent.inc", "ent.items", "ent.uninc", "dom.rels", "dom.tables", "dom.items"]
GIBBS = ["gibbs.move", "gibbs.keep", "gibbs.weights", "gibbs.exact", "gibbs.hist", "gibbs.frame"]
PRED = ["pred.frame", "pred.joint", "pred.single", "pred.cluster"]
PART = ["part.views", "part.doms", "part.rels", "part.build", "part.add", "part.remove", "part.move", "part.keep"]
NOISY = ["noisy.base", "noisy.pairs", "noisy.b2n", "noisy.live"]
LATENT = ["latent.frame", "latent.cand", "latent.weights", "latent.hist"]
DIST = ["dist.n", "dist.score", "dist.logp", "dist.finite", "dist.norm", "dist.init", "dist.frame", "dist.chain",
        "dist.sampleframe", "dist.support", "dist.nearest", "dist.sample", "emit.proper"]
EMIT = ["emit.propose", "emit.same", "emit.sample", "emit.proper", "dist.support"]
HYPER = ["hyper.frame", "hyper.grid", "hyper.hist", "alpha.frame", "crp.grid", "crp.alphahist"]
GEN = ["gen.frame", "gen.rel", "gen.value", "gen.count", "gen.hist"]

SAVE = ["io.saved", "io.restored", "io.fresh", "cli.restored"]
TEXT = ["io.schema", "io.observed", "io.obs", "io.encoding", "io.encode", "io.stored", "io.values", "io.write",
        "io.readback", "io.merge", "io.heldout", "io.tokens", "io.refuse"]
CSV = ["csv.refuse", "csv.read", "csv.write", "csv.back"]
ALIGN = ["align.ok", "align.count", "align.valid", "align.distinct", "align.cheapest"]
CLI = ["cli.ok", "cli.same", "cli.valid", "cli.restored", "cli.heldout", "cli.refuse", "cli.frame"]

GENDB = ["gdb.refs", "gdb.walk", "gdb.live", "gdb.obs", "gdb.score", "gdb.frame"]
ROW = ["row.keep", "row.based", "row.unique"]
REF = ["ref.move", "ref.data", "ref.seats", "ref.frame", "ref.keep", "ref.rows"]
PCLI = ["pcli.ok", "pcli.same", "pcli.saved", "pcli.heldout", "pcli.samples", "pcli.refuse", "pc.samples", "pc.saved"]
PYTHON = ["alpha.frame", "py.dict", "py.again", "py.saved", "py.restored"]
PLOTS = ["plot.schema", "plot.obs", "plot.clusters", "plot.page", "plot.unary", "plot.binary"]
LAWS = ["law.views", "law.ents", "law.pair"]

PLANS = {}


def plan(f):
    PLANS[f.__name__] = f
    return f


@plan
def C01(r):
    r.build()
    r.suite(crp(), CRP_SEAT)
    r.suite(model(4), CRP_SEAT)


@plan
def C02(r):
    r.build()
    r.suite(crp(), CRP_NUM)


@plan
def C03(r):
    r.build()
    r.mc(small("cross", "self", "pair"), REL + NOISY + MC)
    r.suite(model(), REL + NOISY)


@plan
def C04(r):
    r.build()
    r.mc(small("pair", "self", "noise"), SCORE)
    r.suite(model(5), SCORE)
    r.suite(grow(3), SCORE)


@plan
def C05(r):
    r.build()
    r.mc(small("cross", "pair"), ENT + MC)
    r.suite(model(), ENT)
    r.suite(model_hist(2, ["inc"], 8), ENT)


@plan
def C06(r):
    r.build()
    r.mc(small("pair", "self", "noise"), GIBBS + MC, ("exact",))
    r.suite(model(4, weights={"gibbs": 20, "exact": 14, "setitem": 20}), GIBBS)
    r.suite(model_hist(4, ["gibbs"]), GIBBS)
    r.suite(laws(["gibbs"]), LAWS)


@plan
def C07(r):
    r.build()
    r.mc(small("cross", "three", "self"), PRED, ("pred",))
    r.suite(model(6, weights={"preds": 30}), PRED)
    r.suite(grow(2), PRED)


@plan
def C08(r):
    r.build()
    r.mc(small("chain", "three", "noise"), PART + NOISY + MC)
    r.suite(model(6, hier=True, weights={"hset": 20, "addrel": 8, "rmrel": 8}), PART + NOISY)
    r.suite(sweep(2), PART + NOISY)


@plan
def C09(r):
    r.build()
    own = ["part.hist", "part.addhist", "part.move", "part.add"]
    r.suite(model(2, hier=True, weights={"hgibbs": 20}), own)
    r.suite(model_hist(6, ["hgibbs", "addrel"], 5), own)
    r.suite(laws(["hgibbs"]), LAWS)


@plan
def C10(r):
    r.build()
    r.mc(small("noise", "chain", "self"), NOISY + ["rel.update"] + MC)
    r.suite(model(8, noisy=0.8), NOISY + ["rel.update"])


@plan
def C11(r):
    r.build()
    own = LATENT + NOISY + ["infer.data"]
    r.mc(small("noise", "chain"), own, ("latent",))
    r.suite(model(5, noisy=0.8, weights={"latent1": 20, "latents": 8, "inclogp": 8}), own)
    r.suite(model_hist(2, ["latent1"], 6), own)
    r.suite(lat_hist(), own)


@plan
def C12(r):
    r.build()
    r.suite(dist(), DIST)
    r.suite(dist_hist(), DIST)
    r.known(Suite("F1", "DistTrace", [[
        "session dist emission simple_string 1", "probes % a"]]), ["emit.proper.simple_string"],
        "emit.proper.simple_string",
        "F1: simple_string gives changed characters probability above one (log 95 added, not subtracted)")
    r.known(Suite("F3", "DistTrace", [[
        "session dist dist zmn 1", "set 2 1", "inc 3", "inc -2", "inc 4", "inc 3.5",
        "hist 3000 samplebin -6 -3 -1.5 0 1.5 3 6"]]), ["dist.sample"], "dist.sample",
        "F3: samples of the zero-mean normal have too large a variance")


@plan
def C13(r):
    r.build()
    r.suite(dist(6), HYPER)
    r.suite(dist_hist(6), HYPER)
    r.suite(model(3, weights={"hyp": 14, "alpha": 14}), HYPER)


@plan
def C14(r):
    r.build()
    em = {"e:" + k for k in ("identity", "bitflip", "sometimes_bitflip", "gaussian", "sometimes_gaussian", "categorical",
                             "sometimes_categorical_neq", "sometimes_categorical", "simple_string", "bigram")}
    own = EMIT + ["dist.n", "dist.score", "dist.logp", "dist.norm", "dist.frame", "dist.chain"]
    r.suite(dist(8, 5, which=em), own)
    r.suite(dist_hist(4), own)


@plan
def C15(r):
    r.build()
    own = GEN + ["ent.inc", "noisy.pairs", "infer.data"]
    r.suite(grow(6), own)
    r.suite(model_hist(3, ["rsample", "hsamplerel"], 5), own)
    r.suite(laws(["again"]), LAWS)


@plan
def C16(r):
    r.build()
    r.suite(files(6), SAVE)
    r.suite(cli(2), SAVE)
    r.known(Suite("F4", "HirmTrace", [[
        "session model irm 1", "load r~normal(D) 1,r,New%20York%0A2,r,x", "saveload"]]), ["io.restored"], "crash",
        "F4: saved clusters cannot be loaded when an entity's name holds a space")


@plan
def C17(r):
    r.build()
    r.suite(files(5), TEXT)
    r.suite(readers(["tokens", "schema"], 3), TEXT)
    r.known(Suite("F5", "HirmTrace", [[
        "session model hirm 1",
        "load " + gen_io.tok("r ~ bigram[max_length=40](D)") + " " + gen_io.tok("a;b;c,r,x\nlong value,r,y"),
        "samplewrite 40", "readback"]]), ["io.readback"], "crash",
        "F5: generated strings with commas are written unquoted, and read back as something else")


@plan
def C18(r):
    r.build()
    own = ["pc.refuse", "pc.schema", "pc.relations", "gdb.walk"]
    r.suite(readers(["pschema"], 3), own)
    r.suite(gendb(5, 30, steps=3), own)


@plan
def C19(r):
    r.build()
    r.suite(gendb(8, 25, moves=0.2, under=0.2), ROW + GENDB)
    r.suite(wide(4), ROW + GENDB)


@plan
def C20(r):
    r.build()
    r.suite(gendb(6, 25), REF + GENDB)
    r.suite(wide(2), REF + GENDB)
    r.suite(gendb_laws(8), ["law.refs", "law.meet"])


@plan
def C22(r):
    r.build()
    r.suite(pcli(8, 25), PCLI)
    r.suite(gendb(3, 20, moves=0.2, under=0.1), PCLI)


@plan
def C21(r):
    r.build()
    r.suite(readers(["csv"], 6), CSV)


@plan
def C23(r):
    r.build()
    r.suite(readers(["align"], 6, 500), ALIGN)


@plan
def C24(r):
    r.build()
    r.suite(cli(8), CLI)


@plan
def C26(r):
    r.build()
    own = ["infer.data", "latent.frame", "hyper.frame", "alpha.frame"] + PART + NOISY + REL + ENT + SCORE
    r.suite(sweep(8), own)
    r.suite(laws(["gibbs", "hgibbs", "again"]), LAWS)


@plan
def C25(r):
    r.no_build()
    own = REL + SCORE + ENT + GIBBS + PRED + PART + PYTHON
    r.suite(python(8, 14), own)
    r.suite(python_hist(), own + ["part.hist", "part.addhist"])


@plan
def C27(r):
    r.no_build()
    r.suite(plots(), PLOTS)
