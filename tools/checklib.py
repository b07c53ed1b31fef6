"""What a check run is made of: suites of driven traces judged by TLC, known findings, evidence."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

import core

EVID = core.VERIF + "/evidence"
PYDRIVER = core.VERIF + "/harness/py_driver.py"
KNOWN = core.VERIF + "/known_findings.txt"


class Suite:
    """A trace specification, the scripts to drive, and how many traces."""

    def __init__(self, name, module, scripts, timeout=300, heap="3g", defs=(), py=False):
        self.name, self.module, self.timeout, self.heap = name, module, timeout, heap
        self.cfg = "GenDbTrace.cfg" if module == "GenDbTrace" else "Trace.cfg"
        self.scripts = scripts      # list of scripts; one TLC run each
        self.defs = tuple(defs)
        self.py = py                # driven by the Python driver


class Failure:
    def __init__(self, label, text, script, detail=""):
        self.label, self.text, self.script, self.detail = label, text, script, detail


def session_of(script, line):
    """The lines of the session that script line number `line` belongs to, up to it."""
    k = line - 1
    while k > 0 and not script[k].startswith("session "):
        k -= 1
    return script[k:line]


class Run:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.work = core.Work()
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.lines = 0
        self.ops = {}
        self.distinct = set()
        self.samples = []
        self.fail = []
        self.notes = []
        self.extra = {}
        self.known_lines = []
        self.assumptions = []
        self.driver = None

    # ----- building -----
    FILES = ["main.cc", "project.cc", "s_crp.cc", "s_dist.cc", "model_dump.cc", "s_model.cc", "pclean_dump.cc", "s_gendb.cc",
             "s_io.cc", "s_misc.cc"]

    def build(self):
        files = [f for f in self.FILES if os.path.exists(core.VERIF + "/harness/" + f)]
        defs = ["-DWITH_" + k.upper() for k in ("gendb", "io", "misc") if "s_%s.cc" % k in files]
        d, err = core.build(self.work, files, defs)
        if d is None:
            raise core.Machinery("the driver does not build against /repo:\n" + err)
        self.driver = d
        core.java_classes(self.work)

    def no_build(self):
        core.java_classes(self.work)

    # ----- traces -----
    def one(self, suite, k, own, seed):
        name = "%s.%d" % (suite.name, k)
        script = suite.scripts[k]
        sp, tp = core.drive(self.work, PYDRIVER if suite.py else self.driver, script, name, jobs=4, timeout=suite.timeout, hist_seed=seed)
        r = core.judge(self.work, suite.module, tp, own, cfg=suite.cfg, name=name, heap=suite.heap)
        return script, tp, r

    def suite(self, suite, own):
        """Drive and judge; returns the failures (confirmed by a second run)."""
        own = sorted(set(own) | {"crash"})
        with cf.ThreadPoolExecutor(8) as ex:
            jobs = [ex.submit(self.one, suite, k, own, core.SEED) for k in range(len(suite.scripts))]
            res = [j.result() for j in jobs]
        for k, (script, tp, r) in enumerate(res):
            self.account(suite, script, tp, r)
            if r["ok"]:
                os.unlink(tp)
                continue
            f = self.failure(suite, script, tp, r)
            # A rejection counts when it happens again from the same history:
            # frequencies are then taken with other random numbers.
            _, tp2, r2 = self.one(suite, k, own, core.SEED + 7919)
            if r2["ok"]:
                self.notes.append("not repeated: " + f.text)
                continue
            self.fail.append(f)
        return self.fail

    def account(self, suite, script, tp, r):
        self.states += r["accepted"] + 1
        self.transitions += r["accepted"]
        self.lines += r["lines"]
        n = sum(1 for s in script if s.startswith("session "))
        self.traces += n if r["ok"] else 0
        for s in script:
            op = s.split(" ", 1)[0]
            if op == "hist":
                op = "hist " + s.split(" ")[2]
            self.ops[op] = self.ops.get(op, 0) + 1
        cur = []
        for s in script + ["session "]:
            if s.startswith("session ") and cur:
                if len(cur) > 2:
                    self.distinct.add(hash("\n".join(cur[1:])))
                cur = []
            cur.append(s)
        if len(self.samples) < 3 and script:
            self.samples.append({"suite": suite.name, "script": session_of(script, min(len(script), 14))[:14]})

    def failure(self, suite, script, tp, r):
        m = re.match(r'"([^"]+)", (\d+)', r["fails"][0]) if r["fails"] else None
        label, line = (m.group(1), int(m.group(2))) if m else ("unmatched", 0)
        if label == "unmatched" or not m:
            # the trace line TLC stopped at
            m2 = re.search(r"line (\d+) of the trace", r["fails"][0]) if r["fails"] else None
            n = int(m2.group(1)) if m2 else 1
            with open(tp) as fh:
                for j, l in enumerate(fh, 1):
                    if j == n:
                        line = json.loads(l).get("line", 0)
                        if '"op":"crash"' in l:
                            label = "crash"
        shown = session_of(script, line) if line else script[:40]
        logged = ""
        with open(tp) as fh:
            for l in fh:
                if '"line":%d,' % line in l:
                    logged = l.strip()[:3000]
        text = "%s: requirement %s fails at script line %d: %s" % (
            suite.name, label, line, shown[-1] if shown else "")
        return Failure(label, text, shown, "logged: %s\nTLC: %s" % (logged, r.get("error", "")[:1500]))

    # ----- known findings -----
    def known(self, suite, own, label, what):
        """A listed finding: a script of its own, which the code is known to fail at `label`."""
        own = sorted(set(own) | {"crash"})
        script, tp, r = self.one(suite, 0, own, core.SEED)
        self.account(suite, script, tp, r)
        if r["ok"]:
            self.notes.append("the known finding no longer fails: " + what)
            return
        f = self.failure(suite, script, tp, r)
        if f.label == label:
            self.known_lines.append("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        else:
            self.fail.append(f)

    # ----- model checking -----
    def mc(self, models, own, kinds=()):
        """Explore small models exhaustively (HirmMC) and have the real code take the transitions of their graphs.
        models: [(schema, observations at most, transitions at most or None)]"""
        import gen_mc
        with cf.ThreadPoolExecutor(4) as ex:
            got = list(ex.map(lambda m: gen_mc.explore(self.work, m[0], m[1]), models))
        scripts = []
        for (name, mo, limit), (g, info) in zip(models, got):
            sessions, done, total = gen_mc.walks(g, core.SEED, limit, kinds=kinds)
            info.update(transitions_replayed=done, transitions_replayable=total)
            self.states += info["distinct"]
            self.transitions += info["generated"]
            self.extra.setdefault("model_checking_runs", []).append(info)
            cur = []
            for x in sessions:
                cur += x
                if len(cur) > 6000:
                    scripts.append(cur)
                    cur = []
            if cur:
                scripts.append(cur)
        return self.suite(Suite("mc", "HirmTrace", scripts), own)

    # ----- result -----
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(
            evaluations=self.lines, distinct_nontrivial=len(self.distinct),
            rule="sessions (an object and a history of operations on it) generated from VERIF_SEED and from TLC's "
                 "exploration of the specification; distinct by script text, non-trivial when they have at least "
                 "two operations",
            states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
            samples=self.samples or [{"note": "none"}], operations=self.ops)
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes[:20]
        ev = dict(property=self.pid, tier=core.TIER, seed=core.SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.fail))
        with open("%s/%s.json" % (EVID, self.pid), "w") as f:
            json.dump(ev, f, indent=1)
        for l in self.known_lines:
            print(l)
        rc = 0
        if self.fail:
            rep = "%s/%s.replay.txt" % (EVID, self.pid)
            with open(rep, "w") as f:
                for x in self.fail:
                    f.write("# %s\n%s\n\n%s\n\n" % (x.text, "\n".join(x.script), x.detail))
            for x in self.fail[:5]:
                print(x.text[:300])
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            rc = 1
        else:
            print("%s: held on %d trace lines of %d sessions, %d states (%.0f s)" %
                  (self.pid, self.lines, self.traces, self.states, time.time() - self.t0))
        self.work.close()
        return rc
