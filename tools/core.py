"""Building the driver, running it, and having TLC judge its trace."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


class Machinery(Exception):
    """The check itself failed (not the code under test)."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


class Work:
    """Scratch directory of one check run."""

    def __init__(self):
        self.dir = os.environ.get("VERIF_WORK") or tempfile.mkdtemp(prefix="verif.")
        self.keep = "VERIF_WORK" in os.environ
        os.makedirs(self.dir, exist_ok=True)
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)


def build(work, files, defs=()):
    """Compile /repo's current sources with the driver.  Returns (driver, None), or
    (None, text) when the code under test does not compile with it."""
    if work.keep and os.path.exists(work.path("b/driver")) and os.environ.get("VERIF_NOBUILD"):
        return work.path("b/driver"), None
    r = run(["bash", VERIF + "/harness/build.sh", work.path("b")] + list(defs) + list(files))
    if r.returncode != 0:
        return None, r.stdout[-4000:]
    return work.path("b/driver"), None


def java_classes(work):
    d = work.path("cls")
    if not os.path.exists(d + "/NumReal.class"):
        os.makedirs(d, exist_ok=True)
        r = run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", d, VERIF + "/java/NumReal.java"])
        if r.returncode != 0:
            raise Machinery(r.stdout)
    return d


def drive(work, driver, script, name="t", jobs=8, timeout=120, hist_seed=None):
    sp, tp = work.path(name + ".script"), work.path(name + ".ndjson")
    with open(sp, "w") as f:
        f.write("\n".join(script) + "\n")
    env = dict(os.environ, VERIF_SEED=str(SEED), HIST_SEED=str(SEED if hist_seed is None else hist_seed))
    r = run([driver, sp, tp, str(jobs), str(timeout)], env=env, cwd=work.dir)
    if r.returncode != 0:
        raise Machinery("driver failed (%d): %s" % (r.returncode, r.stdout[-2000:]))
    return sp, tp


FAIL = re.compile(r'<<"FAIL", (.*)>>')


def tlc(work, module, cfg, env, extra=(), heap="6g", name="tlc", timeout=int(os.environ.get("TLC_TIMEOUT", "840")), workers=1):
    meta = tempfile.mkdtemp(prefix="meta.", dir=work.dir)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-cp", java_classes(work) + ":" + CP, "tlc2.TLC",
           "-config", cfg, "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"] + list(extra) + [module]
    t0 = time.time()
    try:
        r = run(cmd, cwd=VERIF + "/spec", env=dict(os.environ, **env), timeout=timeout)
        out = r.stdout
        rc = r.returncode
    except subprocess.TimeoutExpired as e:
        raise Machinery("TLC timed out after %ds" % timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    with open(work.path(name + ".out"), "w") as f:
        f.write(out)
    return rc, out, time.time() - t0


def judge(work, module, trace, own, cfg="Trace.cfg", name="tlc", extra_env=None, heap="3g"):
    """Returns dict(ok, lines, accepted, fail, out)."""
    n = sum(1 for _ in open(trace))
    env = {"TRACE": os.path.abspath(trace), "OWN": " ".join(own)}
    env.update(extra_env or {})
    rc, out, wall = tlc(work, module + ".tla", cfg, env, name=name, heap=heap)
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    states = int(m.group(2)) if m else 0
    fails = FAIL.findall(out)
    ok = rc == 0 and "Model checking completed. No error" in out and not fails
    res = dict(ok=ok, lines=n, accepted=max(states - 1, 0), fails=fails, rc=rc, wall=wall, out=out)
    if not ok and not fails and rc not in (0,):
        # Either the trace was rejected without a label, or evaluation failed on it.
        res["fails"] = ["\"unmatched\", line %d of the trace" % (max(states, 1))]
        err = re.search(r"Error: (.*(?:\n(?!Error).*){0,12})", out)
        res["error"] = err.group(0)[:1500] if err else out[-1500:]
    return res
