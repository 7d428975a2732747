"""Shared plumbing of the checks: building, running TLC, reporting."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(ROOT, "build"))
WORK = os.environ.get("MC_WORK", os.path.join(ROOT, "work"))
EVID = os.path.join(ROOT, "evidence")
SPEC = os.path.join(ROOT, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class Broken(Exception):
    """the machinery itself failed (neither 'held' nor 'violated')"""


def build(*targets):
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CC="gcc", CXX="g++")
    log = os.path.join(BUILD, "build_%s.log" % targets[0])
    with open(log, "w") as o:
        for cmd in (["cmake", "-S", os.path.join(ROOT, "harness"), "-B", BUILD, "-G", "Ninja",
                     "-DMC_REPO=" + REPO],
                    ["ninja", "-C", BUILD, *targets]):
            r = subprocess.run(cmd, stdout=o, stderr=subprocess.STDOUT, env=env)
            if r.returncode:
                o.flush()
                raise Broken("build failed: %s\n%s" % (" ".join(cmd), open(log).read()[-3000:]))
    return [os.path.join(BUILD, t) for t in targets]


def workdir(name, clean=True):
    d = os.path.join(WORK, name)
    if clean and os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d, exist_ok=True)
    return d


HUNG = [0]


def run(cmd, timeout=60, cwd=None, env=None, inp=None):
    """-> (rc, stdout+stderr); rc None on timeout.  After some runs that did
    not end, others are given less time."""
    if HUNG[0] >= 4 and timeout <= 200:
        timeout = min(timeout, 20)
    e = dict(os.environ)
    e.setdefault("OPENCV_LOG_LEVEL", "SILENT")
    e.setdefault("OPENCV_FOR_THREADS_NUM", "1")
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=e,
                           timeout=timeout, input=inp)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        HUNG[0] += 1
        return None, (x.stdout or b"").decode("utf8", "replace")


def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or CORES) as ex:
        return list(ex.map(f, xs))


class Tlc:
    """result of one TLC run"""

    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if not m:
            m = re.findall(r"([\d,]+) states checked", out)
            self.generated = int(m[-1].replace(",", "")) if m else 0
            self.distinct = self.generated
        self.invariant = None
        m = re.search(r"Error: Invariant (\S+) is violated", out)
        if m:
            self.invariant = m.group(1)
        m = re.search(r"Error: Action property (\S+)|Error: Temporal properties were violated", out)
        if m and not self.invariant:
            self.invariant = m.group(1) or "temporal"

    def prints(self, tag):
        """JSON values printed as  <tag> <json>  with PrintT(<<"tag", ToJson(x)>>)"""
        r = []
        for m in re.finditer(r'^<<"%s", "(.*)">>$' % re.escape(tag), self.out, re.M):
            r.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        return r


def tlc(module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap="4g", name=None, ok=(0,)):
    """run TLC on spec/<module>.tla; raises Broken if TLC itself fails"""
    meta = workdir("tlc_%s_%d_%d" % (name or module, os.getpid(), random.randrange(10**9)))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss32m", "-cp", CP, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg or module + ".cfg"),
           *extra, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        rc, out = run(cmd, timeout=timeout, cwd=SPEC, env={k: str(v) for k, v in (env or {}).items()})
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Tlc(rc, out, time.time() - t0)
    if rc is None:
        raise Broken("TLC timed out on %s\n%s" % (module, out[-2000:]))
    if rc not in ok:
        raise Broken("TLC failed on %s (rc %s)\n%s" % (module, rc, out[-6000:]))
    return r


def to_ndjson(path, recs):
    with open(path, "w") as o:
        for r in recs:
            o.write(json.dumps(r, separators=(",", ":")) + "\n")


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self.rng = random.Random("%s/%d" % (pid, SEED))

    def violation(self, what, replay):
        os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
        p = os.path.join(WORK, "replays", "%s_%d.json" % (self.pid, len(self.violations)))
        with open(p, "w") as o:
            json.dump(dict(property=self.pid, what=what, replay=replay), o, indent=1, default=str)
        if len(self.violations) < 8:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  " + str(what)[:600])
        self.violations.append(what)
        sys.stdout.flush()

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=self.coverage, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EVID, self.pid + ".json"), "w") as o:
            json.dump(ev, o, indent=1, default=str)
        c = {k: v for k, v in self.coverage.items() if isinstance(v, (int, float))}
        print("%s %s %s wall=%.1fs" % (self.pid, "VIOLATED" if self.violations else "held", c, ev["wall_s"]))
        return 1 if self.violations else 0
