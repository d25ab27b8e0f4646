"""Shared machinery of the checks: build, TLC runs, verdicts, evidence."""

import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")


class MachineryError(Exception):
    """Something of the verification machinery itself failed (exit 2)."""


# --------------------------------------------------------------------------- build
def _src_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "setup.py"), os.path.join(REPO, "pyproject.toml")]
    cpp = os.path.join(REPO, "src", "mssm", "src", "cpp")
    for d, _, fs in sorted(os.walk(cpp)):
        for f in sorted(fs):
            roots.append(os.path.join(d, f))
    for p in roots:
        h.update(p.encode())
        with open(p, "rb") as fh:
            h.update(fh.read())
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".so"):
            h.update(f.encode())
            with open(os.path.join(REPO, "src", f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build():
    """Build the C++ extensions of /repo's current working tree in place (git-ignored output)."""
    stamp = os.path.join(REPO, "build", ".vp_stamp")
    try:
        with open(stamp) as fh:
            if fh.read().strip() == _src_hash():
                return "up-to-date"
    except OSError:
        pass
    r = subprocess.run(
        ["bash", "/opt/vp/build.sh"],
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )
    if r.returncode != 0:
        raise MachineryError("build of /repo failed:\n" + r.stdout[-4000:])
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    with open(stamp, "w") as fh:
        fh.write(_src_hash())
    return "built"


# --------------------------------------------------------------------------- TLA+ values
def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        if not v:
            return "<<>>"
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise TypeError(type(v))


def tla_set(items):
    return "{" + ",\n   ".join(tla(x) for x in items) + "}"


class TLCResult:
    def __init__(self, out, records, states, transitions, ok, wall):
        self.out, self.records, self.states, self.transitions = (
            out,
            records,
            states,
            transitions,
        )
        self.ok, self.wall = ok, wall


def run_tlc(
    module,
    defs=None,
    consts=None,
    init="Init",
    next_="Next",
    spec=None,
    invariants=(),
    properties=(),
    postcondition=None,
    constraint=None,
    view=None,
    extra_body="",
    extends="",
    workers=1,
    files=None,
    timeout=800,
    simulate=None,
    expect_ok=True,
    heap="6g",
):
    """Model check ``module`` (from /verif/spec) through a generated MC module.

    ``defs``: {constant name: TLA+ expression string}. Lines printed by the specification that start
    with "@@" are parsed as JSON records.
    """
    tmp = tempfile.mkdtemp(prefix="vp_tlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), tmp)
        for name, text in (files or {}).items():
            with open(os.path.join(tmp, name), "w") as fh:
                fh.write(text)
        body = [
            f"---- MODULE MC ----",
            f"EXTENDS {module}" + (", " + extends if extends else ""),
        ]
        cfg = []
        for k, expr in (defs or {}).items():
            body.append(f"MC_{k} ==\n   {expr}")
            cfg.append(f"CONSTANT {k} <- MC_{k}")
        for k, expr in (consts or {}).items():
            cfg.append(f"CONSTANT {k} = {expr}")
        body.append(extra_body)
        body.append("====")
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += [f"INIT {init}", f"NEXT {next_}"]
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if view:
            cfg.append(f"VIEW {view}")
        cfg.append("CHECK_DEADLOCK FALSE")
        with open(os.path.join(tmp, "MC.tla"), "w") as fh:
            fh.write("\n".join(body))
        with open(os.path.join(tmp, "MC.cfg"), "w") as fh:
            fh.write("\n".join(cfg) + "\n")
        cmd = [
            "java",
            "-XX:+UseParallelGC",
            f"-Xmx{heap}",
            "-Xss64m",
            "-cp",
            "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
            "tlc2.TLC",
            "-config",
            "MC.cfg",
            "-workers",
            str(workers),
            "-metadir",
            os.path.join(tmp, "meta"),
            "-noGenerateSpecTE",
        ]
        if simulate:
            cmd += simulate
        cmd.append("MC.tla")
        t0 = time.time()
        try:
            r = subprocess.run(
                cmd,
                cwd=tmp,
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                text=True,
                timeout=timeout,
            )
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        wall = time.time() - t0
        records = []
        rest = []
        for line in r.stdout.splitlines():
            if line.startswith('"@@'):
                records.append(json.loads(json.loads(line)[2:]))
            else:
                rest.append(line)
        out = "\n".join(rest)
        m = re.findall(
            r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", "")
        )
        states, trans = (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)
        ok = r.returncode == 0
        if expect_ok and not ok:
            raise MachineryError(
                f"TLC rejected {module} (exit {r.returncode}):\n" + out[-6000:]
            )
        return TLCResult(out, records, states, trans, ok, wall)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --------------------------------------------------------------------------- deadline
class ScenarioTimeout(Exception):
    pass


class deadline:
    def __init__(self, seconds):
        self.s = int(seconds)

    def __enter__(self):
        def h(*_):
            raise ScenarioTimeout(f"no result within {self.s} s")

        self.old = signal.signal(signal.SIGALRM, h)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        return False


# --------------------------------------------------------------------------- check
class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.validated = 0
        self.samples = []
        self.viol = []
        self.viol_classes = {}
        self.known_hit = {}
        self.counters = {}
        self.assumptions = []
        try:
            with open(KNOWN) as fh:
                self.known = [
                    k for k in json.load(fh)["known"] if k["property"] == pid
                ]
        except OSError:
            self.known = []
        self.rdir = os.path.join(EVID, "replay")

    # TLC with accounting
    def tlc(self, *a, **k):
        r = run_tlc(*a, **k)
        self.states += r.states
        self.transitions += r.transitions
        self.log(
            f"TLC {a[0]}: {r.states} distinct states, {r.transitions} transitions, "
            f"{len(r.records)} records, {r.wall:.1f}s"
        )
        return r

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def ok(self, n=1):
        self.validated += n

    def sample(self, obj):
        if len(self.samples) < 5:
            self.samples.append(obj)

    def violation(self, clause, detail, replay=None, finding=None):
        """Report a violation of ``clause``. ``finding``: identifier compared with the committed
        known-findings file; only an exact match is treated as known."""
        if finding is not None:
            for k in self.known:
                if k["id"] == finding:
                    self.known_hit.setdefault(finding, k)
                    return False
        n = self.viol_classes.get(clause, 0)
        self.viol_classes[clause] = n + 1
        if n >= 3:
            return True
        os.makedirs(self.rdir, exist_ok=True)
        path = os.path.join(self.rdir, f"{self.pid}-{len(self.viol)}.json")
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": self.pid,
                    "clause": clause,
                    "detail": str(detail)[:4000],
                    "replay": replay,
                    "seed": self.seed,
                    "tier": self.tier,
                },
                fh,
                indent=1,
                default=_js,
            )
        self.viol.append({"clause": clause, "detail": str(detail)[:600], "replay": path})
        self.log(f"clause {clause}: {str(detail)[:600]}")
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        return True

    def guard(self, clause, replay=None, finding=None, seconds=120):
        """Context manager: an exception (or hang) of the code under test is a violation."""
        return _Guard(self, clause, replay, finding, seconds)

    def finish(self):
        for fid, k in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples or ["none"],
                **self.counters,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
            "assumptions": self.assumptions,
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=_js)
        self.log(
            f"done: states={self.states} validated={self.validated} "
            f"violations={sum(self.viol_classes.values())} {self.counters}"
        )
        if self.validated == 0 and not self.viol:
            raise MachineryError("check validated nothing")
        return 1 if self.viol else 0


class _Guard:
    def __init__(self, chk, clause, replay, finding, seconds):
        self.c, self.clause, self.replay, self.finding = chk, clause, replay, finding
        self.dl = deadline(seconds)
        self.failed = False

    def __enter__(self):
        self.dl.__enter__()
        return self

    def __exit__(self, et, ev, tb):
        self.dl.__exit__()
        if et is None:
            return False
        if issubclass(et, (MachineryError, KeyboardInterrupt, SystemExit)):
            return False
        self.failed = True
        txt = "".join(traceback.format_exception(et, ev, tb))[-1800:]
        self.c.violation(
            self.clause + "/raises",
            f"{et.__name__}: {ev}\n{txt}",
            self.replay,
            self.finding,
        )
        return True


_TASK = None


def _call(i):
    return _TASK(i)


def pmap(fn, n, workers=8):
    """[fn(0), ..., fn(n-1)] in forked worker processes (closures are inherited by the fork)."""
    global _TASK
    import concurrent.futures as cf
    import multiprocessing as mp

    if n == 0:
        return []
    _TASK = fn
    with cf.ProcessPoolExecutor(min(workers, n), mp_context=mp.get_context("fork")) as ex:
        return list(ex.map(_call, range(n), chunksize=1))


def _js(o):
    try:
        import numpy as np

        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except ImportError:
        pass
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return str(o)
