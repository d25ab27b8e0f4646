"""Author planted bugs: python3 tools/seed.py SPECS.py [ids...]

SPECS.py defines SEEDS = {id: dict(property, file|edits=[(file, old, new)], needs, breaks, demo, hs=False)}.
For each: scratch copy of /repo, apply the edit, build, run the stable tests, run the demo on both trees,
and keep it under /verif/seeded/<id>/ only if all of that is as required.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONWARNINGS="ignore")


def sh(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def build(copy):
    b = open("/opt/vp/build.sh").read().replace("/repo", copy)
    i = b.index("cd /\n")
    return sh(["bash", "-c", b[:i]], copy)


def demo(folder, copy):
    e = dict(ENV, PYTHONPATH=copy + "/src")
    return sh(["bash", os.path.join(folder, "demo.sh")], copy, e, 300)


def make(sid, s, skip_tests=False):
    folder = os.path.join(VERIF, "seeded", sid)
    tmpf = tempfile.mkdtemp(prefix="vp_seedf_")
    copy = tempfile.mkdtemp(prefix="vp_seed_")
    try:
        shutil.rmtree(copy)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        with open(os.path.join(tmpf, "demo.sh"), "w") as fh:
            fh.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore\n'
                     'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        with open(os.path.join(tmpf, "demo.py"), "w") as fh:
            fh.write("import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\n"
                     "HERE = os.path.dirname(os.path.abspath(__file__))\nsys.path.insert(0, HERE)\n"
                     "import numpy as np, pandas as pd, scipy as scp\n" + s["demo"].strip("\n") + "\n")
        if s.get("hs"):
            os.makedirs(os.path.join(tmpf, "hs"))
            open(os.path.join(tmpf, "hs", "__init__.py"), "w").close()
            for f in ("hsmm_inst.py", "hsmm_specs.py"):
                t = open(os.path.join(VERIF, "harness", f)).read()
                t = t.replace("from .common import tla_set\n", "")
                open(os.path.join(tmpf, "hs", f), "w").write(t)
        r = demo(tmpf, copy)
        if r.returncode != 0:
            return f"{sid}: demo fails on the clean tree:\n{r.stdout[-3000:]}"
        edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
        cpp = False
        for f, old, new, *nth in edits:
            p = os.path.join(copy, f)
            t = open(p).read()
            if not nth and t.count(old) != 1:
                return f"{sid}: old text occurs {t.count(old)} times in {f}"
            at = -1
            for _ in range(1 + (nth[0] if nth else 0)):
                at = t.index(old, at + 1)
            open(p, "w").write(t[:at] + new + t[at + len(old):])
            cpp |= f.endswith(".cpp")
        d = sh(["git", "diff"], copy).stdout
        if cpp:
            b = build(copy)
            if b.returncode != 0:
                return f"{sid}: build fails\n{b.stdout[-2000:]}"
        r = demo(tmpf, copy)
        if r.returncode == 0:
            return f"{sid}: demo passes with the change\n{r.stdout[-1500:]}"
        out = r.stdout[-400:]
        if not skip_tests:
            e = dict(ENV, PYTHONPATH=copy + "/src")
            r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "tests/test_hsmm.py"], copy, e)
            stable = " ".join(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            fl = [l.split()[1] for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
            fl = [x for x in fl if x.split("::")[-2] + "." + x.split("::")[-1] in stable
                  or x.split("::")[-2] + "::" + x.split("::")[-1] in stable]
            if fl or " passed" not in r.stdout:
                return f"{sid}: stable tests fail {fl}\n{r.stdout[-300:]}"
        shutil.rmtree(folder, ignore_errors=True)
        shutil.copytree(tmpf, folder, ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(folder, "patch.diff"), "w").write(d)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(os.path.join(folder, "meta.json"), "w"), indent=1)
        return f"{sid}: ok  [{out.strip().splitlines()[-1] if out.strip() else ''}]"
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(tmpf, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = sys.argv[2:] or list(seeds)
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda i: make(i, seeds[i]), ids):
            print(r, flush=True)
