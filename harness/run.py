"""python -m harness.run <property> <quick|thorough>"""

import concurrent.futures.process
import faulthandler
import importlib
import os
import signal
import sys
import tempfile
import traceback

from . import common

MODULES = {
    "C01": "c01_hsmm_llk",
    "C02": "c02_viterbi",
    "C03": "c03_sampling",
    "C04": "c04_grad",
    "C05": "c05_resid",
    "C06": "c06_layout",
    "C07": "c07_penalties",
    "C08": "c08_data",
    "C09": "c09_predict",
    "C10": "c10_files",
    "C11": "c11_cox",
    "C12": "c12_ar1",
    "C13": "c13_fit",
    "C14": "c14_family",
    "C15": "c15_simulate",
    "C16": "c16_life",
    "C17": "c17_compare",
    "C18": "c18_mcmc",
    "C19": "c19_terms",
}


DUMP = None


def fault_text():
    DUMP.seek(0)
    return DUMP.read()


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = common.Check(pid, tier, seed)
    try:
        chk.log("build:", common.build())
        mod = importlib.import_module("harness." + MODULES[pid])
        mod.run(chk)
        rc = chk.finish()
    except common.MachineryError as e:
        print("MACHINERY-ERROR:", e, flush=True)
        rc = 1 if chk.viol else 2
    except Exception as e:
        traceback.print_exc()
        # an exception raised inside the code under test outside any guarded scenario
        frames = traceback.extract_tb(e.__traceback__)
        text = fault_text() if isinstance(e, concurrent.futures.process.BrokenProcessPool) else ""
        if "Fatal Python error" in text and "/repo/" in text:  # a worker process was ended by the code under test
            chk.violation("crash", text[:3000])
            try:
                chk.finish()
            except Exception:
                pass
        elif any(f.filename.startswith("/repo/") for f in frames) or isinstance(e, ImportError):
            chk.violation("raises", "".join(traceback.format_exception(e))[-1500:])
            try:
                chk.finish()
            except Exception:
                pass
        rc = 1 if chk.viol else 2
    sys.stdout.flush()
    os._exit(rc)


CRASH = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


def supervised():
    """The code under test contains extension modules: a change that makes one of them write out of bounds
    ends the process. That is reported like any other failure of the code under test."""
    global DUMP
    DUMP = dump = tempfile.TemporaryFile("w+")
    pid = os.fork()
    if pid == 0:
        faulthandler.enable(dump, all_threads=False)
        main()
    signal.signal(signal.SIGTERM, lambda *a: os.kill(pid, signal.SIGTERM))
    _, st = os.waitpid(pid, 0)
    if not os.WIFSIGNALED(st):
        return os.WEXITSTATUS(st)
    sig = os.WTERMSIG(st)
    dump.seek(0)
    text = dump.read()
    if sig in CRASH and "/repo/" in text:
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        chk = common.Check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        chk.violation("crash", f"signal {sig}\n{text[:3000]}")
        chk.finish()
        return 1
    print(f"MACHINERY-ERROR: check ended by signal {sig}\n{text[:2000]}", flush=True)
    return 2


sys.exit(supervised())
