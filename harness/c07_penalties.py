"""C07: penalties of every formula and their grouping by smoothing parameter (spec/Formula.tla)."""
from . import formula_check as fc


def run(chk):
    fc.run(chk, fc.replay_penalties, fc.FULL)
    chk.assumptions += ["penalties of re-parameterised smooths are compared up to a factor"]
