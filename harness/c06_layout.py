"""C06: columns, names and coefficient maps of every formula (spec/Formula.tla)."""
from . import formula_check as fc


def run(chk):
    fc.run(chk, fc.replay_columns, ("linear", "smooth", "tensor", "irf", "nested"))
    chk.assumptions += [
        "numeric variables are generic; bases are cubic B-splines with nk >= 4",
        "formulas up to the number of terms of the families in formula_check.py",
    ]
