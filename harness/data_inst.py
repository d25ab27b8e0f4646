"""Behaviours of spec/Data.tla and the data frames they stand for."""

import numpy as np
import pandas as pd

from .common import tla

ORDER = ["a", "b", "c"]
INV = ["Exact", "Coded", "Decodes", "Linked", "Starts"]


def kind(miss, g):
    return "[miss |-> %s, g |-> %s]" % (tla(set(miss)) if miss else "{}", tla(g))


def kinds(misses, levels):
    return "{" + ", ".join(kind(m, g) for m in misses for g in levels) + "}"


def behaviours(chk, n, used, misses, levels, book=(), frames=None, workers=1):
    fr = "{}"
    if frames is not None:
        fr = "{" + ",\n".join("<<" + ", ".join(
            "[miss |-> %s, g |-> %s, s |-> %d]" % (tla(set(m)) if m else "{}", tla(g), s)
            for m, g, s in f) + ">>" for f in frames) + "}"
    r = chk.tlc(
        "Data",
        defs={"Kinds": kinds(misses, levels), "Used": tla(set(used)) if used else "{}",
              "Order": tla(ORDER), "Book": tla(list(book)), "Frames": fr,
              "Fresh": tla(set(ORDER + ["zz"]))},
        consts={"N": str(n)}, spec="Spec", invariants=INV, properties=["Settled"], heap="8g",
        timeout=600,
    )
    return r.records


def frame(rec, rng, numeric_int=True):
    """A data frame with the layout of the behaviour; all values distinct."""
    n = len(rec["rows"])
    miss = [set(r["miss"]) for r in rec["rows"]]
    d = pd.DataFrame(index=range(n))
    names = [f"s{int(v):02d}" for v in rng.permutation(40)]
    d["ser"] = [names[r["s"]] for r in rec["rows"]]
    vals = rng.permutation(np.arange(1, 3 * n + 1))
    for j, v in enumerate(("y", "x", "w")):
        col = vals[j * n : (j + 1) * n].astype(float)
        if v != "w":
            col = col / 8
        bad = np.array([v in m for m in miss])
        if v == "w" and numeric_int and not bad.any():
            d[v] = col.astype(np.int64)
        else:
            col[bad] = np.nan
            d[v] = col
    g = np.array([r["g"] for r in rec["rows"]], dtype=object)
    for j, m in enumerate(miss):
        if "g" in m:
            g[j] = np.nan if j % 2 else None
    d["g"] = g
    # a column nobody uses, with missing values everywhere, and shuffled columns
    d["junk"] = np.nan
    d = d[list(rng.permutation(d.columns))]
    if rng.random() < 0.5:
        d.index = rng.permutation(n) + 5
    return d


def linked(rec, rho):
    """The whitening matrix over retained rows, from the links of the specification."""
    k = rec["kept"]
    at = {e["row"]: j for j, e in enumerate(k)}
    M = np.zeros((len(k), len(k)))
    c = 1 / np.sqrt(1 - rho**2)
    ld = 0.0
    for j, e in enumerate(k):
        if e["prev"] == 0:
            M[j, j] = 1
        else:
            M[j, j] = c
            M[j, at[e["prev"]]] = -rho * c
            ld += np.log(c)
    return M, ld
