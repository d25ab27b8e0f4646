"""Layout of formulas: behaviours of spec/Formula.tla replayed into real Formula objects."""

import numpy as np

from . import formula_inst as fi
from .common import pmap, tla
from .formula_inst import F_, FS, IRF, Mismatch, T, close, need


def families(quick):
    lin = [
        T("i"), T("l", ["g"]), T("l", ["x"]), T("l", ["s"]), T("l", ["g", "x"]),
        T("l", ["x", "w"]), T("l", ["g", "s"]), T("ri", ["k"]), T("rs", ["x"], by="k"),
        T("rs", ["g"]), T("rs", ["s", "x"], by="g"),
    ]
    if not quick:
        lin += [T("l", ["g", "w", "s"]), T("rs", ["w"]), T("l", ["w"])]
    uni = [
        T("i"), F_(["x"]), F_(["x"], by="g"), F_(["x"], by="g", id=1), F_(["z"], bin=["g", "b"]),
        F_(["z"], bycont="v"), F_(["x"], nk=5, con="DROP"), F_(["z"], con="DIFF"),
        F_(["x"], rp=1, null=True), F_(["z"], null=True), F_(["x"], ms=[1, 2]),
        F_(["z"], by="s", null=True), F_(["z"], nk=5, pen=False), FS(["x"], "k"),
        FS(["x"], "k", m=2), FS(["x"], "k:u", sub="u"), FS(["z"], "k:v", sub="v"),
        F_(["z"], ident=False), F_(["w"], nk=5, ms=[1]), F_(["x"], by="s", null=True, id=7),
        F_(["x"], by="g", bycont="v", ident=False), F_(["x"], rp=1, by="s"),
        F_(["x"], ms=[0]),
    ]
    ten = [
        T("i"), F_(["x"]), F_(["z"], by="g"), F_(["x", "z"], te=True), F_(["x", "z"]),
        F_(["x", "z"], te=True, rp=0), F_(["z", "x"], rp=0, nk=[5, 4]),
        F_(["x", "z"], te=True, by="g"), F_(["x", "z"], by="g", id=3),
        F_(["x", "v"], by="s", null=True), F_(["x", "z"], te=True, con="DROP"),
        F_(["x", "z"], con="DROP"), F_(["x", "z"], te=True, bin=["g", "b"]),
        F_(["x", "z"], bin=["s", "v"], nk=[4, 5]), F_(["x", "z"], te=True, bycont="v", nk=[4, 5]),
        F_(["x", "z"], ident=False, te=True, rp=0), F_(["x", "z"], con="DIFF"),
        F_(["x", "z"], te=True, null=True, rp=0), F_(["x", "z"], rp=0, ms=[1, 2]),
        F_(["x", "z", "v"], te=True), F_(["x", "z"], te=True, by="g", id=4, null=True),
    ]
    irf = [
        T("i"), IRF(), IRF(by="g"), IRF(by="g", id=1, nk=6), IRF(pen=False), IRF(dist=True),
        F_(["x"]), T("l", ["g"]), IRF(id=2), F_(["x"], id=2), T("ri", ["k"]),
    ]
    ids = [
        T("i"), F_(["x"], id=1), F_(["z"], id=1, nk=5), F_(["x", "z"], id=1), T("ri", ["k"], id=2),
        F_(["v"], id=2), T("rs", ["x"], by="s", id=1), F_(["x"], by="s", id=1), T("l", ["g"]),
    ]
    nes = [
        T("i"), F_(["x"]), F_(["z"]), F_(["x", "z"], te=True), F_(["x"], by="g"),
        F_(["z"], by="g"), F_(["x", "z"], te=True, by="g"), F_(["z", "v"], te=True, nk=[5, 4]),
    ]
    q = [
        ("linear", lin, 3, 1, range(len(lin)), [dict(coded=False, na=True), dict(coded=True)]),
        ("smooth", uni, 2, 1, range(len(uni)), [dict(coded=True, na=True)]),
        ("tensor", ten, 2, 1, range(len(ten)), [dict(coded=True, n=240)]),
        ("irf", irf, 2, 1, range(len(irf)), [dict(coded=True, na=True, series=True)]),
        ("shared", ids, 2, 2, range(len(ids)), [dict(coded=False)]),
        ("nested", nes, 3 if quick else 4, 1, [0], [dict(coded=True, n=240)]),
    ]
    if not quick:
        q[1] = ("smooth", uni, 3, 1, range(8),
                [dict(coded=True, na=True), dict(coded=False)])
        q[2] = ("tensor", ten, 3, 1, range(4), [dict(coded=True, n=240)])
        q[3] = ("irf", irf, 3, 1, range(len(irf)), [dict(coded=True, na=True, series=True)])
        q.append(("shared1", ids, 4, 1, range(len(ids)), [dict(coded=False)]))
    return q


FULL = ("linear", "smooth", "tensor", "irf", "shared", "shared1")


def behaviours(chk, name, alphabet, terms, forms, first, coded):
    lev = fi.levels(coded)
    levs = "[" + ", ".join('x \\in {"%s"} |-> %s' % (k, tla(v)) for k, v in lev.items()) + "]"
    levs = " @@ ".join('("%s" :> %s)' % (k, tla(v)) for k, v in lev.items())
    r = chk.tlc(
        "Formula",
        defs={
            "Alphabet": tla([fi.spec_record(t) for t in alphabet]),
            "Levels": levs,
            "First": "{" + ", ".join(str(j + 1) for j in first) + "}",
        },
        consts={"MaxTerms": str(terms), "MaxForms": str(forms)},
        spec="Spec",
        invariants=["Contiguous", "InBlock", "Covered", "Partition"],
        properties=["Stable"],
        heap="8g",
        workers=1,
    )
    return r.records


# --------------------------------------------------------------------------- replay
def make_formula(terms, d, cfg, nested=False, lhs_var="y"):
    from mssm.models import Formula, lhs

    kw = {}
    if cfg.get("coded"):
        used = set()
        for t in terms:
            used |= {fi.raw_var(v) for v in t["vars"] + [t["by"]] + t["bin"][:1] if v}
        kw["codebook"] = {k: v for k, v in fi.CODEBOOK.items()}
    if cfg.get("series"):
        kw["series_id"] = "sid"
    return Formula(lhs(lhs_var), [fi.real(t) for t in terms], d, print_warn=False,
                   find_nested=nested, **kw)


def used_vars(terms):
    out = {"y"}
    for t in terms:
        for v in t["vars"] + [t["by"], t["bycont"]] + t["bin"][:1]:
            if v:
                out.add(fi.raw_var(v))
        if t["sub"]:
            out.add("s")
    return out


def retained(d, terms):
    cols = [c for c in d.columns if c in used_vars(terms)]
    return ~d[cols].isna().any(axis=1).to_numpy()


def block_index(cols):
    out = {}
    for j, c in enumerate(cols):
        out.setdefault(c["term"], []).append(j)
    return out


class Laid:
    """A real formula with its matrix, checked against the columns of the specification."""

    def __init__(self, terms, cols, d, cfg, newd=None):
        from mssm.src.python.formula import build_model_matrix, build_penalties

        before = d.copy(deep=True)
        self.F = F = make_formula(terms, d, cfg)
        self.pens = build_penalties(F)
        self.X = X = build_model_matrix(F).toarray()
        self.maps = {}
        keep = retained(d, terms)
        need(before.equals(d), "the data frame was changed")
        need(X.shape == (int(keep.sum()), len(cols)),
             f"matrix is {X.shape}, expected {(int(keep.sum()), len(cols))}")
        need(F.n_coef == len(cols), f"n_coef {F.n_coef}, expected {len(cols)}")
        names = [c["name"] for c in cols]
        need(list(F.coef_names) == names, f"names {list(F.coef_names)}, expected {names}")
        blocks = block_index(cols)
        per = [len(blocks.get(p, [])) for p in range(len(terms))]
        need(list(F.coef_per_term) == per, f"coef_per_term {F.coef_per_term}, expected {per}")
        for p in range(len(terms)):
            need(list(F.coef_idx_per_term[p]) == blocks.get(p, []),
                 f"coef_idx_per_term[{p}] is {F.coef_idx_per_term[p]}")
        unp = sum(per[p] for p, t in enumerate(terms) if not t["pen"])
        need(F.unpenalized_coef == unp, f"unpenalized_coef {F.unpenalized_coef}, expected {unp}")
        dk = d[keep].reset_index(drop=True)
        self.ranges = {v: (np.nanmin(d[v]), np.nanmax(d[v])) for v in ("x", "z", "w", "v")}
        # rows outside the basis' own training range cannot occur
        for p, js in blocks.items():
            self.block(terms[p], p, [cols[j] for j in js], X[:, js], d, dk, keep, None)
        if newd is not None:
            from mssm.models import GAMM
            from mssm.src.python.exp_fam import Gaussian

            m = GAMM(F, Gaussian())
            m.coef = np.linspace(-1, 2, len(cols)).reshape(-1, 1)
            pred, Xn, _ = m.predict(None, newd, ci=False)
            Xn = Xn.toarray()
            need(Xn.shape == (len(newd), len(cols)), f"new data: matrix is {Xn.shape}")
            need(close(pred.flatten(), Xn @ m.coef.flatten()),
                 "new data: prediction is not matrix times coefficients")
            for p, js in blocks.items():
                self.block(terms[p], p, [cols[j] for j in js], Xn[:, js], newd, newd,
                           np.ones(len(newd), bool), self.maps.get(p))

    def block(self, t, p, cols, X, d, dk, keep, A):
        tag = f"term {p} ({t['k']} {'/'.join(t['vars'])})"
        if t["kind"] in ("smooth", "irf"):
            if t["k"] == "irf":
                # built per series before rows are dropped
                B = fi.term_basis(t, d, self.ranges)[keep]
                for j, c in enumerate(cols):
                    want = fi.indicator(dk, c["ind"]) * B[:, c["k"]]
                    need(close(X[:, j], want), f"{tag}: column {c['name']}")
                self.maps[p] = np.eye(t["nk"][0])
                return
            A2 = fi.check_smooth(t, cols, X, dk, self.ranges, tag, A)
            if A is None:
                fi.check_map(t, A2, dk, self.ranges, tag)
                self.maps[p] = A2
        else:
            for j, c in enumerate(cols):
                want = fi.indicator(dk, c["ind"]) * fi.weight(dk, c["num"])
                need(close(X[:, j], want), f"{tag}: column {j} ({c['name']})")


def frames(cfg, seed):
    d = fi.frame(seed, n=cfg.get("n", 72), na=cfg.get("na", False),
                 na_g=not cfg.get("series"))
    nd = fi.frame(seed + 1000, n=36)
    for v in ("x", "z", "w", "v"):
        lo, hi = np.nanmin(d[v]), np.nanmax(d[v])
        nd[v] = np.clip(nd[v], lo, hi - 1e-9 * (hi - lo)) if nd[v].dtype == float else nd[v]
    if not cfg.get("series"):
        nd.loc[3, "g"] = "new"
        nd.loc[5, "k"] = "new"
        nd.loc[7, "s"] = "new"
    # a level may be missing from new data
    nd.loc[nd["s"] == "u", "s"] = "v" if cfg.get("coded") else "u"
    return d, nd


def split(rec, alphabet):
    out = []
    for f, idx in enumerate(rec["forms"]):
        out.append(([alphabet[a - 1] for a in idx], [c for c in rec["cols"] if c["form"] == f]))
    return out


def describe(terms):
    return [{k: v for k, v in t.items() if v not in ("", [], False, -1)} for t in terms]


def replay_columns(rec, alphabet, cfg, seed):
    """C06 for one behaviour: list of (clause, message)."""
    out = []
    d, nd = frames(cfg, seed)
    for terms, cols in split(rec, alphabet):
        try:
            if rec["verdict"] == "rejected":
                try:
                    from mssm.src.python.formula import build_penalties

                    build_penalties(make_formula(terms, d, cfg))
                except KeyError:
                    continue
                raise Mismatch("formula has to be rejected")
            Laid(terms, cols, d, cfg, nd)
            nested(terms, cols, d, cfg, penalties=False)
        except Mismatch as e:
            out.append(("columns", str(e), describe(terms)))
        except Exception as e:  # noqa: BLE001
            out.append(("raises", f"{type(e).__name__}: {e}", describe(terms)))
    return out


def nested(terms, cols, d, cfg, penalties):
    """Removing columns that other smooths already span drops columns, nothing else."""
    from mssm.src.python.formula import build_model_matrix, build_penalties

    if not any(len(t["vars"]) > 1 and t["kind"] == "smooth" for t in terms):
        return
    ten = [sorted(t["vars"]) for t in terms if len(t["vars"]) > 1 and t["kind"] == "smooth"]
    if any(a == b for j, a in enumerate(ten) for b in ten[:j]):
        return  # one smooth of the same variables repeats the other: may vanish altogether
    base = Laid(terms, cols, d, cfg)
    F = make_formula(terms, d, cfg, nested=True)
    P = build_penalties(F)
    X = build_model_matrix(F).toarray()
    keep = []
    for p, t in enumerate(terms):
        all_idx = list(base.F.coef_idx_per_term[p])
        nms = [base.F.coef_names[j] for j in all_idx]
        mine = [F.coef_names[j] for j in F.coef_idx_per_term[p]]
        idx = [j for j, nm in zip(all_idx, nms) if nm in mine]
        need(len(idx) == len(mine) == F.coef_per_term[p] and
             [base.F.coef_names[j] for j in idx] == mine,
             f"nested: names of term {p} are not a subset of those without dropping")
        if len(t["vars"]) == 1 or t["kind"] != "smooth":
            need(idx == all_idx, f"nested: coefficients of term {p} dropped")
        keep += idx
    keep = sorted(keep)
    need(X.shape[1] == len(keep) == F.n_coef == len(F.coef_names), "nested: wrong dimensions")
    need(close(X, base.X[:, keep]), "nested: kept coefficients do not multiply their columns")
    need(np.linalg.matrix_rank(X, tol=1e-7) == np.linalg.matrix_rank(base.X, tol=1e-7),
         "nested: columns that are not redundant were dropped")
    if terms[0]["k"] == "i" and all(
        t["kind"] == "smooth" and t["by"] == terms[-1]["by"] and not t["bin"] and not t["bycont"]
        and t["k"] == "f" and (t["ident"]) for t in terms[1:]
    ) and (len(ten) == 1 or len(ten) == len(terms) - 1):
        # Redundancy involving smooths that share no variable is (as in mgcv) not looked for
        need(np.linalg.matrix_rank(X, tol=1e-7) == X.shape[1], "nested: redundant columns remain")
    if penalties:
        need(len(P) == len(base.pens), "nested: number of penalties")
        for a, b in zip(P, base.pens):
            S, S0 = a.S_J_emb.toarray(), b.S_J_emb.toarray()
            if b.type.name != "NULL":
                need(close(S, S0[np.ix_(keep, keep)]), "nested: penalty of kept coefficients")
            if b.type.name == "NULL" and not np.any(np.abs(S) > 1e-12):
                need(a.rank == 0, "nested: rank of empty null-space penalty")
                continue
            pen_laws(a, F.n_coef, "nested")


def pen_laws(p, n, tag):
    S = p.S_J_emb.toarray()
    D = p.D_J_emb.toarray()
    need(S.shape == (n, n), f"{tag}: penalty is {S.shape}")
    need(close(S, S.T), f"{tag}: penalty not symmetric")
    e = np.linalg.eigvalsh(S)
    top = max(e[-1], 0)
    need(top > 0 and e[0] > -1e-9 * top, f"{tag}: penalty not positive semi-definite")
    need(close(D @ D.T, S), f"{tag}: root does not reproduce the penalty")
    need(int(np.sum(e > 1e-9 * top)) == p.rank, f"{tag}: rank is {int(np.sum(e > 1e-9 * top))}, "
         f"recorded {p.rank}")
    SJ = p.S_J.toarray()
    k = SJ.shape[1]
    E = np.zeros((n, n))
    for r in range(p.rep_sj):
        a = p.start_index + r * k
        E[a : a + k, a : a + k] = SJ
    need(close(E, S), f"{tag}: block and embedded penalty differ")


def same(S, W, scaled):
    if scaled:
        a, b = np.linalg.norm(S), np.linalg.norm(W)
        if a == 0 or b == 0:
            return False
        return close(S / a, W / b, 1e-6)
    return close(S, W, 1e-6)


def replay_penalties(rec, alphabet, cfg, seed):
    from mssm.src.python.penalties import combine_shared_penalties, embed_shared_penalties

    if rec["verdict"] == "rejected":
        return []
    d, _ = frames(cfg, seed)
    parts = split(rec, alphabet)
    what = [describe(t) for t, _ in parts]
    try:
        laid = [Laid(terms, cols, d, cfg) for terms, cols in parts]
        n = sum(len(c) for _, c in parts)
        extra = None
        if len(parts) > 1:
            extra = 2
            n += extra
            allp = embed_shared_penalties([L.pens for L in laid], [L.F for L in laid], extra)
            allp = [p for ps in allp for p in ps]
        else:
            allp = laid[0].pens
        need(len(allp) == len(rec["pens"]), f"{len(allp)} penalties, expected {len(rec['pens'])}")
        # every expected penalty exists, on its own coefficients
        free = list(range(len(allp)))
        where = {}
        expect = []
        for q, pen in enumerate(rec["pens"]):
            terms = parts[pen["form"]][0]
            t = terms[pen["term"]]
            tag = f"penalty {q} of term {pen['term']}"
            W1, scaled = fi.expected_pen(t, pen, laid[pen["form"]].maps.get(pen["term"]),
                                         laid[pen["form"]].ranges, tag)
            W = np.zeros((n, n))
            k = pen["size"]
            for r in range(pen["rep"]):
                a = pen["start"] + r * k
                W[a : a + k, a : a + k] = W1
            hit = [j for j in free if same(allp[j].S_J_emb.toarray(), W, scaled)]
            need(hit, f"{tag} ({pen['kind']}) at {pen['start']} is not in the model")
            free.remove(hit[0])
            where[q] = hit[0]
            expect.append(allp[hit[0]].S_J_emb.toarray())
            pen_laws(allp[hit[0]], n, tag)
            need(allp[hit[0]].term == pen["term"], f"{tag}: assigned to term {allp[hit[0]].term}")
            if len(parts) > 1:
                need(allp[hit[0]].dist_param == pen["form"], f"{tag}: wrong parameter")
        merged = combine_shared_penalties(allp)
        need(len(merged) == len(rec["groups"]),
             f"{len(merged)} smoothing parameters, expected {len(rec['groups'])}")
        free = list(range(len(merged)))
        for g in rec["groups"]:
            W = sum(expect[q] for q in g)
            hit = [j for j in free if close(merged[j].S_J_emb.toarray(), W)]
            need(hit, f"no smoothing parameter multiplies the sum of penalties {g}")
            free.remove(hit[0])
            m = merged[hit[0]]
            D = m.D_J_emb.toarray()
            need(close(D @ D.T, W), "root of shared penalty does not reproduce it")
            need(np.linalg.matrix_rank(W, tol=1e-9 * np.linalg.norm(W)) == m.rank,
                 "rank of shared penalty")
        for terms, cols in parts:
            if len(parts) == 1:
                nested(terms, cols, d, cfg, penalties=True)
    except Mismatch as e:
        return [("penalties", str(e), what)]
    except Exception as e:  # noqa: BLE001
        import traceback

        return [("raises", f"{type(e).__name__}: {e} {traceback.format_exc()[-500:]}", what)]
    return []


def run(chk, replay, which):
    import mssm.models  # noqa: F401

    for name, alphabet, terms, forms, first, cfgs in families(chk.quick):
        if name not in which:
            continue
        for ci, cfg in enumerate(cfgs):
            recs = behaviours(chk, name, alphabet, terms, forms, first, cfg.get("coded", False))
            if forms == 2 and chk.quick:
                recs = recs[:: 3]
            ncpu, n = 8, len(recs)

            def work(w, recs=recs, alphabet=alphabet, cfg=cfg):
                res = []
                for j in range(w, n, ncpu):
                    for r in replay(recs[j], alphabet, cfg, chk.seed + j % 7):
                        res.append((j, r))
                return res

            for part in pmap(work, ncpu):
                for j, (clause, msg, what) in part:
                    chk.violation(f"{name}/{clause}", f"{what}: {msg}",
                                  replay={"terms": what, "config": cfg, "seed": chk.seed + j % 7})
            chk.ok(n)
            chk.count(f"formulas_{name}", n)
            chk.sample({"family": name, "formula": [
                [t["k"] + ":" + "/".join(t["vars"]) for t in ts] for ts, _ in
                split(recs[-1], alphabet)], "columns": len(recs[-1]["cols"])})
            chk.log(f"family {name} cfg {cfg}: {n} formulas replayed")
