"""Instance families used by the HSMM checks."""

import itertools

import numpy as np


def regular_specs(tier_quick, rng):
    """Covering set over flags x emission kind x time variation x fixed/modelled chain."""
    out = []
    flags = list(itertools.product([False, True], repeat=3))
    obs_kinds = [("gau", 1), ("gau", 2), ("mixed", 2), ("gam", 1), ("mvn", 2)]
    k = 0
    for (swf, ewl, eil), tv, fix in itertools.product(
        flags, [False, True], ["none", "one", "list"]
    ):
        for rep in range(1 if tier_quick else 3):
            obs, M = obs_kinds[k % len(obs_kinds)]
            ns = 2 + (k // 2) % 2
            if fix == "none" and rep == 0:
                ns = 3
            shared = [[], [], [0], [0, 1]][(k // 3) % 4]
            if obs == "mvn" and shared == [0, 1]:
                shared = [0]
            D = [3, 4, 3, 4][k % 4]
            nts = [[3, 4], [4], [2, 3, 4], [4, 1]][(k // 2) % 4]
            if tv and fix == "one":
                nts = [4]
            out.append(
                dict(
                    ns=ns,
                    D=D,
                    swf=swf,
                    ewl=ewl,
                    eil=eil,
                    M=M,
                    obs=obs,
                    tv=tv,
                    fix=fix,
                    nts=nts,
                    hmp=False,
                    w=0,
                    shared=shared,
                    shared_m=bool(k % 2),
                    dmix=bool(k % 3 == 0),
                    nones=bool(k % 2 == 0),
                    p=1 + k % 2,
                )
            )
            k += 1
    return out


def hmp_specs(tier_quick, rng):
    out = []
    k = 0
    for ewl, eil, fam, rho, ltr in itertools.product(
        [False, True], [False, True], ["Gaussian", "Exponential"], [None, 0.6], [True, False]
    ):
        ns = 3
        M = 1 + k % 2
        out.append(
            dict(
                ns=ns,
                D=4,
                swf=True,
                ewl=ewl,
                eil=eil,
                M=M,
                obs="hmp",
                tv=False,
                fix=["list", "one"][k % 2],
                nts=[[5], [4, 6], [6, 5]][k % 3],
                hmp=True,
                w=[2, 3][k % 2],
                hmp_fam=fam,
                rho=rho,
                ltr=ltr,
                shared=[],
                shared_m=False,
                nones=False,
                p=2,
            )
        )
        k += 1
    return out


def configs_for(specs):
    seen = []
    for s in specs:
        for nt in sorted(set(s["nts"])):
            c = dict(
                ns=s["ns"],
                nt=nt,
                D=s["D"],
                swf=s["swf"],
                ewl=s["ewl"],
                eil=s["eil"],
                hmp=s["hmp"],
                w=s["w"],
            )
            if c not in seen:
                seen.append(c)
    return seen


def extra_specs():
    """Hand-picked corners: shared coefficients of HMP models, time-varying HMP, two states, single
    samples, series shorter/longer than the maximum duration, impossible end conditions."""
    out = []
    h = hmp_specs(True, None)
    for k, s in enumerate(h[:8]):
        out.append(dict(s, M=2, shared=[0], shared_m=bool(k % 2)))
    for k, s in enumerate(h[::3]):
        out.append(dict(s, M=1, shared=[0], shared_m=bool(k % 2)))
    for k, s in enumerate(h[::4]):
        out.append(dict(s, tv=True, fix="list", nones=bool(k % 2)))
    for k, s in enumerate(h[1::5]):
        out.append(dict(s, ns=5, D=4, w=2, nts=[6], M=1 + k % 2))
    r = regular_specs(True, None)
    base = r[0]
    for k, tv in enumerate([False, True, False, True]):
        out.append(
            dict(base, ns=2, tv=tv, fix="none", nones=bool(k // 2), p=1 + k % 2, swf=bool(k % 2))
        )
    out.append(dict(base, obs="gau", M=2, shared=[1], shared_m=False, p=2))
    out.append(dict(base, obs="mixed", M=2, shared=[1], shared_m=True, p=2, tv=True, fix="none"))
    out.append(dict(base, ns=3, D=7, nts=[3, 1, 2], fix="list", swf=False, p=2))
    out.append(dict(base, ns=2, D=2, nts=[4, 5], fix="one", tv=False, ewl=True, eil=True, p=2))
    out.append(dict(base, ns=4, D=3, nts=[4], fix="none", tv=True, nones=True, p=2))
    out.append(dict(base, ns=4, D=3, nts=[3, 4], fix="none", tv=False, nones=True, p=2))
    out.append(dict(base, ns=3, D=3, nts=[1, 1], fix="none", tv=True, ewl=True, eil=True, p=2))
    out.append(dict(base, ns=3, M=3, obs="mvn", D=3, nts=[3, 3], fix="none", p=2))
    out.append(dict(base, ns=2, M=3, obs="mixed", shared=[0], shared_m=False, nts=[3, 3], p=2))
    return out


def random_specs(n, rng, hmp_share=0.3):
    out = []
    for _ in range(n):
        b = lambda p=0.5: bool(rng.uniform() < p)
        if b(hmp_share):
            w = int(rng.integers(2, 4))
            out.append(
                dict(
                    ns=3 if b(0.8) else 5,
                    D=int(rng.integers(w + 1, 6)),
                    swf=True,
                    ewl=b(),
                    eil=b(),
                    M=int(rng.integers(1, 4)),
                    obs="hmp",
                    tv=b(0.3),
                    fix="list" if b() else "one",
                    nts=[int(x) for x in rng.integers(2, 7, size=int(rng.integers(1, 4)))],
                    hmp=True,
                    w=w,
                    hmp_fam="Gaussian" if b() else "Exponential",
                    rho=float(rng.choice([0.3, 0.6, 0.8])) if b() else None,
                    ltr=b(0.6),
                    shared=[0] if b(0.25) else [],
                    shared_m=b(),
                    nones=b(),
                    p=int(rng.integers(1, 3)),
                )
            )
            s = out[-1]
            if s["tv"]:
                s["fix"] = "list"
            if s["rho"] is not None and sum(s["nts"]) < 2:
                s["rho"] = None
            if s["ns"] == 5:
                s["D"] = min(s["D"], 4)
                s["nts"] = [min(x, 5) for x in s["nts"]]
                s["w"] = min(s["w"], s["D"] - 1)
            if s["rho"] is not None and s["nts"][0] < 2:
                s["nts"][0] = 2
        else:
            obs = str(rng.choice(["gau", "gam", "mixed", "mvn"]))
            M = int(rng.integers(2, 4)) if obs == "mvn" else int(rng.integers(1, 4))
            ns = int(rng.choice([2, 3, 3, 4]))
            shared = [[], [], [0], [1], [0, 1]][int(rng.integers(5))]
            if obs == "mvn" and 1 in shared:
                shared = [0]
            out.append(
                dict(
                    ns=ns,
                    D=int(rng.integers(2, 5)) if ns < 4 else 3,
                    swf=b(),
                    ewl=b(),
                    eil=b(),
                    M=M,
                    obs=obs,
                    tv=b(),
                    fix=str(rng.choice(["none", "none", "one", "list"])),
                    nts=[
                        int(x)
                        for x in rng.integers(1, 5 if ns < 4 else 4, size=int(rng.integers(1, 4)))
                    ],
                    hmp=False,
                    w=0,
                    shared=shared,
                    shared_m=b(),
                    dmix=b(),
                    nones=b(),
                    p=int(rng.integers(1, 3)),
                )
            )
            s = out[-1]
            if s["tv"] and s["fix"] == "one":
                s["nts"] = [s["nts"][0]]
    return out


def all_specs(chk, n_quick=60, n_thorough=600):
    rng = np.random.default_rng(1000 + chk.seed)
    return (
        regular_specs(chk.quick, rng)
        + hmp_specs(chk.quick, rng)
        + extra_specs()
        + random_specs(n_quick if chk.quick else n_thorough, rng)
    )


def big_spec(rng, hmp=False):
    """Sizes far beyond enumeration (decided with the model-checked recursion)."""
    s = (random_specs(1, rng, 1.0 if hmp else 0.0))[0]
    s["D"] = int(rng.integers(6, 16))
    nt = [int(x) for x in rng.integers(20, 60, size=1 if (s["tv"] and s["fix"] == "one") else 2)]
    s["nts"] = nt
    if hmp:
        s["w"] = int(rng.integers(2, 6))
        s["shared"] = []
    else:
        s["ns"] = int(rng.integers(2, 6))
    return s
