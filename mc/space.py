"""Finite configuration space of problems, enumerated by bounded deviation from a few bases.

A configuration is a dict {dimension: option}.  `enumerate_configs` yields every configuration that
differs from a base in at most k dimensions (k = deviation bound), for each base, simplest first and
without repetition.  `resolve` turns a configuration into numbers: keyword arguments of the solver
(fresh arrays on every call) and the arguments of the reference model.
"""
import itertools
import numpy as np
from math import pi

# option lists; order = simplest first
DIMS = {
    "L": [1, 2, 3, 5, 12],
    "NQ": [2, 4, 6, 8, 16],
    "NLeg": ["full", "less", "one"],
    "NF": ["full", "mid", "one"],
    "NLall": ["min", "plus1", "big"],
    "tau": ["mid", "equal", "thin", "thick", "mixed"],
    "om": ["mid", "equal", "zero_all", "zero_top", "zero_mid", "zero_bot", "near1", "weak"],
    "leg": ["hg", "iso", "rayleigh", "neg", "strong", "odd", "mixed", "twins"],
    "mu0": [0.6, 1.0, 0.07, "node"],
    "I0": [2.0, 0.0, 1e-3, 3e4],
    "phi0": [1.0, 0.0, 5.9],
    "bp": ["none", "scalar", "vector", "matrix"],
    "bn": ["none", "scalar", "vector", "matrix"],
    "f": ["none", "hetero", "uniform", "top", "bottom", "big"],
    "NT": [False, True],
    "bdrf": ["none", "scalar", "func", "scalars2", "funcs3", "func_scalar", "scalar_func", "many", "cached", "cached_mu0", "white", "gap", "no_mean"],
    "s": ["none", "const", "linear", "quad", "quart", "mid_only", "zero0", "last_only", "ragged"],
    "band": [10, 3],
}

_BASE = dict(L=1, NQ=4, NLeg="full", NF="full", NLall="min", tau="mid", om="mid", leg="hg", mu0=0.6, I0=2.0, phi0=1.0,
             bp="none", bn="none", f="none", NT=False, bdrf="none", s="none", band=10)
BASES = {
    "simple": dict(_BASE),
    "all": dict(_BASE, L=3, NLall="big", f="hetero", bp="vector", bn="scalar", bdrf="func_scalar", s="linear"),
    "thermal": dict(_BASE, L=3, I0=0.0, s="quad", bdrf="scalar", bp="scalar", f="hetero", NLall="plus1"),
    "solar": dict(_BASE, L=2, NQ=8, NLall="big", f="hetero", bdrf="func", band=3, leg="mixed"),
    "nt": dict(_BASE, L=3, NQ=4, NLall="big", f="hetero", NT=True, leg="mixed"),
    "layers": dict(_BASE, L=5, NQ=4, NLall="plus1", band=3, bn="matrix", bp="matrix", bdrf="funcs3", om="mid"),
}


def enumerate_configs(bases, k, dims=None, fixed=None, drop=None):
    """Every configuration within k deviations of a base; `fixed` overrides, `dims` limits the
    dimensions that may deviate, `drop` removes options {dim: [options]}."""
    seen = set()
    dims = [d for d in (dims or DIMS) if d not in (fixed or {})]
    drop = drop or {}
    opts = {d: [o for o in DIMS[d] if o not in drop.get(d, ())] for d in dims}
    for dev in range(k + 1):
        for b in bases:
            base = dict(BASES[b], **(fixed or {}))
            for ds in itertools.combinations(dims, dev):
                for vals in itertools.product(*[[o for o in opts[d] if o != base[d]] for d in ds]):
                    c = dict(base, **dict(zip(ds, vals)))
                    key = tuple(c.items())
                    if key not in seen:
                        seen.add(key)
                        yield c


def _cyc(vals, L):
    return np.array([vals[i % len(vals)] for i in range(L)], float)


def bdrf_f(k):
    """Reflectance functions, deliberately not symmetric in the two directions."""
    def f0(mu, mup):
        mu, mup = np.atleast_1d(mu), np.atleast_1d(mup)
        return 0.12 + 0.2 * np.outer(mu, mup**2) + 0.05 * mu[:, None]

    def f1(mu, mup):
        mu, mup = np.atleast_1d(mu), np.atleast_1d(mup)
        return 0.1 * np.outer(np.sqrt(1 - mu**2), mup)

    def f2(mu, mup):
        mu, mup = np.atleast_1d(mu), np.atleast_1d(mup)
        return 0.03 * np.outer(1 - mu**2, 1 - mup**2) - 0.01

    return [f0, f1, f2][k]


def bdrf_list(name):
    return [name] if isinstance(name, float) else {
        "none": [], "white": [1.0], "scalar": [0.3], "func": [bdrf_f(0)], "scalars2": [0.25, 0.05], "funcs3": [bdrf_f(0), bdrf_f(1), bdrf_f(2)],
        "gap": [bdrf_f(0), 0, bdrf_f(2)], "no_mean": [0.0, bdrf_f(1), 0.05],
        "func_scalar": [bdrf_f(0), 0.04], "scalar_func": [0.2, bdrf_f(1)],
        "many": [bdrf_f(0), bdrf_f(1), 0.02, 0.01, bdrf_f(2)] + [0.002] * 14,
        "cached": [bdrf_f(0), 0.04, bdrf_f(2)], "cached_mu0": [bdrf_f(0), 0.04, bdrf_f(2)],
    }[name]


def _name(v, default):
    return v if isinstance(v, str) else default


def _where(w):
    return {"all": slice(None), "first": slice(0, 1), "last": slice(-1, None)}[w]


SWEEP = dict(
    mu0=[0.005, 0.02, 0.15, 0.25, 1 / 3, 0.5, 3**-0.5, 2**-0.5, 0.8, 0.9, 0.99, 0.9999, 1 - 1e-9]
    + [("near", i, d) for i in (0, 1) for d in (1e-3, -1e-5, 2e-6)]
    + [("ims", i, d) for i in (0, 1) for d in (0.0, 1e-15, -1e-12, 1e-9, -1e-6, 1e-3)]
    + [("res", l, k, i, d) for l in (0, -1) for k in (0, 1) for i in (0, 1) for d in (0.0, 1e-15, -1e-12, 1e-9, -1e-7, 1e-4)],
    phi0=[1e-6, 0.5, np.pi / 2, 2.0, np.pi, 4.0, 3 * np.pi / 2, 6.28],
    I0=[1e-12, 1e-8, 1e-5, 0.1, 1.0, np.pi, 10.0, 1e3, 1e6, 1e10],
    om=[(w, v) for w in ("all", "first", "last") for v in (1e-6, 1e-4, 0.01, 0.1, 0.25, 0.5, 0.75, 0.97, 0.999, 0.9999, 1 - 1e-6, 1 - 1e-7)],
    leg=[("g", v) for v in (-0.7, -0.3, -0.1, -0.01, 0.01, 0.05, 0.1, 0.2, 0.4, 0.65, 0.75)],
    tau=[(w, v) for w in ("all", "first", "last") for v in (1e-8, 1e-6, 1e-4, 0.01, 0.1, 0.3, 2.0, 4.0, 10.0, 30.0, 100.0)],
    f=[(w, v) for w in ("all", "first", "last") for v in (1e-9, 1e-3, 0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97)],
    s=[(n, v) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9) for v in ((1.0,) if n > 3 else (1.0, 1e-9, 1e-4, 1e4, 1e9))],
    bp=[(k, v) for k in ("scalar", "vector", "matrix") for v in (1e-9, 1e-4, 10.0, 1e4, 1e9)],
    bn=[(k, v) for k in ("scalar", "vector", "matrix") for v in (1e-9, 1e-4, 10.0, 1e4, 1e9)],
    bdrf=[1e-9, 1e-3, 0.01, 0.1, 0.5, 0.9, 0.99],
    NQ=[2, 4, 6, 8, 10, 12, 14, 16, 18, 20],
    L=list(range(1, 15)),
)


SWEEP_RULE = (" Plus sweeps around base configurations: every parameter alone through a finer list of values (space.SWEEP: 13 beam angles and 66 at or near removable singularities, "
              "10 intensities, 36 albedo, 33 thickness and 27 peak-fraction settings, 1 to 9 source coefficients, 1 to 14 layers, 2 to 20 streams, ...).")


def sweeps(bases, dims=None, fixed=None, joint=True, resonant=False):
    """Around each base: every parameter alone through a finer list of values, all (moments used, moments given), all
    (moments, modes) and all (layers, solver threshold) pairs of small sizes. At a resonance the solution is a difference of
    numbers 1e8 times larger: only for comparisons with the model, not for relations required to near roundoff."""
    seen = set()
    for b in bases:
        base = dict(BASES[b], **(fixed or {}))
        out = [dict(base, **{d: v}) for d in (dims or SWEEP) for v in SWEEP[d]
               if resonant or not (isinstance(v, tuple) and v[0] == "res" and abs(v[-1]) < 1e-6)]
        if joint:
            out += [dict(base, NQ=q, NLeg=n, NLall=a) for q in (2, 4, 6) for n in range(1, q + 1) for a in range(n, 2 * q + 2)]
            out += [dict(base, NQ=q, NLeg=n, NF=m) for q in (4, 6, 8) for n in range(1, q + 1) for m in range(1, n + 1)]
            out += [dict(base, L=l, band=t) for l in range(1, 13) for t in range(3, 15)]
        for c in out:
            k = tuple(c.items())
            if k not in seen:
                seen.add(k)
                yield c


def _special_mu0(m, p, x, th):
    """Beam angles at which a formula of the solution has a removable singularity, times 1 + offset.
    ("near", i, d): node i; ("ims", i, d): the scaled beam of the secondary correction meets node i;
    ("res", layer, mode, i, d): the beam decays like the i-th steepest eigensolution of a layer."""
    from . import refmodel
    d = m[-1]
    if m[0] == "near":
        mu0 = x[m[1]] * (1 + d)
    elif m[0] == "ims":
        mu0 = x[m[1]] / (1 / (1 - np.sum(th * p["f_arr"] * p["omega_arr"]) / np.sum(th))) * (1 + d)
    else:
        P = refmodel.Problem(**p)
        l, k = m[1] % P.L, min(m[2], P.NF - 1)
        A = (np.diag(np.full(P.NQ, P.sig[l])) - P.om[l] / 2 * P.modes(l, P.mu, P.mu)[k] * P.ww[None, :]) / P.mu[:, None]
        lam = np.sort(np.linalg.eigvals(A).real)[::-1][: P.N] / P.sig[l]
        lam = lam[lam > 1.0]
        mu0 = 1 / lam[min(m[3], len(lam) - 1)] * (1 + d) if len(lam) else 0.6
    return min(float(mu0), 1.0)


def sizes(c):
    NQ = c["NQ"]
    get = lambda table, v: v if isinstance(v, int) else table[v]  # sweeps give numbers
    NLeg = get({"full": NQ, "less": max(1, NQ - 1), "one": 1}, c["NLeg"])
    NF = get({"full": NLeg, "mid": max(1, (NLeg + 1) // 2), "one": 1}, c["NF"])
    NLall = get({"min": NLeg if c["NLeg"] != "full" else NQ, "plus1": NQ + 1, "big": 2 * NQ + 3}, c["NLall"])
    return NQ, NQ // 2, NLeg, NF, NLall


def resolve(c):
    """-> plain dict of numbers (problem inputs), fresh arrays."""
    L = c["L"]
    NQ, N, NLeg, NF, NLall = sizes(c)
    many = L > 4
    th = {
        "mid": _cyc([0.5, 0.7, 0.8, 0.3, 0.6], L), "equal": np.full(L, 0.5), "thin": _cyc([1e-3, 2e-3, 5e-4], L),
        "thick": _cyc([8.0, 11.0, 5.0], L) * (0.25 if many else 1.0), "mixed": _cyc([0.02, 6.0, 0.01, 2.0], L),
    }.get(_name(c["tau"], "mid"))
    if isinstance(c["tau"], tuple):  # ("all" | "first" | "last", value)
        th[_where(c["tau"][0])] *= c["tau"][1]
    om = {
        "mid": _cyc([0.9, 0.5, 0.7, 0.95, 0.3], L), "equal": np.full(L, 0.8), "zero_all": np.zeros(L),
        "zero_top": _cyc([0.9, 0.5, 0.7], L), "zero_mid": _cyc([0.9, 0.5, 0.7], L), "zero_bot": _cyc([0.9, 0.5, 0.7], L),
        "near1": _cyc([0.999, 0.99, 0.995], L), "weak": _cyc([2e-5, 1e-5, 3e-5], L),
    }.get(_name(c["om"], "mid"))
    if isinstance(c["om"], tuple):
        om[_where(c["om"][0])] = c["om"][1]
    if c["om"] == "zero_top":
        om[0] = 0
    if c["om"] == "zero_bot":
        om[-1] = 0
    if c["om"] == "zero_mid":
        om[L // 2] = 0
    ell = np.arange(NLall)
    hg = lambda g: np.array([x ** ell for x in _cyc(g, L)])
    if isinstance(c["leg"], tuple):  # ("g", value)
        leg = hg([c["leg"][1], c["leg"][1] / 2])
    elif c["leg"] == "hg":
        leg = hg([0.7, 0.5, 0.3, 0.6])
    elif c["leg"] == "iso":
        leg = hg([0.0])
    elif c["leg"] == "rayleigh":
        leg = np.zeros((L, NLall)); leg[:, 0] = 1; leg[:, 2:3] = 0.1
    elif c["leg"] == "neg":
        leg = hg([-0.5, 0.4, -0.2])
    elif c["leg"] == "strong":
        leg = hg([0.8, 0.78, 0.75])
    elif c["leg"] == "odd":
        leg = np.zeros((L, NLall)); leg[:, 0] = 1; leg[:, 1:2] = 0.25; leg[:, 3:4] = 0.06
    elif c["leg"] == "twins":  # the layers agree in their first moments only
        leg = hg([0.5])
        leg[1::2, 2:] *= -0.6
        leg[2::4, 3:] *= 0.2
    else:  # mixed: every layer a different kind
        leg = hg([0.8, 0.0, -0.3, 0.6])
        if L > 2:
            leg[2, 1:2] = 0.0
    f = np.zeros(L)
    if isinstance(c["f"], tuple):  # ("all" | "first" | "last", value): a peak of that size is added to the phase function
        w = _where(c["f"][0])
        f[w] = c["f"][1]
        leg = f[:, None] + (1 - f)[:, None] * leg
    elif c["f"] == "hetero":
        f = _cyc([0.24, 0.06, 0.13, 0.18], L)
    elif c["f"] == "uniform":
        f = np.full(L, 0.15)
    elif c["f"] == "top":
        f[0] = 0.2
    elif c["f"] == "bottom":
        f[-1] = 0.2
    elif c["f"] == "big":
        f = _cyc([0.6, 0.45], L)
    x = (np.polynomial.legendre.leggauss(N)[0] + 1) / 2
    mu0 = c["mu0"]
    if isinstance(mu0, tuple):
        mu0 = _special_mu0(mu0, dict(tau_arr=np.cumsum(th), omega_arr=om, NQuad=NQ, Leg=leg, NLeg=NLeg, NFourier=NF, f_arr=f), x, th)
    mu0 = float(x[0]) if mu0 == "node" else float(mu0)
    if c["NT"] and np.any(abs(x - mu0) < 1e-6):
        mu0 = 0.43
    ang = lambda a: _cyc([1.3, 0.6, 1.7, 1.0] if a == 0.4 else [0.7, 1.4, 0.5, 1.1], N)  # not monotone in the direction
    bc = lambda name, a: {
        "none": 0, "scalar": a, "vector": a * ang(a),
        "matrix": a * ang(a)[:, None] * (0.4 ** np.arange(NF) * np.where(np.arange(NF) % 2, -1, 1))[None, :],
    }[name] if isinstance(name, str) else bc(name[0], a) * name[1]  # sweeps: (option, factor)
    s = {
        "none": None, "const": _cyc([1.0, 0.6, 0.9], L)[:, None],
        "linear": np.stack([_cyc([1.0, 0.6, 0.9], L), _cyc([0.3, 0.5, 0.1], L)], 1),
        "quad": np.stack([_cyc([1.0, 0.6], L), _cyc([0.3, 0.5, 0.1], L), _cyc([0.05, 0.2], L)], 1),
        "quart": np.stack([_cyc([1.0, 0.6], L), _cyc([0.3, 0.5, 0.1], L), _cyc([0.05, 0.2], L), _cyc([0.02, 0.01, 0.0], L), _cyc([0.004, 0.0, 0.01], L)], 1),
        "zero0": np.stack([np.zeros(L), _cyc([0.4, 0.7], L)], 1),
        "ragged": np.stack([_cyc([0.5, 0.0, 0.9], L), _cyc([0.0, 0.4, 0.1], L), _cyc([0.1, 0.0, 0.0], L)], 1),
    }.get(c["s"], "partial")
    if isinstance(c["s"], tuple):  # (number of coefficients, factor)
        s = c["s"][1] * np.stack([_cyc([1.0, 0.6, 0.8], L) * (-0.45 if j == 2 else 0.4) ** j / (j + 1) for j in range(c["s"][0])], 1)
    elif isinstance(s, str):
        s = np.zeros((L, 2))
        s[L // 2 if c["s"] == "mid_only" else L - 1] = [0.8, 0.2]
    return dict(tau_arr=np.cumsum(th), omega_arr=om, NQuad=NQ, Leg=leg, mu0=mu0, I0=float(c["I0"]), phi0=float(c["phi0"]),
                NLeg=NLeg, NFourier=NF, b_pos=bc(c["bp"], 0.4), b_neg=bc(c["bn"], 0.7), f_arr=f, bdrf=bdrf_list(c["bdrf"]), s_poly=s)


def depths(p, per_layer=(0.31, 0.77), edges=True, max_layers=4):
    """Depths of interest: both ends, interfaces, and interior points of the layers."""
    t = np.concatenate([[0.0], p["tau_arr"]])
    L = len(t) - 1
    ls = range(L) if L <= max_layers else sorted({0, 1, L // 2, L - 2, L - 1})
    out = []
    for l in ls:
        if edges:
            out.append(t[l])
        out += [t[l] + a * (t[l + 1] - t[l]) for a in per_layer]
    if edges:
        out.append(t[-1])
    return np.unique(np.array(out))


PHIS = np.array([0.0, 1.1, 4.0])
