import numpy as np
from .. import api, core, space

RULE = ("Every configuration within k deviations (quick 2 on a reduced option set and 1 on the full one; thorough 2 on the full one) of six bases x every applicable option or representation change of a fixed menu (solver "
        "threshold below/at/above the layer count, flux-only, automatic-differentiation mode, boundary source scalar/vector/matrix, reflectance number/function/cached/tuple, zero arrays for absent inputs, "
        "trailing zero coefficients, explicit defaults, lists, integers, each array of integral values as an integer array, Fortran-ordered, strided and read-only arrays, positional arguments, one-layer scalars); outputs equal the base outputs, rtol 1e-7.")
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 2}}
ALL = ["simple", "all", "thermal", "solar", "nt", "layers"]
D = {"NQ": [16, 6], "phi0": [5.9, 0.0], "NLeg": ["less"], "I0": [1e-3], "tau": ["thin", "equal"], "leg": ["rayleigh", "odd", "neg"], "om": ["near1", "zero_mid", "equal"], "s": ["zero0", "last_only", "const"], "mu0": ["node", 0.07],
     "bdrf": ["scalars2", "many"], "f": ["bottom", "uniform"]}
POS = ["tau_arr", "omega_arr", "NQuad", "Leg_coeffs_all", "mu0", "I0", "phi0", "NLeg", "NFourier", "b_pos", "b_neg", "only_flux", "f_arr", "NT_cor", "BDRF_Fourier_modes",
       "s_poly_coeffs", "use_banded_solver_NLayers", "autograd_compatible"]


def cases(tier):
    cs = list(space.enumerate_configs(ALL, 1))
    if tier == "quick":
        cs += list(space.enumerate_configs(["all", "nt"], 2, drop=D))
        cs += list(space.enumerate_configs(["simple", "layers"], 2, dims=["L", "NQ", "NF", "I0", "bp", "bn", "f", "bdrf", "s", "band"], drop=D))
    else:
        cs += list(space.enumerate_configs(ALL, 2, drop={"NQ": [16]}))
    seen, out = set(), []
    for c in cs:
        k = tuple(c.items())
        if k not in seen:
            seen.add(k)
            out.append(c)
    ints = ["L", "NQ", "NF", "I0", "bp", "bn", "f", "s", "band"]
    out += [dict(c, ints=True) for c in space.enumerate_configs(ALL, 1)]
    out += [dict(c, ints=True) for c in space.enumerate_configs(["all", "simple", "layers"], 2, dims=ints, drop=D)]
    return out


ARRAYS = ("tau_arr", "omega_arr", "b_pos", "b_neg", "f_arr", "s_poly_coeffs", "Leg_coeffs_all")


def run_ints(c, x):
    """Inputs with integral values, given as integers: each array alone (the others staying as they are), and all."""
    c = dict(c)
    del c["ints"]
    p = space.resolve(c)
    L = len(p["tau_arr"])
    t = None
    kind = c["bdrf"] if not (c["bdrf"] == "cached_mu0" and not p["I0"] > 0) else "cached"
    extra = dict(use_banded_solver_NLayers=c["band"])
    if c["NT"]:
        extra["NT_cor"] = True
    whole = {"tau_arr": np.cumsum([1 + l % 2 for l in range(L)]), "omega_arr": np.zeros(L, int), "f_arr": np.zeros(L, int), "I0": 3, "phi0": 2,
             "Leg_coeffs_all": (np.arange(np.shape(p["Leg"])[1]) == 0).astype(int) * np.ones((L, 1), int)}
    for b in ("b_pos", "b_neg"):
        v = np.asarray(p[b])
        whole[b] = (1 + np.arange(v.size).reshape(v.shape) * 2 % 5)[()] if v.ndim else int(2 * bool(v))
    if p["s_poly"] is not None:
        whole["s_poly_coeffs"] = 1 + np.arange(p["s_poly"].size).reshape(p["s_poly"].shape) % 3
    groups = [[k] for k in whole] + [["b_pos", "b_neg"], list(whole)]
    for g in groups:
        k = api.kwargs(p, kind, **extra)
        if any(a == "s_poly_coeffs" and a not in k for a in g):
            continue
        if "f_arr" in g and c["NT"]:
            continue
        out = []
        for cast in (float, int):
            q = dict(k)
            for a in g:
                v = whole[a]
                q[a] = np.array(v).astype(cast) if np.ndim(v) else cast(v)
            s = api.solve_kw(x, q)
            e = np.concatenate([[0.0], np.atleast_1d(q["tau_arr"])])
            tt = np.unique(np.concatenate([e[:4], 0.4 * e[1:4] + 0.6 * e[:3][:len(e[1:4])]]))
            out.append(s.all(tt, space.PHIS[:2]))
        x.state(sorted(c.items()), g)
        api.compare(x, out[1], out[0], 1e-9, f"{g} as integers: ")
        x.traces += 1
    x.outcome(out[0]["u"])


def const_bdrf(q):
    return lambda mu, mup: np.full((len(mu), len(mup)), q)


def _list(v):
    return v.tolist() if isinstance(v, np.ndarray) else v


def _forder(v):
    return np.asfortranarray(v) if isinstance(v, np.ndarray) else v


def _strided(v):
    if not isinstance(v, np.ndarray) or v.ndim == 0:
        return v
    big = np.full(tuple(2 * s + 1 for s in v.shape), 7.7)
    sl = tuple(slice(1, None, 2) for _ in v.shape)
    big[sl] = v
    return big[sl]


def _readonly(v):
    if isinstance(v, np.ndarray) and v.ndim:
        v = v.copy()
        v.flags.writeable = False
    return v


def variants(c, p):
    """yield (name, overrides, transformed kwargs function or None, keys to compare)"""
    L, NQ, N, NF = len(p["tau_arr"]), p["NQuad"], p["NQuad"] // 2, p["NFourier"]
    for th in sorted({3, L, L + 1, L - 1, 10}):
        if th >= 3 and th != c["band"]:
            yield f"threshold {th}", dict(use_banded_solver_NLayers=th), None
    fl = {"only_flux": True}
    for b in ("b_pos", "b_neg"):
        if np.ndim(p[b]) == 2:
            fl[b] = np.array(p[b])[:, :1]
    yield "only_flux", fl, None
    yield "autograd", dict(autograd_compatible=True), None
    ag = dict(fl, autograd_compatible=True)
    yield "only_flux+autograd", ag, None
    if L >= 3:
        yield "only_flux+banded", dict(fl, use_banded_solver_NLayers=3), None
    for b in ("b_pos", "b_neg"):
        v = p[b]
        if np.ndim(v) == 0:
            if v != 0:
                yield f"{b} vector", {b: np.full(N, v)}, None
                yield f"{b} 1-array", {b: np.array([v])}, None
            m = np.zeros((N, NF)); m[:, 0] = v
            yield f"{b} matrix", {b: m}, None
        elif np.ndim(v) == 1:
            m = np.zeros((N, NF)); m[:, 0] = v
            yield f"{b} matrix", {b: m}, None
            yield f"{b} list", {b: list(v)}, None
        else:
            yield f"{b} nested list", {b: [list(r) for r in v]}, None
    if p["bdrf"]:
        yield "bdrf tuple", dict(BDRF_Fourier_modes=tuple(p["bdrf"])), None
        yield "bdrf constant functions", dict(BDRF_Fourier_modes=[const_bdrf(q) if np.isscalar(q) else q for q in p["bdrf"]]), None
        yield "bdrf numpy scalars", dict(BDRF_Fourier_modes=[np.float64(q) if np.isscalar(q) else q for q in p["bdrf"]]), None
        PD, S = core.impl()
        yield "bdrf cached", dict(BDRF_Fourier_modes=S.cache_BDRF_Fourier_modes(N, p["bdrf"])), None
        if 0 < p["mu0"] <= 1:
            yield "bdrf cached mu0", dict(BDRF_Fourier_modes=S.cache_BDRF_Fourier_modes(N, p["bdrf"], p["mu0"])), None
    else:
        yield "bdrf zero", dict(BDRF_Fourier_modes=[0.0]), None
        yield "bdrf zero function", dict(BDRF_Fourier_modes=[const_bdrf(0.0)] * 2), None
    if not np.any(p["f_arr"]):
        yield "f zeros", dict(f_arr=np.zeros(L)), None
        yield "f scalar zero", dict(f_arr=0), None
    if p["s_poly"] is None:
        yield "s zeros", dict(s_poly_coeffs=np.zeros((L, 3))), None
        yield "s empty", dict(s_poly_coeffs=np.array([[]])), None
    else:
        yield "s trailing zeros", dict(s_poly_coeffs=np.hstack([p["s_poly"], np.zeros((L, 1))])), None
        yield "s many trailing zeros", dict(s_poly_coeffs=np.hstack([p["s_poly"], np.zeros((L, 3))])), None
    if not c["NT"]:
        yield "Legendre trailing zeros", dict(Leg_coeffs_all=np.hstack([p["Leg"], np.zeros((L, 3))])), None
        yield "NT_cor False", dict(NT_cor=False), None
    if p["NLeg"] == NQ:
        yield "default NLeg", dict(NLeg=None), None
        if NF == NQ:
            yield "default NFourier", dict(NFourier=None), None
            yield "both defaults", dict(NLeg=None, NFourier=None), None
    yield "lists", {}, _list
    yield "Fortran order", {}, _forder
    yield "strided", {}, _strided
    yield "read-only", {}, _readonly
    yield "numpy scalars", {}, lambda v: np.float64(v) if isinstance(v, float) else (np.int64(v) if isinstance(v, int) and not isinstance(v, bool) else v)
    yield "0-d arrays", {}, lambda v: np.array(v) if isinstance(v, float) else v
    yield "integers", {}, lambda v: int(v) if isinstance(v, float) and v == int(v) else v
    yield "positional", {}, "positional"


def run(c, x):
    if "ints" in c:
        return run_ints(c, x)
    PD, S = core.impl()
    p = space.resolve(c)
    x.state(sorted(c.items()))
    t = space.depths(p, (0.4,), max_layers=3)
    ph = space.PHIS[:2]
    kind = c["bdrf"] if not (c["bdrf"] == "cached_mu0" and not p["I0"] > 0) else "cached"
    extra = dict(use_banded_solver_NLayers=c["band"])
    if c["NT"]:
        extra["NT_cor"] = True
    base = api.solve_kw(x, api.kwargs(p, kind, **extra))
    b = base.all(t, ph)
    x.outcome(b["u"], b["up"])
    for name, over, tr in variants(c, p):
        k = api.kwargs(p, kind, **extra)
        k.update(over)
        if tr == "positional":
            import inspect
            full = {n: v.default for n, v in inspect.signature(PD.pydisort).parameters.items()}
            args = [k.get(n, full.get(n)) for n in POS]
            out = x.call(PD.pydisort, *args)
        else:
            if tr is not None:
                k = {n: tr(v) for n, v in k.items()}
            out = x.call(PD.pydisort, **k)
        x.true(f"{name}: number of outputs", len(out) == (4 if k.get("only_flux") else 5))
        s = api.Sol(x, out, p["NQuad"])
        r = s.all(t, ph)
        x.close(f"{name}: mu", s.mu, base.mu, 1e-12)
        api.compare(x, r, b, 1e-7, f"{name}: ")
        x.state(sorted(c.items()), name)
        x.traces += 1
    if len(p["tau_arr"]) == 1:  # one layer: scalars and one-dimensional arrays
        k = api.kwargs(p, kind, **extra)
        k["tau_arr"] = float(p["tau_arr"][0]); k["omega_arr"] = float(p["omega_arr"][0]); k["Leg_coeffs_all"] = np.array(p["Leg"][0])
        if "f_arr" in k:
            k["f_arr"] = float(p["f_arr"][0])
        if "s_poly_coeffs" in k:
            k["s_poly_coeffs"] = np.array(p["s_poly"][0])
        r = api.solve_kw(x, k).all(t, ph)
        api.compare(x, r, b, 1e-7, "one-layer scalars: ")
        x.traces += 1
