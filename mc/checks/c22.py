import itertools
import numpy as np
from .. import api, core, space

RULE = ("Every combination of layer patterns (1..3 layers (thorough 4), each layer from thickness {1e-9, 1e-3, 1, 40, 1e3, 1e6} x albedo {0, 1e-15, 1e-9, 0.5, 1-1e-6, 1-1e-9}; all pairs of layer kinds, triples over a reduced set) x phase function {isotropic, HG 0.5 delta-M, HG 0.99 with f = g^NQ (0.95..), Rayleigh, backward} "
        "x sources {beam at cosine 1, 0.6, 0.02, on a node, weak 1e-12, strong 1e12; top; bottom; internal constant, zero at the top, partial, 1e-9; all} x surface {none, albedo 1, function} x streams {2,4,8,16} x corrections on/off within a deviation bound (quick 2): u, u0, fluxes, actinic fluxes and their antiderivatives are finite at both ends, "
        "all interfaces, next to them and inside every layer; for phase functions non-negative after truncation all fluxes (and the mean intensity) are non-negative (down to -2e-11 of the largest, -2e-8 if an albedo is beyond 1-1e-6, where the code warns of instability) and, without internal source, flux out <= flux in (1e-9).")
BOUNDS = {"quick": {"layers": 3, "deviations": 2}, "thorough": {"layers": 4, "deviations": 3}}
TH = [1e-9, 1e-3, 1.0, 40.0, 1e3, 1e6]
OM = [0.0, 1e-9, 0.5, 1 - 1e-6, 1 - 1e-9, 1e-15]
DIM = {
    "NQ": [4, 2, 8, 16],
    "pf": ["iso", "hg", "peak", "rayleigh", "back", "mixed"],
    "src": ["beam", "beam1", "graze", "node", "weak", "strong", "top", "bottom", "sconst", "szero", "spart", "sweak", "all"],
    "surf": ["none", "one", "func", "small"],
    "NT": [False, True],
}
BASE = dict(NQ=4, pf="hg", src="beam", surf="none", NT=False)


def dev(k):
    ks = list(DIM)
    for n in range(k + 1):
        for ds in itertools.combinations(ks, n):
            for vs in itertools.product(*[[o for o in DIM[d] if o != BASE[d]] for d in ds]):
                yield dict(BASE, **dict(zip(ds, vs)))


def cases(tier):
    kinds = list(itertools.product(range(len(TH)), range(len(OM))))
    q = tier == "quick"
    out = []
    for c in dev(2 if q else 3):
        for k in kinds:
            out.append(dict(layers=[k], **c))
    two = [list(t) for t in itertools.product(kinds, repeat=2)]
    few = [(0, 2), (2, 0), (2, 4), (4, 2), (4, 4), (2, 2), (4, 0)]
    three = [list(t) for t in itertools.product(few, repeat=3)]
    for c in dev(1):
        for t in (two if not q else [t for t in two if t[0] in few or t[1] in few]):
            out.append(dict(layers=t, **c))
    for c in ([BASE, dict(BASE, src="all", surf="func"), dict(BASE, src="spart", pf="iso"), dict(BASE, NT=True, pf="mixed", NQ=8)] if q else list(dev(1))):
        for t in three:
            out.append(dict(layers=t, **c))
    if not q:
        for t in itertools.product([(0, 2), (4, 0), (4, 4), (2, 2)], repeat=4):
            out.append(dict(BASE, layers=list(t), src="all", surf="func"))
    return out


def build(c):
    L, NQ = len(c["layers"]), c["NQ"]
    N = NQ // 2
    th = np.array([TH[a] for a, _ in c["layers"]])
    om = np.array([OM[b] for _, b in c["layers"]])
    NL = 3 * NQ
    ell = np.arange(NL)
    leg, f = np.zeros((L, NL)), np.zeros(L)
    for l in range(L):
        pf = c["pf"] if c["pf"] != "mixed" else ["peak", "iso", "hg", "back"][l % 4]
        g = {"iso": 0.0, "hg": 0.5, "peak": 0.99, "back": -0.4, "rayleigh": 0.0}[pf]
        leg[l] = g**ell
        if pf == "rayleigh":
            leg[l, 2] = 0.1
        f[l] = abs(g) ** NQ * (1 if g > 0 else 0)
    src = c["src"]
    x = (np.polynomial.legendre.leggauss(N)[0] + 1) / 2
    k = dict(tau_arr=np.cumsum(th), omega_arr=om, NQuad=NQ, Leg_coeffs_all=leg, mu0=0.6, I0=0.0, phi0=0.3, f_arr=f)
    if src in ("beam", "beam1", "graze", "node", "weak", "strong", "all"):
        k["I0"] = {"weak": 1e-12, "strong": 1e12}.get(src, 1.0)
        k["mu0"] = {"beam1": 1.0, "graze": 0.02, "node": float(x[-1])}.get(src, 0.6)
        if c["NT"] and np.any(np.abs(x - k["mu0"]) < 1e-6):
            k["mu0"] = 0.61
    if src in ("top", "all"):
        k["b_neg"] = 0.8
    if src in ("bottom", "all"):
        k["b_pos"] = 0.6
    T = float(k["tau_arr"][-1])
    if src in ("sconst", "all"):
        k["s_poly_coeffs"] = np.ones((L, 1))
    if src == "sweak":
        k["s_poly_coeffs"] = np.full((L, 1), 1e-9)
    if src == "szero":  # vanishes at the top, linear
        k["s_poly_coeffs"] = np.array([[0.0, 1 / T]] * L)
    if src == "spart":
        s = np.zeros((L, 2))
        s[-1] = [1.0, 0.0]
        k["s_poly_coeffs"] = s
    if c["surf"] == "one":
        k["BDRF_Fourier_modes"] = [1.0]
    elif c["surf"] == "small":
        k["BDRF_Fourier_modes"] = [1e-9]
    elif c["surf"] == "func":
        k["BDRF_Fourier_modes"] = [space.bdrf_f(0), space.bdrf_f(1)] if NQ > 2 else [space.bdrf_f(0)]
    if c["NT"]:
        k["NT_cor"] = True
    return k, th


def nonneg_pf(k):
    """does the truncated phase function of every scattering layer stay non-negative?"""
    nu = np.linspace(-1, 1, 401)
    NQ = k["NQuad"]
    for om, leg, f in zip(k["omega_arr"], k["Leg_coeffs_all"], k["f_arr"]):
        if om > 0:
            c = (2 * np.arange(NQ) + 1) * (leg[:NQ] - f) / (1 - f)
            if np.polynomial.legendre.legval(nu, c).min() < 0:
                return False
    return True


def run(c, x):
    PD, S = core.impl()
    k, th = build(c)
    x.state(*[str(v) for v in c.values()])
    sol = api.solve_kw(x, k)
    e = np.concatenate([[0.0], k["tau_arr"]])
    t = []
    for l in range(len(th)):
        t += [e[l], min(np.nextafter(e[l], np.inf), e[l + 1]), e[l] + 1e-7 * th[l], e[l] + 0.5 * th[l], np.nextafter(e[l + 1], 0)]
    t = np.unique(np.append(np.clip(t, 0, e[-1]), e[-1]))
    big = {}
    for anti in (False, True):
        r = sol.all(t, np.array([0.0, 2.0]), anti)
        r["actinic up"], r["actinic down"] = sol.actinic(t, anti)
        for n, v in r.items():
            x.true(f"{n} is not finite{' (antiderivative)' if anti else ''}: {v.ravel()[~np.isfinite(v.ravel())][:3]} at {np.argwhere(~np.isfinite(v))[:2].tolist()}", np.all(np.isfinite(v)))
            x.true(f"{n} is not real", np.isrealobj(v))
        if not anti:
            big = r
    x.traces += 1
    r = big
    x.outcome(r["up"], r["down"])
    if not nonneg_pf(k):
        return
    tol = 2e-8 if np.any(k["omega_arr"] > 1 - 2e-6) else 2e-11
    smax = float(np.max(np.abs(k["s_poly_coeffs"]))) * max(1.0, 1.0 if c["src"] != "szero" else e[-1]) if "s_poly_coeffs" in k else 0.0
    top = max([float(np.max(np.abs(r[n]))) for n in ("up", "down", "direct", "u0")] + [smax, k["I0"]])  # largest magnitude that enters the arithmetic
    for n in ("up", "down", "direct", "u0", "actinic up", "actinic down"):
        m = float(np.min(r[n]))
        if -m / (top + 1e-300) / tol > x.margin:
            x.margin, x.margin_what = -m / top / tol, f"sign of {n}"
        x.true(f"negative {n}: {m:.3e} (largest output {top:.3e})", m >= -tol * top)
    if "s_poly_coeffs" not in k and c["surf"] != "one" or ("s_poly_coeffs" not in k and "b_pos" not in k):
        fin = r["down"][0] + r["direct"][0] + (np.pi * k.get("b_pos", 0.0))
        # radiation emitted by the surface enters; what the surface reflects stays in the system: absorbed below = net downward flux + emission
        net_top = r["down"][0] + r["direct"][0] - r["up"][0]
        net_bot = r["down"][-1] + r["direct"][-1] - r["up"][-1]
        sc = max(fin, top * 1e-3)
        x.compared += 1
        m = (net_bot - net_top) / sc / tol
        if m > x.margin:
            x.margin, x.margin_what = m, "net flux convergence"
        x.true(f"more flux leaves than enters: net downward {net_top:.6e} at the top, {net_bot:.6e} at the bottom", net_bot <= net_top + tol * sc)
