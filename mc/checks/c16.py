import numpy as np
from .. import api, core, space

RULE = ("(a) Planck for all temperatures {0, 1e-3, 1, 50..6000 K} x wavenumbers 0, 1e-9..1e5 cm^-1, scalars and arrays with zeros at every position, against 2hc^2 nu^3/(exp(hc nu/kT)-1) (1e-9), finite, non-negative, increasing in temperature; (b) band integrals and per-layer source coefficients for "
        "all (layers 1..5 x temperature profiles x bands) against 20-point Gauss panels (1e-6), value at both edges of every layer; (c) thermal equilibrium for every configuration within k deviations (quick 2) of two bases over streams, layers, thickness, albedo, phase function, delta-M, "
        "surface {none, scalars, functions, cached}, source given as constant or as linear coefficients from the helper: intensity = B everywhere (1e-7).")
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
H, C, KB = 6.62607015e-34, 299792458.0, 1.380649e-23


def planck(T, nu):
    """cm^-1 wavenumber"""
    T = np.asarray(T, float)
    with np.errstate(all="ignore"):
        r = 2e8 * H * C**2 * nu**3 / np.expm1(100 * H * C * nu / (KB * np.where(T > 0, T, 1)))
    return np.where((T > 0) & (nu > 0), r, 0.0)


def band(T, a, b):
    x, w = np.polynomial.legendre.leggauss(20)
    out = []
    for t in np.atleast_1d(T):
        e = np.linspace(a, max(a, min(b, a + 40 * t)), 41)  # beyond it the integrand has decayed by exp(-57)
        h = np.diff(e) / 2
        n = ((e[:-1] + h)[:, None] + h[:, None] * x).ravel()
        out.append(np.sum((h[:, None] * w).ravel() * planck(t, n)))
    return np.array(out)


TEMPS = [0.0, 1e-3, 1.0, 50.0, 200.0, 288.15, 300, 1000.0, 6000.0]
NUS = [0.0, 1e-9, 1e-6, 1e-3, 1.0, 10.0, 300, 667.0, 2500.0, 2e4, 1e5]
BANDS = [(300.0, 800.0), (0.0, 3000.0), (999.0, 1000.0), (2702.99, 2703.01), (80.0, 5000.0), (600, 700), (0.0, 1e5), (0, 1e-3), (1e4, 1.3e5), (500.0, 500.0)]
PROFILES = {"iso": lambda n: np.full(n, 270.0), "up": lambda n: np.linspace(180.0, 310.0, n), "down": lambda n: np.linspace(310.0, 180.0, n), "cold top": lambda n: np.concatenate([[0.0], np.linspace(200, 290, n - 1)]),
            "zigzag": lambda n: 250.0 + 30 * (-1.0) ** np.arange(n), "cold middle": lambda n: np.where(np.arange(n) == n // 2, 0.0, 260.0), "ints": lambda n: np.arange(200, 200 + 10 * n, 10)}
EQ = dict(space.BASES["simple"], I0=0.0)


def cases(tier):
    cs = [dict(kind="planck", nu=n) for n in NUS]
    for b in BANDS:
        cs.append(dict(kind="bc", band=b))
        for L in (1, 2, 3, 5):
            for pr in PROFILES:
                cs.append(dict(kind="spoly", band=b, L=L, profile=pr))
    space.BASES["_eq"] = dict(EQ)
    space.BASES["_eq3"] = dict(EQ, L=3, f="hetero", NLall="big", leg="mixed", bdrf="func_scalar")
    space.BASES["_eq5"] = dict(EQ, L=5, f="bottom", NLall="big", bdrf="scalar", band=3, om="zero_mid")
    dims = ["L", "NQ", "NLeg", "NF", "NLall", "tau", "om", "leg", "f", "bdrf", "band", "phi0"]
    for c in space.enumerate_configs(["_eq", "_eq3", "_eq5"], 2 if tier == "quick" else 3, dims=dims, drop={"NQ": [16]} if tier == "quick" else {"NQ": [16], "L": [12]}):
        cs.append(dict(kind="eq", c=c))
    return cs


def run(case, x):
    PD, S = core.impl()
    kind = case["kind"]
    x.traces += 1
    if kind == "planck":
        nu = case["nu"]
        want = planck(np.array(TEMPS, float), nu)
        for T, w in zip(TEMPS, want):
            x.state(T, nu)
            g = x.call(S.Planck, T, nu)
            x.true(f"Planck({T}, {nu}) is a number", np.ndim(g) == 0)
            x.close(f"Planck({T}, {nu})", g, w, 1e-9, floor=1e-290)
            x.close(f"Planck([{T}], {nu})", np.ravel(x.call(S.Planck, np.array([T]), nu)), np.array([w]), 1e-9, floor=1e-290)
        for perm in range(len(TEMPS)):
            T = np.roll(TEMPS, perm)
            g = x.call(S.Planck, T, nu)
            x.close(f"Planck(array, {nu})", g, np.roll(want, perm), 1e-9, scale=np.maximum(np.abs(np.roll(want, perm)), 1e-290))
        g = x.call(S.Planck, np.array(TEMPS, float), nu)
        x.true("Planck non-negative and non-decreasing in temperature", np.all(g >= 0) and np.all(np.diff(g) >= 0))
        x.close("Planck of zeros", x.call(S.Planck, np.zeros(3), nu), np.zeros(3), 1e-9)
        x.outcome(g)
    elif kind == "bc":
        a, b = case["band"]
        Ts = [0.0, 50.0, 200.0, 288.15, 1000.0]
        w = band(Ts, a, b)
        for T, v in zip(Ts, w):
            x.state(T, a, b)
            g = x.call(S.blackbody_contrib_to_BCs, T, a, b)
            x.true("band integral of one temperature is a number", np.ndim(g) == 0)
            x.close(f"band integral {T} K, {a}..{b}", g, v, 1e-6, floor=1e-12)
        x.close(f"band integrals {a}..{b}", x.call(S.blackbody_contrib_to_BCs, np.array(Ts), a, b), w, 1e-6)
        x.close("keyword arguments pass through", x.call(S.blackbody_contrib_to_BCs, np.array(Ts), a, b, epsrel=1e-10), w, 1e-6)
        x.close(f"band integrals {a}..{b} by a rule that uses the ends", x.call(S.blackbody_contrib_to_BCs, np.array(Ts), a, b, quadrature="trapezoid", epsrel=1e-6, limit=200), w, 1e-3, scale=np.maximum(w, 1e-3 * w.max()))
        x.outcome(w)
    elif kind == "spoly":
        (a, b), L = case["band"], case["L"]
        T = PROFILES[case["profile"]](L + 1)
        tau = np.cumsum([0.3, 0.02, 4.0, 1.0, 0.5][:L])
        x.state(a, b, L, case["profile"])
        e = np.concatenate([[0.0], tau])
        w = band(T, a, b)
        for arg in [tau] + ([float(tau[0])] if L == 1 else [list(tau)]):
            s = x.call(S.generate_s_poly_coeffs, arg, T, a, b)
            x.true(f"one row of two coefficients per layer: {np.shape(s)}", np.shape(s) == (L, 2))
            x.close("source at the top of each layer", s[:, 0] + s[:, 1] * e[:-1], w[:-1], 1e-6, scale=np.max(w))
            x.close("source at the bottom of each layer", s[:, 0] + s[:, 1] * e[1:], w[1:], 1e-6, scale=np.max(w))
        x.outcome(s)
    else:
        c = case["c"]
        p = space.resolve(c)
        x.state(sorted(c.items()))
        L, N = len(p["tau_arr"]), p["NQuad"] // 2
        B = float(band(250.0, 300.0, 800.0)[0])
        modes = list(p["bdrf"])
        if c["bdrf"].startswith("cached") and modes:
            modes = x.call(S.cache_BDRF_Fourier_modes, N, modes)
        em = x.call(S.generate_emissivity_from_BDRF, N, p["bdrf"][0]) if modes else 1.0
        ks = dict(tau_arr=p["tau_arr"], omega_arr=p["omega_arr"], NQuad=p["NQuad"], Leg_coeffs_all=p["Leg"], mu0=0.0, I0=0.0, phi0=0.0, NLeg=p["NLeg"], NFourier=p["NFourier"], f_arr=p["f_arr"], use_banded_solver_NLayers=c["band"],
                  b_neg=B, b_pos=em * B, BDRF_Fourier_modes=modes)
        t = space.depths(p)
        lin = x.call(S.generate_s_poly_coeffs, p["tau_arr"], np.full(L + 1, 250.0), 300.0, 800.0)
        for what, s in (("constant", np.full((L, 1), B)), ("helper", lin), ("quadratic", np.concatenate([np.full((L, 1), B), np.zeros((L, 2))], 1))):
            sol = api.solve_kw(x, dict(ks, s_poly_coeffs=s))
            r = sol.all(t)
            x.close(f"equilibrium ({what} source): u", r["u"], np.full_like(r["u"], B), 1e-7)
            x.close(f"equilibrium ({what} source): u0", r["u0"], np.full_like(r["u0"], B), 1e-7)
            x.close(f"equilibrium ({what} source): up", r["up"], np.full(len(t), np.pi * B), 1e-7)
            x.close(f"equilibrium ({what} source): down", r["down"], np.full(len(t), np.pi * B), 1e-7)
        x.outcome(sorted(c.items()))
