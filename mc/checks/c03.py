import numpy as np
from math import pi
from .. import api, space, quad
from ..refmodel import Problem

RULE = ("Every configuration within k deviations (quick 2; thorough 2 on all options and 3 on a reduced set) of six bases; relations between the real outputs at all depths of interest: fluxes = "
        "quadrature moments of u0 (+ reclassified peak), mean over azimuth of u = u0 (corrections off), direct = I0 mu0 exp(-tau/mu0); and, for every layer, an interior interval and the whole "
        "atmosphere, change of net flux = integral of (1-omega)(4 pi J + beam - 4 pi s) by composite Gauss quadrature of the real outputs; rtol 1e-6.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
ALL = ["simple", "all", "thermal", "solar", "layers"]


def cases(tier):
    d = {"NQ": [16], "phi0": [5.9]}
    cs = list(space.enumerate_configs(ALL, 2, fixed={"NT": False}, drop=d))
    cs += list(space.enumerate_configs(["nt"], 1, drop=d))
    cs += list(space.sweeps(ALL, fixed={"NT": False}, joint=False, resonant=True)) + list(space.sweeps(["all"], fixed={"NT": False}, resonant=True))
    if tier == "thorough":
        cs += list(space.enumerate_configs(["simple", "all", "thermal"], 3, fixed={"NT": False}, drop={"NQ": [16, 6], "phi0": [5.9], "L": [12]}))
    return cs


def run(c, x):
    p = space.resolve(c)
    sol = api.solve(x, c, p)
    P = Problem(**p)
    N = P.N
    x.state(sorted(c.items()))
    t = space.depths(p)
    r = sol.all(t)
    mag = np.maximum(np.abs(r["u0"]).max(axis=0), 1e-6 * max(np.abs(r["u0"]).max(), P.I0))
    st = np.array([P.stau_at(v) for v in t])
    beam_s = P.I0 * np.exp(-st / P.mu0) if P.I0 > 0 else np.zeros(len(t))
    beam = P.I0 * np.exp(-t / P.mu0) if P.I0 > 0 else np.zeros(len(t))
    magb = np.maximum(mag, beam)
    x.close("upward flux is the moment of u0", r["up"], 2 * pi * (P.w * P.x) @ r["u0"][:N], 1e-6, scale=mag)
    x.close("downward flux is the moment of u0", r["down"], 2 * pi * (P.w * P.x) @ r["u0"][N:] + P.mu0 * (beam_s - beam), 1e-6, scale=magb)
    x.close("direct flux", r["direct"], P.mu0 * beam, 1e-9, scale=np.maximum(P.mu0 * beam, 1e-12 * P.I0))
    if not c["NT"]:
        K = 2 * P.NF + 1
        um = sol.u(t, 0.3 + 2 * pi * np.arange(K) / K).mean(axis=2)
        x.close("azimuthal mean of u", um, r["u0"], 1e-6, scale=mag[None, :])
    # energy balance on intervals
    nets = lambda tt: (lambda a, b: a - b[0] - b[1])(sol.up(tt), sol.down(tt))
    total, ends = 0.0, []
    scale = 0.0
    ls = range(P.L)
    for l in ls:
        a, b = P.edges[l], P.edges[l + 1]
        lo = np.nextafter(a, np.inf) if l else 0.0
        for (u_, v_) in [(lo, b)] + ([(a + 0.21 * (b - a), a + 0.55 * (b - a))] if P.L <= 3 else []):
            tt, ww = quad.panels(u_, v_, 5 * min(P.x.min(), P.mu0 if P.I0 > 0 else 1))
            tt = np.clip(tt, lo, b)
            z = sol.u0(tt)
            bs = P.I0 * np.exp(-(P.stau[l] + P.sig[l] * (tt - a)) / P.mu0) if P.I0 > 0 else 0.0
            s = np.polynomial.polynomial.polyval(tt, P.s[l])
            ab = (1 - P.om[l]) * (2 * pi * P.ww @ z + bs)
            em = (1 - P.om[l]) * 4 * pi * s
            drop = ww @ (ab - em)
            n = nets(np.array([u_, v_]))
            gross = 2 * pi * np.abs(z).max() + np.max(bs)
            x.close(f"energy balance in layer {l}", n[1] - n[0], drop, 1e-6, scale=max(np.abs(n).max(), ww @ np.abs(ab) + ww @ np.abs(em), 1e-3 * gross))
            if (u_, v_) == (lo, b):
                total += drop
                scale = max(scale, ww @ np.abs(ab) + ww @ np.abs(em), gross)
    n = nets(np.array([0.0, P.edges[-1]]))
    x.close("energy balance of the atmosphere", n[1] - n[0], total, 1e-6, scale=scale)
    x.traces += 1
    x.outcome(r["up"], r["u0"])
