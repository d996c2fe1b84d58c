import numpy as np
from math import pi
from .. import api, space
from ..refmodel import Problem

RULE = ("Every configuration within k deviations (quick 2, thorough 3 on the boundary-related dimensions) of six bases; on the real outputs, the boundary equations are evaluated "
        "directly: azimuthal modes of u at the top and bottom by discrete projection, downward modes at the top = prescribed top source, upward modes at the bottom = bottom source + "
        "reflectance quadrature of the downward modes + reflected attenuated beam; u, u0 and fluxes just above and just below every interface agree; rtol 1e-6 of the local magnitude.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
ALL = ["simple", "all", "thermal", "solar", "nt", "layers"]


def cases(tier):
    d = {"NQ": [16], "phi0": [5.9]}
    cs = list(space.enumerate_configs(ALL, 2, drop=d))
    cs += list(space.sweeps(ALL, joint=False, resonant=True)) + list(space.sweeps(["all"], resonant=True))
    if tier == "thorough":
        cs += list(space.enumerate_configs(ALL, 3, dims=["L", "NQ", "NF", "om", "mu0", "I0", "bp", "bn", "f", "bdrf", "s", "band"], drop=d))
    return cs


def run(c, x):
    p = space.resolve(c)
    sol = api.solve(x, c, p)
    P = Problem(**p)
    N, NF = P.N, P.NF
    x.state(sorted(c.items()))
    T = float(P.tau[-1])
    K = 2 * max(NF, P.Leg.shape[1]) + 3
    ph = P.phi0 + 2 * pi * np.arange(K) / K
    ends = sol.u([0.0, T], ph)
    norm = np.where(np.arange(NF) == 0, 1.0, 2.0)
    modes = np.einsum("itk,mk->mit", ends, np.cos(np.arange(NF)[:, None] * (P.phi0 - ph)[None, :])) / K * norm[:, None, None]
    mag = np.abs(ends).max()
    nt_on = c["NT"] and P.nt_active()
    for m in range(NF):
        sc = max(mag, np.abs(P.bn[:, m]).max(), np.abs(P.bp[:, m]).max())
        x.close(f"top source, mode {m}", modes[m, N:, 0], P.bn[:, m], 1e-6, scale=sc)
        R, X = P.surface(m)
        if nt_on and len(P.bdrf):
            continue  # corrections are documented not to be reflected by the surface
        x.close(f"bottom equation, mode {m}", modes[m, :N, 1], P.bp[:, m] + R @ modes[m, N:, 1] + X, 1e-6, scale=sc)
    # azimuthal mean at the boundaries
    z = sol.u0([0.0, T])
    R, X = P.surface(0)
    sc = np.abs(z).max()
    x.close("top source, azimuthal mean", z[N:, 0], P.bn[:, 0], 1e-6, scale=max(sc, np.abs(P.bn).max()))
    x.close("bottom equation, azimuthal mean", z[:N, 1], P.bp[:, 0] + R @ z[N:, 1] + X, 1e-6, scale=max(sc, np.abs(P.bp).max()))
    if P.L > 1:
        a = P.tau[:-1]
        b = np.nextafter(a, np.inf)
        ra, rb = sol.all(a), sol.all(b)
        api.compare(x, ra, rb, 1e-6, "continuity ")
        x.outcome(ra["u"])
    x.traces += 1
    x.outcome(ends)
