import numpy as np
from .. import api, core, space, quad
from ..refmodel import Problem

RULE = ("Every configuration within k deviations (quick 2; thorough 3 on a reduced set) of five bases; for u (with and without corrections), u0, Fp, Fm (diffuse and direct), actinic fluxes and interpolated "
        "u and u0: in every layer, antiderivative difference between both edges and between interior depths, from one vector call spanning all layers and from scalar calls, equals composite "
        "14-point Gauss quadrature of the real function; rtol 1e-6 of the integral, floored at 1e-5 of the antiderivative's size.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
ALL = ["simple", "all", "thermal", "nt", "layers"]
D = {"NQ": [16, 6], "phi0": [5.9], "I0": [1e-3], "mu0": ["node"]}


def cases(tier):
    cs = list(space.enumerate_configs(["all", "thermal", "nt"], 2, drop=dict(D, NLeg=["less"], bp=["matrix"], leg=["rayleigh", "odd"]))) + list(space.enumerate_configs(ALL, 1, drop={"NQ": [16]}))
    cs += list(space.enumerate_configs(["simple", "layers"], 2, dims=["L", "NQ", "tau", "om", "I0", "bn", "f", "NT", "s"], drop=D))
    cs += list(space.sweeps(["all", "nt"], joint=False))
    if tier == "thorough":
        cs += list(space.enumerate_configs(ALL, 2))
        cs += list(space.enumerate_configs(["all", "nt", "thermal"], 3, dims=["L", "NQ", "NF", "tau", "om", "leg", "I0", "mu0", "bn", "f", "NT", "s"], drop=D))
    return cs


def run(c, x):
    PD, S = core.impl()
    p = space.resolve(c)
    sol = api.solve(x, c, p)
    P = Problem(**p)
    x.state(sorted(c.items()))
    ls = list(range(P.L)) if P.L <= 3 else [0, P.L // 2, P.L - 1]
    iv = []
    for l in ls:
        a, b = P.edges[l], P.edges[l + 1]
        lo = np.nextafter(a, np.inf) if l else 0.0
        iv.append((l, lo, b))
        iv.append((l, a + 0.27 * (b - a), a + 0.6 * (b - a)))
    # unsorted vector call spanning all layers: upper ends first, then lower ends
    va = np.array([i[1] for i in iv])
    vb = np.array([i[2] for i in iv])
    vec = np.concatenate([vb, va])
    ph = space.PHIS[:2]
    mus = np.array([0.3, -0.8])
    act = x.call(S.generate_diff_act_flux_funcs, sol.u0f)
    iu, iu0 = x.call(S.interpolate, sol.uf), x.call(S.interpolate, sol.u0f)

    def evald(t, anti):
        d = sol.all(t, ph, anti)
        d["act_up"] = np.asarray(x.call(act[0], t, anti)).reshape(len(t))
        d["act_down"] = np.asarray(x.call(act[1], t, anti)).reshape(len(t))
        d["interp_u"] = np.asarray(x.call(iu, mus, t, ph, anti)).reshape(2, len(t), len(ph))
        d["interp_u0"] = np.asarray(x.call(iu0, mus, t, anti)).reshape(2, len(t))
        return {k: (np.moveaxis(v, 1, 0) if v.ndim > 1 else v) for k, v in d.items()}

    F = evald(vec, True)
    n = len(iv)
    big = max(np.abs(v).max() for v in F.values())
    for j, (l, a, b) in enumerate(iv):
        tt, ww = quad.panels(a, b, 5 * min(P.x.min(), P.mu0 if P.I0 > 0 else 1))
        tt = np.clip(tt, a, b)
        f = evald(tt, False)
        for k in f:
            want = np.tensordot(ww, f[k], 1)
            got = F[k][j] - F[k][n + j]
            sz = max(np.abs(F[k][j]).max(), np.abs(F[k][n + j]).max())
            x.close(f"{k} over [{a:.4g},{b:.4g}] in layer {l}", got, want, 1e-6, scale=max((np.tensordot(ww, np.abs(f[k]), 1)).max(), 1e-5 * sz, 1e-6 * big))
        if j == 0:
            x.outcome(*[F[k][0] for k in sorted(F)])
    # scalar calls agree with the vector call
    for j in (0, len(vec) - 1):
        one = evald(np.array([vec[j]]), True)
        for k in one:
            x.close(f"{k}: scalar antiderivative call", one[k][0], F[k][j], 1e-8, scale=big)
    x.traces += 1
