import numpy as np
from .. import api, space
from .c24 import stau

RULE = ("Every configuration within k deviations (quick 2) of three bases without sources of their own: one solve per direction and per face, with the light of that direction alone in every azimuthal mode. With w the weights and mu the nodes, "
        "w_i mu_i R_ij = w_j mu_j R_ji for reflection at either face and w_i mu_i T_ij = w_j mu_j T'_ji between the two transmissions, in every azimuthal mode (surfaces symmetric in their directions); and a beam along each node gives the same diffuse light as the equivalent boundary "
        "source (I0 (2 - delta_m0) / (2 pi w_j) in each mode) apart from the beam itself; the flux taken out of it agrees too. rtol 1e-7 of the largest entry.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
FIX = {"NT": False, "I0": 0.0, "bp": "none", "bn": "none", "s": "none", "phi0": 1.0}
DROP = {"NQ": [16], "bdrf": ["func", "funcs3", "func_scalar", "scalar_func", "many", "cached", "cached_mu0", "gap", "no_mean"], "mu0": [1.0, 0.07, "node"]}


def sym(k):
    def f(mu, mup):
        mu, mup = np.atleast_1d(mu), np.atleast_1d(mup)
        g = lambda a: (0.2 + 0.3 * a, 0.3 * np.sqrt(1 - a**2), 0.1 * (1 - a**2))[k]
        return 0.8 * np.outer(g(mu), g(mup)) + (0.02 * (mu[:, None] + mup[None, :]) if k == 0 else 0)
    return f


SURFACES = {"sym": [sym(0)], "sym3": [sym(0), sym(1), sym(2)], "sym_scalar": [sym(0), 0.03, sym(2)]}


def cases(tier):
    k = 2 if tier == "quick" else 3
    cs = [dict(c, surface=s) for c in space.enumerate_configs(["simple", "all", "layers"], k, fixed=dict(FIX, bdrf="none"), drop=DROP) for s in (None, "sym3")]
    cs += [dict(c, surface=s) for c in space.enumerate_configs(["simple", "all", "layers"], 1, fixed=dict(FIX, bdrf="none"), drop=DROP) for s in ("sym", "sym_scalar", "scalar", "scalars2", "white")]
    dims = ["om", "leg", "tau", "f", "NQ", "L"]
    cs += [dict(c, surface="sym3") for c in space.sweeps(["simple", "all"], dims=dims, fixed=dict(FIX, bdrf="none"))]
    return cs


def run(c, x):
    c = dict(c)
    surface = c.pop("surface")
    p = space.resolve(c)
    p["bdrf"] = SURFACES.get(surface) or (space.bdrf_list(surface) if surface else [])
    x.state(sorted(c.items()), surface)
    N, NF, T = p["NQuad"] // 2, p["NFourier"], p["tau_arr"][-1]
    az = 2 * np.pi * np.arange(2 * NF + 1) / (2 * NF + 1)
    co = np.cos(np.multiply.outer(np.arange(NF), p["phi0"] - az)) * (np.where(np.arange(NF) == 0, 1, 2) / len(az))[:, None]
    node, w = np.polynomial.legendre.leggauss(N)
    node, w = (node + 1) / 2, w / 2
    out = {}
    mid = np.array([0.0, 0.4 * T, T])
    for face in ("b_neg", "b_pos"):
        for j in range(N):
            b = np.zeros((N, NF))
            b[j] = 1.0
            sol = api.solve(x, c, dict(p, **{face: b}))
            out[face, j] = np.einsum("itk,mk->itm", sol.u(mid, az), co)
            x.close("nodes", sol.mu[:N], node, 1e-12)
    g = lambda face, rows, t: np.stack([out[face, j][rows, t] for j in range(N)], 1)  # (i, j, m)
    up, dn = slice(0, N), slice(N, None)
    wm = (w * node)[:, None, None]
    Rt, Rb = wm * g("b_neg", up, 0), wm * g("b_pos", dn, 2)
    Td, Tu = wm * g("b_neg", dn, 2), wm * g("b_pos", up, 0)
    sw = lambda A: np.swapaxes(A, 0, 1)
    for name, A, B in (("reflection at the top", Rt, sw(Rt)), ("reflection at the bottom", Rb, sw(Rb)), ("transmission down and up", Td, sw(Tu))):
        if surface and name != "reflection at the top":
            continue  # a source at the bottom then includes light that comes back from the surface
        x.close(name, A, B, 1e-7, scale=np.maximum(np.abs(B).max(), 1e-12 * wm.max()))
    for j in range(N):
        sol = api.solve(x, c, dict(p, I0=2.0, mu0=float(node[j])))
        m = np.arange(NF)
        want = out["b_neg", j] * (2.0 * np.where(m == 0, 1, 2) / (2 * np.pi * w[j]))[None, None, :]
        got = np.einsum("itk,mk->itm", sol.u(mid, az), co)
        amp = 2.0 * np.where(m == 0, 1, 2) / (2 * np.pi * w[j])
        att = np.exp(-np.array([stau(p, t) for t in mid]) / node[j])
        got[N + j] += att[:, None] * amp[None, :]
        x.close(f"beam along node {j} against the boundary source", got, want, 1e-6, scale=np.abs(want).max(axis=(0, 2), keepdims=True))
        d = sol.all(mid)
        u0 = want[:, :, 0]
        x.close(f"upward flux of a beam along node {j}", d["up"], 2 * np.pi * (w * node) @ u0[:N], 1e-6, scale=np.abs(u0).max())
        x.close(f"downward flux of a beam along node {j}", d["down"] + d["direct"], 2 * np.pi * (w * node) @ u0[N:], 1e-6, scale=np.abs(u0).max())
        x.traces += 1
        x.outcome(got)
