import numpy as np
from .. import api, core, space

RULE = ("Every configuration within k deviations (quick 1 on six bases, 2 over reduced dimensions on three; thorough 2) solved in automatic-differentiation mode; autograd's derivative of {Fp, Fm diffuse, Fm direct, u0, u (several azimuths, one azimuth)} with respect to depth, for scalar depths "
        "and (as a full Jacobian, which must be diagonal) arrays spanning all layers, equals the derivative from a Chebyshev fit of the function of an ordinary solve within the layer; the derivative of each antiderivative equals the output; rtol 2e-6 of the derivative's magnitude scale.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 1}, "thorough": {"deviations": 2}}
ALL = ["simple", "all", "thermal", "solar", "nt", "layers"]
K = 12
NODES = np.cos(np.pi * (np.arange(K) + 0.5) / K)
# derivative at the centre of the panel from values at the Chebyshev nodes
_V = np.polynomial.chebyshev.chebvander(NODES, K - 1)
_D = np.array([np.polynomial.chebyshev.chebval(0.0, np.polynomial.chebyshev.chebder(np.eye(K)[j])) for j in range(K)]) @ np.linalg.inv(_V)


def cases(tier):
    cs = list(space.enumerate_configs(ALL, 1, drop={"L": [12], "NQ": [16]}))
    dims = ["L", "NQ", "NF", "I0", "f", "NT", "s", "om", "tau"]
    cs += list(space.enumerate_configs(["simple", "all", "nt"] if tier == "quick" else ALL, 2, dims=dims if tier == "quick" else None, drop={"L": [12], "NQ": [16, 8], "NF": ["mid"], "tau": ["equal"]}))
    cs += list(space.sweeps(["all"], joint=False))
    return cs


def run(c, x):
    import autograd
    PD, S = core.impl()
    p = space.resolve(c)
    x.state(sorted(c.items()))
    sol = api.solve(x, c, p, autograd_compatible=True)
    plain = api.solve(x, c, p)
    NQ = sol.NQ
    e = np.concatenate([[0.0], p["tau_arr"]])
    L = len(e) - 1
    ls = range(L) if L <= 3 else (0, L // 2, L - 1)
    mumin = min(np.min(plain.mu[: NQ // 2]), p["mu0"] if p["I0"] > 0 else 1.0)
    pts, hs = [], []
    for l in ls:
        for a in (0.2, 0.65):
            h = e[l + 1] - e[l]
            pts.append(e[l] + a * h)
            hs.append(min(0.15 * h, 0.4 * mumin))
    pts, hs = np.array(pts), np.array(hs)
    ph = np.array([0.3, 2.9])
    grid = (pts[:, None] + hs[:, None] * NODES[None, :]).ravel()

    fs = {
        "Fp": (lambda t, a=False: sol.Fp(t, a), lambda t, a=False: plain.Fp(t, a)),
        "Fm diffuse": (lambda t, a=False: sol.Fm(t, a)[0], lambda t, a=False: plain.Fm(t, a)[0]),
        "Fm direct": (lambda t, a=False: sol.Fm(t, a)[1], lambda t, a=False: plain.Fm(t, a)[1]),
        "u0": (lambda t, a=False: sol.u0f(t, a), lambda t, a=False: plain.u0f(t, a)),
        "u": (lambda t, a=False: sol.uf(t, ph, a), lambda t, a=False: plain.uf(t, ph, a)),
        "u one azimuth": (lambda t, a=False: sol.uf(t, 1.7, a), lambda t, a=False: plain.uf(t, 1.7, a)),
    }
    size = max(float(np.abs(plain.uf(grid, ph)).max()), 1e-300) * 2 * np.pi

    def to_axes(v, name, n):
        """-> (n depths, rest)"""
        v = np.asarray(v)
        if name.startswith(("F", "act")):
            return v.reshape(n, 1)
        v = v.reshape(NQ, n, -1)
        return v.transpose(1, 0, 2).reshape(n, -1)

    for name, (fa, fp) in fs.items():
        val = to_axes(x.call(fp, grid), name, grid.size).reshape(len(pts), K, -1)
        d = np.einsum("k,pkr->pr", _D, val) / hs[:, None]
        sc = np.maximum(np.abs(val).max(axis=(1, 2))[:, None] / np.minimum(hs[:, None] / 0.4, 1.0), 1e-4 * size)
        v0 = to_axes(x.call(fp, pts), name, len(pts))
        vscale = np.maximum(np.abs(v0).max(axis=1)[:, None], 1e-4 * size)
        if name == "Fm direct" and not p["I0"] > 0:
            continue  # identically zero: nothing to differentiate
        # scalar depth
        for i in (0, len(pts) - 1):
            g = x.call(autograd.jacobian(fa), float(pts[i]))
            x.close(f"d({name})/dtau at a scalar depth", np.asarray(g).reshape(-1), d[i].reshape(-1), 2e-6, scale=sc[i])
            if name.startswith("u"):
                g = x.call(autograd.jacobian(lambda t: fa(t, True)), float(pts[i]))
                x.close(f"d(antiderivative of {name})/dtau at a scalar depth", np.asarray(g).reshape(-1), v0[i].reshape(-1), 2e-6, scale=vscale[i])
        # arrays: Jacobian is diagonal in the depths
        for anti in (False, True):
            J = np.asarray(x.call(autograd.jacobian(lambda t: fa(t, anti)), pts))
            J = J.reshape((1 if name.startswith("F") else NQ, len(pts), -1, len(pts))) if not name.startswith("F") else J.reshape(1, len(pts), 1, len(pts))
            J = J.transpose(1, 3, 0, 2).reshape(len(pts), len(pts), -1)
            dg = J[np.arange(len(pts)), np.arange(len(pts))]
            off = J.copy()
            off[np.arange(len(pts)), np.arange(len(pts))] = 0
            x.true(f"d({name})/dtau: derivative with respect to another depth is not zero ({np.abs(off).max():.3e})", np.abs(off).max() <= 1e-9 * max(size, np.abs(J).max()))
            if anti:
                x.close(f"d(antiderivative of {name})/dtau", dg, v0, 2e-6, scale=vscale)
            else:
                x.close(f"d({name})/dtau", dg, d, 2e-6, scale=sc)
        x.state(sorted(c.items()), name)
        x.traces += 1
    x.outcome(d)
