import numpy as np
from .. import api, core, space

RULE = ("Every configuration within k deviations of six bases (quick 1, plus 2 over reduced dimensions); interpolated u and u0 at the quadrature nodes, and at a menu of direction arrays (positive, negative, zero, +-1, mixed order with repeats, scalar, list) equal the "
        "Lagrange polynomial per hemisphere through the node values (own evaluation), for value and antiderivative, several depth/azimuth shapes; flags pass through in order with unchanged values; repeated calls in any order give the same; rtol 1e-8.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 1}, "thorough": {"deviations": 2}}
ALL = ["simple", "all", "thermal", "solar", "nt", "layers"]


def cases(tier):
    cs = list(space.enumerate_configs(ALL, 1))
    dims = ["L", "NQ", "NF", "I0", "f", "NT", "s", "bn", "om", "NLall"]
    cs += list(space.enumerate_configs(["simple", "all", "nt"] if tier == "quick" else ALL, 2, dims=dims if tier == "quick" else None, drop={"L": [12]}))
    cs += list(space.sweeps(["all", "nt"], joint=False))
    return cs


def lagrange(nodes, mu):
    """(len(mu), len(nodes)) Lagrange basis"""
    out = np.ones((len(mu), len(nodes)))
    for j in range(len(nodes)):
        for k in range(len(nodes)):
            if k != j:
                out[:, j] *= (mu - nodes[k]) / (nodes[j] - nodes[k])
    return out


def expect(N, nodes, vals, mu):
    """vals (NQ, ...) -> (len(mu), ...)"""
    mu = np.atleast_1d(np.asarray(mu, float))
    pos = np.tensordot(lagrange(nodes, mu), vals[:N], 1)
    neg = np.tensordot(lagrange(-nodes, mu), vals[N:], 1)
    return np.where((mu > 0).reshape((-1,) + (1,) * (vals.ndim - 1)), pos, neg)


def run(c, x):
    PD, S = core.impl()
    p = space.resolve(c)
    x.state(sorted(c.items()))
    sol = api.solve(x, c, p)
    NQ, N = sol.NQ, sol.NQ // 2
    nodes = np.polynomial.legendre.leggauss(N)[0] / 2 + 0.5
    ipu, ip0 = x.call(S.interpolate, sol.uf), x.call(S.interpolate, sol.u0f)
    t = space.depths(p, (0.31,), max_layers=3)[::-1].copy()
    ph = np.array([0.3, 4.4])
    menu = [nodes, -nodes, np.concatenate([nodes, -nodes])[::-1], np.array([0.0]), 0.0, 0, 1, -1, np.array([1.0, -1.0, 0.0, 0.0]), np.array([-0.7, 0.2, -0.1, 0.95, 0.2, -0.7, 1e-9, -1e-9]), np.array([1e-13, -1e-13, 5e-324, -5e-324, 1 - 1e-15]), [0.6, -0.6], 0.33, -0.33, np.linspace(-1, 1, 41)]
    shapes = [(t, ph), (float(t[1]), 0.3), (t[[1]], ph), (t, 4.4), (0, 0)]
    # (all shapes on the first menu entries, the first shape on all entries)
    plan = [(m, s) for m in menu for s in shapes[:1]] + [(menu[9], s) for s in shapes[1:]] + [(menu[11], s) for s in shapes[1:]]
    first = {}
    for anti in (False, True):
        for i, (mu, (tt, pp)) in enumerate(plan):
            n, nt, npi = np.size(mu), np.size(tt), np.size(pp)
            full = np.asarray(x.call(sol.uf, tt, pp, anti)).reshape(NQ, nt, npi)
            want = expect(N, nodes, full, mu)
            got = np.asarray(x.call(ipu, mu, tt, pp, anti))
            e = tuple(k for k in (n, nt, npi) if k != 1)
            x.true(f"interpolated u: shape {got.shape} instead of {e}", got.shape == e)
            sc = np.maximum(np.abs(want).max(axis=(0, 2), keepdims=True), np.abs(full).max(axis=(0, 2), keepdims=True))
            amp = 1 + np.abs(lagrange(nodes, np.abs(np.atleast_1d(np.asarray(mu, float))))).sum(axis=1).reshape(-1, 1, 1)
            x.close(f"interpolated u at mu={mu}{' antiderivative' if anti else ''}", got.reshape(n, nt, npi), want, 1e-8, scale=np.maximum(sc, 1e-5 * np.abs(full).max()) * amp)
            first[anti, i] = got
            full = np.asarray(x.call(sol.u0f, tt, anti)).reshape(NQ, nt)
            want = expect(N, nodes, full, mu)
            got = np.asarray(x.call(ip0, mu, tt, anti))
            e = tuple(k for k in (n, nt) if k != 1)
            x.true(f"interpolated u0: shape {got.shape} instead of {e}", got.shape == e)
            sc = np.maximum(np.abs(want).max(axis=0, keepdims=True), np.abs(full).max(axis=0, keepdims=True))
            x.close(f"interpolated u0 at mu={mu}{' antiderivative' if anti else ''}", got.reshape(n, nt), want, 1e-8, scale=np.maximum(sc, 1e-5 * np.abs(full).max()) * amp[:, :, 0])
            x.state(sorted(c.items()), anti, i)
    # flags, in every combination
    mu = menu[9]
    for anti in (False, True):
        plain = np.asarray(x.call(ipu, mu, t, ph, anti))
        plain0 = np.asarray(x.call(ip0, mu, t, anti))
        for err in (False, True):
            for arr in (False, True):
                r = x.call(ipu, mu, t, ph, anti, err, arr)
                base = x.call(sol.uf, t, ph, anti, err, arr)
                if not (err or arr):
                    r, base = (r,), (base,)
                x.true(f"interpolated u with flags ({err}, {arr}): {len(r)} outputs instead of {len(base)}", len(r) == len(base) == 1 + err + arr)
                x.close("interpolated u with flags", r[0], plain, 1e-10)
                for a, b in zip(r[1:], base[1:]):
                    x.close("flag output", a, b, 1e-12)
                r = x.call(ipu, mu, t, ph, is_antiderivative_wrt_tau=anti, return_Fourier_error=err, return_tau_arr=arr)
                x.close("interpolated u with flags by name", r[0] if err or arr else r, plain, 1e-10)
                r = x.call(ip0, mu, t, anti, err, arr)
                if arr:
                    x.true("interpolated u0 with depths", isinstance(r, tuple) and len(r) == 2)
                    x.close("interpolated u0, depths", r[1], p["tau_arr"], 1e-14)
                    r = r[0]
                x.close("interpolated u0 with flags", r, plain0, 1e-10)
    # one interpolant, calls in another order
    for i in (len(plan) - 1, 0, 9, 3):
        mu, (tt, pp) = plan[i]
        x.close("repeated call", x.call(ipu, mu, tt, pp), first[False, i], 1e-10)
    x.traces += 1
    x.outcome(first[False, 0])
