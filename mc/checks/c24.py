import numpy as np
from .. import api, space

RULE = ("Every configuration within k deviations (quick 2) of six bases x every slab cut out of the atmosphere by a menu of cuts (at an interface, inside the first, middle and last layers, a slab inside one layer, a slab across layers, "
        "the upper and the lower part, the whole): the slab is solved as a problem of its own, with the azimuthal modes of the real intensity at its faces as boundary sources, the beam as attenuated (with delta-M scaling) down to it, the internal "
        "source re-expressed from its top, and the surface only if it contains the bottom; intensity, mean intensity, upward and total downward flux inside it must equal those of the whole atmosphere, rtol 1e-6 per depth.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
ALL = ["simple", "all", "thermal", "solar", "layers"]
D = {"NQ": [16, 6], "phi0": [5.9, 0.0], "L": [12], "I0": [1e-3]}


def cases(tier):
    cs = list(space.enumerate_configs(["all", "layers"], 2, fixed={"NT": False}, drop=D)) + list(space.enumerate_configs(ALL, 1, fixed={"NT": False}))
    cs += list(space.enumerate_configs(["simple", "thermal", "solar"], 2, dims=["L", "NQ", "tau", "om", "leg", "f", "s", "bn", "bp", "bdrf", "band"], fixed={"NT": False}, drop=D))
    cs += list(space.sweeps(["all"], fixed={"NT": False}, joint=False))
    if tier == "thorough":
        cs += list(space.enumerate_configs(ALL, 2, fixed={"NT": False}))
        cs += list(space.enumerate_configs(["all"], 3, fixed={"NT": False}, drop=dict(D, om=["zero_top", "zero_bot"], bdrf=["cached", "cached_mu0", "white", "scalars2"], s=["quart"])))
    return cs


def shift(co, a):
    """coefficients of p(x + a)"""
    P = np.polynomial.polynomial.Polynomial
    out = np.zeros(len(co))
    r = P(co)(P([a, 1.0])).coef
    out[: len(r)] = r
    return out


def stau(p, t):
    """delta-M scaled depth"""
    e = np.concatenate([[0.0], p["tau_arr"]])
    return sum((1 - p["omega_arr"][l] * p["f_arr"][l]) * np.clip(t - e[l], 0, e[l + 1] - e[l]) for l in range(len(e) - 1))


def slab(p, lo, hi, modes_lo, modes_hi):
    q = dict(p)
    e = np.concatenate([[0.0], p["tau_arr"]])
    keep = [l for l in range(len(e) - 1) if e[l + 1] > lo and e[l] < hi]
    q["tau_arr"] = np.minimum(e[1:][keep], hi) - lo
    for k in ("omega_arr", "Leg", "f_arr"):
        q[k] = np.asarray(p[k])[keep]
    if p["s_poly"] is not None:
        q["s_poly"] = np.array([shift(p["s_poly"][l], lo) for l in keep])
    N = p["NQuad"] // 2
    q["b_neg"] = modes_lo[N:]
    q["I0"] = p["I0"] * np.exp(-stau(p, lo) / p["mu0"]) if p["I0"] else 0.0
    if hi < e[-1]:
        q["b_pos"], q["bdrf"] = modes_hi[:N], []
    return q


def run(c, x):
    p = space.resolve(c)
    e = np.concatenate([[0.0], p["tau_arr"]])
    L, T, NF = len(e) - 1, e[-1], p["NFourier"]
    x.state(sorted(c.items()))
    M = L // 2
    at = lambda l, a: e[l] + a * (e[l + 1] - e[l])
    menu = {(at(0, 0.35), T), (0.0, at(L - 1, 0.6)), (at(M, 0.2), at(M, 0.9)), (at(0, 0.5), at(L - 1, 0.5)), (0.0, T)}
    if L > 1:
        menu |= {(e[M], T), (0.0, e[M]), (at(M, 0.5), T)}
    if L > 2:
        menu |= {(e[1], e[L - 1])}
    sol = api.solve(x, c, p)
    az = 2 * np.pi * np.arange(2 * NF + 1) / (2 * NF + 1)
    co = np.cos(np.multiply.outer(np.arange(NF), p["phi0"] - az)) * (np.where(np.arange(NF) == 0, 1, 2) / len(az))[:, None]
    for lo, hi in sorted(menu):
        if not hi > lo:
            continue
        pts = lo + (hi - lo) * np.array([0.0, 0.23, 0.71, 1.0])
        pts[-1] = hi
        ends = np.einsum("itk,mk->itm", sol.u(np.array([lo, hi]), az), co)
        base = sol.all(pts)
        q = slab(p, lo, hi, ends[:, 0], ends[:, 1])
        if q["I0"] == 0 and p["I0"] > 0:
            continue  # the beam has underflowed
        scale = max(np.abs(base["u0"]).max(), 0.0)
        s2 = api.solve(x, c, q)
        got = s2.all(np.minimum(pts - lo, q["tau_arr"][-1]))
        for r in (base, got):
            r["down"] = r["down"] + r.pop("direct")
        api.compare(x, got, base, 1e-6, f"slab {lo:.6g}..{hi:.6g}: ")
        x.state(sorted(c.items()), lo, hi)
        x.traces += 1
        x.outcome(got["u"], scale)
