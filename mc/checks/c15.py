import numpy as np
from .. import api, core, space

RULE = ("Every configuration within k deviations of six bases (quick 1 plus 2 on reduced dimensions; thorough 2) x depth/azimuth arguments (scalar, arrays, single) x value/antiderivative x with or without depths returned: the Fourier error equals max |last term|/|u| where the last term is the "
        "difference between the uncorrected solution and the one truncated one mode earlier (the whole intensity when there is one mode), points with |u| below 1e-8 of the source scale ignored, points within two decades of that limit allowed either way; rtol 1e-6; other outputs unchanged and in the documented order.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 1}, "thorough": {"deviations": 2}}
ALL = ["simple", "all", "thermal", "solar", "nt", "layers"]


def cases(tier):
    cs = list(space.enumerate_configs(ALL, 1, drop={"L": [12]}))
    dims = ["L", "NQ", "NF", "NLeg", "I0", "f", "NT", "s", "bn", "om", "mu0", "tau", "leg"]
    cs += list(space.enumerate_configs(["simple", "all", "nt"] if tier == "quick" else ALL, 2, dims=dims if tier == "quick" else None, drop={"L": [12], "NQ": [16]}))
    cs += list(space.sweeps(["all", "nt"], joint=False))
    return cs


def run(c, x):
    p = space.resolve(c)
    x.state(sorted(c.items()))
    sol = api.solve(x, c, p)
    off = api.solve(x, c, p, NT_cor=False)
    NF = p["NFourier"]
    cut = None
    if NF > 1:
        q = dict(p, NFourier=NF - 1)
        for b in ("b_pos", "b_neg"):
            if np.ndim(q[b]) == 2:
                q[b] = q[b][:, : NF - 1]
        cut = api.solve(x, c, q, NT_cor=False)
    e = np.concatenate([[0.0], p["tau_arr"]])
    t = space.depths(p, max_layers=3)[1:]  # (the top has no downward intensity)
    src = max(p["I0"], np.max(p["b_pos"]), np.max(p["b_neg"]), 0.0 if p["s_poly"] is None else np.abs(p["s_poly"]).max() * 3)
    if src == 0:
        src = 1.0
    args = [(t, space.PHIS), (float(t[0]), 0.7), (t[::-1].copy(), 0.7), (t[[1]], space.PHIS), (float(t[-1]), np.array([2.0]))]
    for anti in (False, True):
        for i, (tt, pp) in enumerate(args):
            full = off.u(tt, pp, anti)
            last = full - cut.u(tt, pp, anti) if cut is not None else full
            a = np.abs(full)
            noise = 1e-13 * max(np.abs(full).max(), src)
            with np.errstate(all="ignore"):
                ratio = np.where(a > 0, np.abs(last) / np.where(a > 0, a, 1), 0)
            sure, maybe = a > 1e-7 * src, a > 1e-10 * src
            lo, hi = np.max(ratio[sure], initial=0.0), np.max(ratio[maybe], initial=0.0)
            tol = 1e-6 * max(hi, 1e-3) + noise / (1e-7 * src)
            plain = sol.u(tt, pp, anti)
            for arr in (False, True):
                r = x.call(sol.uf, tt, pp, anti, True, arr)
                x.true(f"(u, error{', depths' if arr else ''}): {len(r)} outputs", isinstance(r, tuple) and len(r) == 2 + arr)
                x.close("u next to the error", np.reshape(r[0], plain.shape), plain, 1e-12)
                err = np.asarray(r[1])
                x.true(f"error must be a number, got shape {err.shape}", err.shape == ())
                x.true(f"Fourier error {float(err)!r}, expected between {lo!r} and {hi!r} (args {i}{', antiderivative' if anti else ''})", lo - tol <= err <= hi + tol)
                if arr:
                    x.close("depths next to the error", r[2], p["tau_arr"], 1e-14)
                x.traces += 1
                x.state(sorted(c.items()), i, anti, arr)
            r = x.call(sol.uf, tt, pp, anti, return_tau_arr=True)
            x.true("(u, depths)", isinstance(r, tuple) and len(r) == 2)
            x.close("depths", r[1], p["tau_arr"], 1e-14)
        if not anti:
            x.outcome(lo, hi)
