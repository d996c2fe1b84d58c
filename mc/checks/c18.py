import numpy as np
from math import comb
from .. import api, core, space

RULE = ("Every configuration within k deviations of six bases (quick 2 on reduced dimensions, thorough 2 on all): rotation of the beam azimuth by {0.7, 2, 4.5} (mod 2pi) rotates u (boundary matrices are relative to the beam) and leaves fluxes, u0 alone; u even about and 2pi-periodic in the azimuth (shifts up to "
        "+-6pi); axisymmetric without beam and boundary modes; without beam and surface, the reversed atmosphere (layers reversed, boundary sources swapped, source polynomial reflected) exchanges up and down in u, u0, fluxes and actinic fluxes; rtol 1e-7 / 1e-6.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 2}}
ALL = ["simple", "all", "thermal", "solar", "nt", "layers"]


def cases(tier):
    dims = ["L", "NQ", "NLeg", "NF", "tau", "om", "leg", "mu0", "phi0", "bn", "f", "NT", "bdrf", "s"]
    cs = [dict(kind="rot", c=c) for c in space.enumerate_configs(ALL, 1)]
    cs += [dict(kind="rot", c=c) for c in space.enumerate_configs(["all", "nt", "layers"] if tier == "quick" else ALL, 2, dims=dims if tier == "quick" else None, drop={"NQ": [16, 6], "L": [12], "I0": [1e-3]})]
    space.BASES["_flip"] = dict(space.BASES["thermal"], bdrf="none", bn="matrix", bp="vector", leg="mixed")
    space.BASES["_flip5"] = dict(space.BASES["layers"], bdrf="none", I0=0.0, s="ragged", f="bottom", NLall="big")
    fd = ["L", "NQ", "NLeg", "NF", "NLall", "tau", "om", "leg", "bp", "bn", "f", "s", "band"]
    cs += [dict(kind="flip", c=c) for c in space.enumerate_configs(["_flip", "_flip5"], 2 if tier == "quick" else 3, dims=fd, drop={"NQ": [16, 6], "L": [12] if tier != "quick" else []})]
    cs += [dict(kind="rot", c=c) for c in space.sweeps(["all"], joint=False)]
    return cs


def flip(p):
    q = dict(p)
    e = np.concatenate([[0.0], p["tau_arr"]])
    T = e[-1]
    q["tau_arr"] = np.cumsum(np.diff(e)[::-1])
    for k in ("omega_arr", "f_arr", "Leg"):
        q[k] = np.array(p[k])[::-1].copy()
    q["b_pos"], q["b_neg"] = p["b_neg"], p["b_pos"]
    if p["s_poly"] is not None:
        s = np.zeros_like(p["s_poly"])
        for l, row in enumerate(p["s_poly"]):
            for n, a in enumerate(row):  # a (T - y)^n
                for k in range(n + 1):
                    s[l, k] += a * comb(n, k) * T ** (n - k) * (-1) ** k
        q["s_poly"] = s[::-1].copy()
    return q


def run(case, x):
    c = case["c"]
    p = space.resolve(c)
    x.state(case["kind"], sorted(c.items()))
    t = space.depths(p, (0.4,), max_layers=3)
    N = p["NQuad"] // 2
    sol = api.solve(x, c, p)
    x.traces += 1
    if case["kind"] == "flip":
        q = flip(p)
        T = p["tau_arr"][-1]
        s2 = api.solve(x, c, q)
        t2 = np.clip(T - t, 0, q["tau_arr"][-1])
        a, b = sol.all(t), s2.all(t2)
        au, ad = sol.actinic(t)
        bu, bd = s2.actinic(t2)
        sw = np.r_[N:2 * N, 0:N]
        got = dict(u=b["u"][sw], u0=b["u0"][sw], up=b["down"], down=b["up"], act_up=bd, act_down=bu)
        want = dict(u=a["u"], u0=a["u0"], up=a["up"], down=a["down"], act_up=au, act_down=ad)
        api.compare(x, got, want, 1e-6, "upside down: ")
        return x.outcome(a["u"])
    ph = np.array([0.2, 1.9, 3.3, 5.8])
    base = sol.all(t, ph)
    beam = p["I0"] > 0
    sc = np.maximum(np.abs(base["u"]).max(axis=(0, 2), keepdims=True), 1e-5 * max(np.abs(base["u"]).max(), 1e-300))
    phi0 = p["phi0"]
    ev = np.array([0.4, 1.3, 2.8])
    x.close("u even in azimuth about the beam", sol.u(t, phi0 + ev), sol.u(t, phi0 - ev), 1e-7, scale=sc)
    for k in (-3, -1, 1, 2):
        x.close("u periodic in azimuth", sol.u(t, ph + 2 * np.pi * k), base["u"], 1e-7, scale=sc)
    if not beam and np.ndim(p["b_pos"]) < 2 and np.ndim(p["b_neg"]) < 2:
        x.close("axisymmetric without azimuthal sources", base["u"], np.broadcast_to(base["u0"][:, :, None], base["u"].shape), 1e-7, scale=sc)
    for d in (0.7, 2.0, 4.5):
        q = dict(p, phi0=(phi0 + d) % (2 * np.pi))
        s2 = api.solve(x, c, q)
        r = s2.all(t, (ph + d) % (2 * np.pi))
        api.compare(x, r, base, 1e-7, f"beam azimuth rotated by {d}: ")
        x.state("rot", d, sorted(c.items()))
    x.outcome(base["u"])
