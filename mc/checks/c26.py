import numpy as np
from .. import api, space
from .c24 import stau

RULE = ("Every configuration within k deviations (quick 2) of six bases, in which every layer has a delta-M fraction or some have: the same atmosphere with the fraction already taken out (thickness, albedo, moments and internal source transformed by the caller, no fractions given) must give, at the transformed depths, the same "
        "intensity, mean intensity, upward flux and total downward flux; and the same atmosphere with a further peak added to every phase function and declared as fraction, in each layer pattern of the menu (all, first, last, alternating; sizes 0.02, 0.3, 0.8), must give the same at the inversely transformed depths. rtol 1e-6 per depth.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
ALL = ["simple", "all", "thermal", "solar", "layers"]
D = {"NQ": [16, 6], "phi0": [5.9, 0.0], "L": [12], "NLeg": [], "I0": [1e-3]}


def cases(tier):
    cs = list(space.enumerate_configs(["all", "layers"], 2, fixed={"NT": False}, drop=D)) + list(space.enumerate_configs(ALL, 1, fixed={"NT": False}))
    cs += list(space.enumerate_configs(["simple", "thermal", "solar"], 2, dims=["L", "NQ", "tau", "om", "leg", "f", "s", "bn", "bp", "NLeg", "NLall", "mu0"], fixed={"NT": False}, drop=D))
    cs += list(space.sweeps(["all", "layers"], fixed={"NT": False}, joint=False))
    if tier == "thorough":
        cs += list(space.enumerate_configs(ALL, 2, fixed={"NT": False}))
        cs += list(space.enumerate_configs(["all"], 3, fixed={"NT": False}, drop=dict(D, om=["zero_top", "zero_bot"], bdrf=["cached", "cached_mu0", "white", "scalars2"], s=["quart"])))
    return cs


def affine(co, a, b):
    """coefficients of p(a x + b)"""
    P = np.polynomial.polynomial.Polynomial
    r = P(co)(P([b, a])).coef
    out = np.zeros(len(co))
    out[: len(r)] = r
    return out


def scaled(p):
    """The problem with the fractions taken out."""
    q = dict(p)
    e = np.concatenate([[0.0], p["tau_arr"]])
    w, f = p["omega_arr"], p["f_arr"]
    a = 1 - w * f
    d = a * np.diff(e)
    q["tau_arr"] = np.cumsum(d)
    q["omega_arr"] = w * (1 - f) / a
    q["Leg"] = (p["Leg"] - f[:, None]) / (1 - f)[:, None]
    q["Leg"][:, 0] = 1
    q["f_arr"] = np.zeros(len(w))
    es = np.concatenate([[0.0], q["tau_arr"]])
    if p["s_poly"] is not None:
        q["s_poly"] = np.array([affine(s, 1 / a[l], e[l] - es[l] / a[l]) for l, s in enumerate(p["s_poly"])])
    return q


def peaked(q, h):
    """The problem with a peak of fraction h added to (and declared for) every layer of a problem without fractions."""
    p = dict(q)
    es = np.concatenate([[0.0], q["tau_arr"]])
    a = 1 / (1 + h * q["omega_arr"] / (1 - h))  # 1 - omega f of the new problem
    d = np.diff(es) / a
    p["tau_arr"] = np.cumsum(d)
    e = np.concatenate([[0.0], p["tau_arr"]])
    p["omega_arr"] = q["omega_arr"] / (1 - h) * a
    p["Leg"] = h[:, None] + (1 - h)[:, None] * q["Leg"]
    p["Leg"][:, 0] = 1
    p["f_arr"] = h
    if q["s_poly"] is not None:
        p["s_poly"] = np.array([affine(s, a[l], es[l] - a[l] * e[l]) for l, s in enumerate(q["s_poly"])])
    return p


def outputs(sol, t):
    r = sol.all(t)
    r["down"] = r["down"] + r.pop("direct")
    return r


def run(c, x):
    p = space.resolve(c)
    L = len(p["tau_arr"])
    x.state(sorted(c.items()))
    t = space.depths(p, max_layers=3)
    if np.any(p["f_arr"]):
        q = scaled(p)
        if c["NLall"] != "min" and not (np.abs(q["Leg"][:, 1:]) < 1).all():
            q["Leg"] = q["Leg"][:, : p["NLeg"]]  # moments not used
        if not (np.abs(q["Leg"][:, 1:]) < 1).all():
            return  # not a problem the caller may give: rejected
        ts = np.minimum([stau(p, a) for a in t], q["tau_arr"][-1])
        base = outputs(api.solve(x, c, p), t)
        qs = api.solve(x, c, q)
        got = outputs(qs, ts)
        api.compare(x, got, base, 1e-6, "fractions taken out beforehand: ")
        x.traces += 1
    else:
        q, ts = p, t
        got = outputs(api.solve(x, c, p), t)
    x.outcome(got["u"], got["up"])
    es = np.concatenate([[0.0], q["tau_arr"]])
    z = np.zeros(L)
    for name, h in (("every layer", z + 0.3), ("first", np.where(np.arange(L) == 0, 0.8, 0.0)), ("last", np.where(np.arange(L) == L - 1, 0.3, 0.0)),
                    ("alternating", np.where(np.arange(L) % 2, 0.02, 0.3))):
        r = peaked(q, h)
        if not (np.abs(r["Leg"][:, 1:]) < 1).all() or (r["omega_arr"] >= 1).any():
            continue
        e = np.concatenate([[0.0], r["tau_arr"]])
        tr = np.minimum(np.interp(ts, es, e), r["tau_arr"][-1])
        g2 = outputs(api.solve(x, c, r), tr)
        api.compare(x, g2, got, 1e-6, f"peak added ({name}): ")
        x.state(sorted(c.items()), name)
        x.traces += 1
