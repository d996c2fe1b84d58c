import numpy as np
from .. import api, space

RULE = ("Every configuration within k deviations (quick 2; thorough 3 on a reduced set) of six bases x every split of the menu {each layer (first, middle, last) split at 0.4, each at (0.1, 0.13, 0.9), "
        "all layers into unequal thirds, first layer into 11 (crosses the banded threshold)}; all outputs incl. corrected intensity and actinic fluxes of the split atmosphere equal those of the "
        "original at all depths of interest incl. the split points; rtol 1e-6.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
ALL = ["simple", "all", "thermal", "solar", "nt", "layers"]
D = {"NQ": [16, 6], "phi0": [5.9, 0.0], "L": [12], "NLeg": ["less"], "I0": [1e-3]}


def cases(tier):
    cs = list(space.enumerate_configs(["all", "nt"], 2, drop=D)) + list(space.enumerate_configs(ALL, 1))
    cs += list(space.enumerate_configs(["simple", "thermal", "layers"], 2, dims=["L", "NQ", "tau", "om", "f", "s", "bn", "bdrf", "NT", "band"], drop=D))
    cs += list(space.sweeps(["all", "nt"], joint=False))
    if tier == "thorough":
        cs += list(space.enumerate_configs(ALL, 2, drop={"NQ": [16]}))
        cs += list(space.enumerate_configs(["all", "nt"], 3, dims=["L", "NQ", "tau", "om", "leg", "mu0", "I0", "f", "s", "bn", "NT", "band"], drop=D))
    return cs


def split(p, parts):
    """parts: {layer: fractions}"""
    q = dict(p)
    e = np.concatenate([[0.0], p["tau_arr"]])
    tau, idx = [], []
    for l in range(len(p["tau_arr"])):
        for a in sorted(parts.get(l, ())):
            tau.append(e[l] + a * (e[l + 1] - e[l])); idx.append(l)
        tau.append(e[l + 1]); idx.append(l)
    q["tau_arr"] = np.array(tau)
    for k in ("omega_arr", "Leg", "f_arr", "s_poly"):
        if p[k] is not None:
            q[k] = np.asarray(p[k])[idx]
    return q


def run(c, x):
    p = space.resolve(c)
    L = len(p["tau_arr"])
    x.state(sorted(c.items()))
    menu = []
    for l in sorted({0, L // 2, L - 1}):
        menu.append({l: (0.4,)})
    menu.append({L // 2: (0.1, 0.13, 0.9)})
    if L <= 5:
        menu.append({l: (0.25, 0.7) for l in range(L)})
    menu.append({0: tuple(round(j / 11, 6) for j in range(1, 11))})
    qs = [split(p, m) for m in menu]
    t = space.depths(p, max_layers=3)
    pts = np.unique(np.concatenate([t, qs[0]["tau_arr"], qs[-1]["tau_arr"][3:5], qs[len(menu) // 2]["tau_arr"]]))
    pts = np.minimum(pts, p["tau_arr"][-1])
    sol = api.solve(x, c, p)
    base = sol.all(pts)
    base["act_up"], base["act_down"] = sol.actinic(pts)
    for m, q in zip(menu, qs):
        s2 = api.solve(x, c, q)
        r = s2.all(pts)
        r["act_up"], r["act_down"] = s2.actinic(pts)
        x.state(sorted(c.items()), str(m))
        api.compare(x, r, base, 1e-6, f"split {m}: ")
        x.traces += 1
    x.outcome(base["u"], base["up"])
