import numpy as np
from .. import api, space

RULE = ("Every configuration within k deviations (quick 2; thorough 3 on a reduced set) of five bases, given all four sources; every output (u incl. corrections, u0, fluxes, direct, actinic) of the joint problem equals the sum over "
        "the four sources alone, also with one source 1e5 times stronger; scaling all sources by 1e-200, 1e-12, 1e-4, 7.3, 1e9 and 1e150 scales every output; each boundary and internal source alone with the opposite sign gives the opposite output, zeroth and higher boundary modes add up; no source gives zeros; rtol 1e-6.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
F = {"s": "linear", "bn": "vector", "bp": "scalar"}
ALL = ["simple", "all", "solar", "nt", "layers"]
D = {"NQ": [16, 6], "phi0": [5.9, 0.0], "I0": [0.0, 1e-3, 3e4], "NLeg": ["less"], "s": ["none"], "bn": ["none"], "bp": ["none"]}


def cases(tier):
    cs = []
    for b in ALL:
        # the fixed sources are defaults that may deviate
        base = dict(space.BASES[b], **{k: v for k, v in F.items()})
        space.BASES["_" + b] = base
    names = ["_" + b for b in ALL]
    cs += list(space.enumerate_configs(names, 1, drop={"s": ["none"], "bn": ["none"], "bp": ["none"], "I0": [0.0]}))
    dims = ["L", "NQ", "NF", "tau", "om", "mu0", "bp", "bn", "f", "NT", "bdrf", "s", "band", "leg"]
    cs += list(space.enumerate_configs(names if tier == "thorough" else ["_all", "_nt", "_simple"], 2, dims=dims, drop=D))
    # near-conservative layers divide rounding errors of the thermal source by powers of the smallest eigenvalue
    cs += [c for c in space.sweeps(["_all", "_nt"], joint=False) if not (isinstance(c["om"], tuple) and c["om"][1] > 1 - 5e-7)]
    if tier == "thorough":
        cs += list(space.enumerate_configs(["_all", "_nt"], 3, dims=["L", "NQ", "tau", "om", "f", "NT", "s", "bn", "bp", "bdrf"], drop=D))
    return cs


def outputs(x, c, p, t):
    s = api.solve(x, c, p)
    r = s.all(t, space.PHIS[:2])
    r["act_up"], r["act_down"] = s.actinic(t)
    return r


def scaled(p, **fac):
    q = dict(p)
    q["I0"] = p["I0"] * fac.get("I0", 1)
    q["b_pos"] = np.asarray(p["b_pos"]) * fac.get("b_pos", 1)
    q["b_neg"] = np.asarray(p["b_neg"]) * fac.get("b_neg", 1)
    q["b_pos"] = q["b_pos"] if q["b_pos"].ndim else float(q["b_pos"])
    q["b_neg"] = q["b_neg"] if q["b_neg"].ndim else float(q["b_neg"])
    q["s_poly"] = None if p["s_poly"] is None else p["s_poly"] * fac.get("s", 1)
    return q


SRC = ("I0", "b_pos", "b_neg", "s")


def run(c, x):
    p = space.resolve(c)
    x.state(sorted(c.items()))
    t = space.depths(p, (0.4,), max_layers=3)
    full = outputs(x, c, p, t)
    parts = {}
    for k in SRC:
        parts[k] = outputs(x, c, scaled(p, **{j: float(j == k) for j in SRC}), t)
    total = {k: sum(parts[s][k] for s in SRC) for k in full}
    api.compare(x, full, total, 1e-6, "superposition: ")
    x.traces += 1
    big = SRC[sum(map(ord, repr(sorted(c.items())))) % 4]  # which source dominates: a fixed function of the case
    dom = outputs(x, c, scaled(p, **{big: 1e5}), t)
    total = {k: sum(parts[s][k] * (1e5 if s == big else 1) for s in SRC) for k in full}
    api.compare(x, dom, total, 1e-6, f"superposition, strong {big}: ")
    for a in (1e-12, 1e-200, 1e-4, 7.3, 1e9, 1e150):
        r = outputs(x, c, scaled(p, **{k: a for k in SRC}), t)
        x.state(sorted(c.items()), a)
        api.compare(x, {k: v / a for k, v in r.items()}, full, 1e-6, f"sources times {a:g}: ")
        x.traces += 1
    for k in SRC:
        r = outputs(x, c, scaled(p, **{j: 250.0 * (j == k) for j in SRC}), t)
        api.compare(x, {n: v / 250 for n, v in r.items()}, parts[k], 1e-6, f"{k} alone times 250: ")
    # sources of the opposite sign (azimuthal modes of boundary sources may be negative), and higher modes alone
    for k in ("b_pos", "b_neg", "s"):
        r = outputs(x, c, scaled(p, **{j: -1.0 * (j == k) for j in SRC}), t)
        api.compare(x, {n: -v for n, v in r.items()}, parts[k], 1e-6, f"{k} alone times -1: ")
        if k != "s" and np.ndim(p[k]) == 2 and p[k].shape[1] > 1:
            q = scaled(p, **{j: 1.0 * (j == k) for j in SRC})
            lo, hi = q[k].copy(), q[k].copy()
            lo[:, 1:] = 0
            hi[:, 0] = 0
            a, b = outputs(x, c, dict(q, **{k: lo}), t), outputs(x, c, dict(q, **{k: hi}), t)
            api.compare(x, {n: a[n] + b[n] for n in a}, parts[k], 1e-6, f"zeroth and higher modes of {k}: ")
    z = outputs(x, c, scaled(p, **{k: 0.0 for k in SRC}), t)
    for k, v in z.items():
        x.true(f"no sources: {k} must be zero, got {v}", np.all(v == 0))
    x.outcome(full["u"], full["up"])
