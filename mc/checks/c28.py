import numpy as np
from .. import api, space

RULE = ("Every configuration within k deviations (quick 2) of four bases whose azimuthal-mean scattering kernel (after truncation and delta-M scaling) is non-negative between all quadrature directions and the beam (the others are counted but have no "
        "obligation) x every increase out of a menu: beam, top, bottom (all directions; each single direction) and internal source of the first, middle, last layer; albedo of the first, middle, last, every layer by 0.1% and 50% of the way to one (without internal source); "
        "reflectance by a constant; a scattering layer appended below a black surface. No entry of the mean intensity, of the upward, total downward and actinic fluxes may decrease, at any depth (by more than 1e-7 of the largest, floored at 1e-5 of the largest output). Without beam the mean "
        "intensity is non-negative and nowhere exceeds the largest of top source, internal source and bottom source over one minus reflectance. Around every configuration within 1 deviation also ladders: "
        "albedo of all, first, last layer and reflectance from 0 to almost 1, and beam over 12 decades, in steps of at most 30%: no output may fall from one rung to the next.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
FIX = {"NT": False, "phi0": 1.0}
BASES = ["simple", "all", "thermal", "layers"]
DIMS = ["L", "NQ", "NLeg", "tau", "om", "leg", "mu0", "I0", "bp", "bn", "f", "bdrf", "s", "band"]


def cases(tier):
    k = 2 if tier == "quick" else 3
    cs = list(space.enumerate_configs(BASES, k, dims=DIMS, fixed=FIX, drop={"NQ": [16, 8], "L": [12, 5], "bdrf": ["funcs3", "func_scalar", "scalars2", "many", "gap"], "s": ["quart", "ragged"], "leg": ["twins"], "I0": [3e4], "mu0": ["node"]} if tier == "quick" else
                                      {"NQ": [16], "L": [12], "bdrf": ["funcs3", "func_scalar", "scalars2", "many", "gap"], "s": ["quart", "ragged"], "leg": ["twins"], "I0": [3e4]}))
    cs += list(space.enumerate_configs(BASES, 1, fixed=FIX))
    cs += list(space.sweeps(["simple", "all"], fixed=FIX, joint=False))
    lad = list(space.enumerate_configs(BASES, 1, dims=DIMS, fixed=FIX, drop={"L": [12], "NQ": [16], "I0": [3e4]}))
    cs += [dict(c, ladder=w) for c in lad for w in ("albedo all", "albedo first", "albedo last", "reflectance", "beam")]
    return cs


LADDER = [0.0] + [float(v) for v in 1e-6 * 1.3 ** np.arange(53)] + [0.97, 0.99, 0.999, 0.9999, 1 - 1e-6]


def ladder(p, what):
    """problems in the order of one parameter, in steps of at most 30%"""
    if what.startswith("albedo"):
        for v in LADDER if p["s_poly"] is None else []:
            om = np.array(p["omega_arr"], float)
            om[space._where(what.split()[1])] = v
            yield v, dict(p, omega_arr=om)
    elif what == "reflectance":
        for v in LADDER[:-4] if not p["bdrf"] or np.isscalar(p["bdrf"][0]) else []:
            yield v, dict(p, bdrf=[v] + list(p["bdrf"][1:]))
    else:
        for v in 1e-6 * 1.3 ** np.arange(106) if p["I0"] > 0 else []:
            yield v, dict(p, I0=float(v))


def legendre(n, x):
    return np.polynomial.legendre.legvander(np.asarray(x, float), n - 1)


def kernel_ok(p, mu):
    """azimuthal-mean kernel of every scattering layer, between all nodes and from the beam"""
    f, om, n = p["f_arr"], np.asarray(p["omega_arr"]), p["NLeg"]
    V = legendre(n, np.concatenate([mu, [-p["mu0"]] if p["I0"] > 0 else []]))
    for l in range(len(om)):
        g = (p["Leg"][l, :n] - f[l]) / (1 - f[l]) * (2 * np.arange(n) + 1)
        if om[l] > 0 and np.min((V * g) @ V.T) < -1e-12:
            return False
    return True


def more(p):
    """(name, problem with more light, scattering or reflection)"""
    N, L, NF = p["NQuad"] // 2, len(p["tau_arr"]), p["NFourier"]
    some = sorted({0, L // 2, L - 1})
    if p["I0"] > 0:
        yield "beam", dict(p, I0=1.01 * p["I0"])
    size = max(p["I0"], np.max(np.abs(p["b_neg"])), np.max(np.abs(p["b_pos"])), np.max(np.abs(p["s_poly"])) if p["s_poly"] is not None else 0.0) or 1.0
    for face in ("b_neg", "b_pos"):
        b = np.asarray(p[face], float)
        for i in [None] + list(range(N)):
            e = np.zeros(N)
            e[slice(None) if i is None else i] = 0.1 * size
            nb = b + e if b.ndim < 2 else b + np.concatenate([e[:, None], np.zeros((N, NF - 1))], 1)
            yield f"{face} {'all' if i is None else i}", dict(p, **{face: nb})
    s = np.zeros((L, 1)) if p["s_poly"] is None else p["s_poly"]
    for l in some:
        t = np.array(s, float)
        t[l, 0] += 0.1 * size
        yield f"internal source of layer {l}", dict(p, s_poly=t)
    if p["s_poly"] is None:
        for d in (1e-3, 0.5):
            for l in [slice(None)] + some:
                om = np.array(p["omega_arr"], float)
                om[l] += d * (1 - om[l])
                yield f"albedo of {'every layer' if isinstance(l, slice) else 'layer %d' % l} by {d}", dict(p, omega_arr=om)
    m = list(p["bdrf"])
    first = m[0] if m else 0.0
    up = first + 0.05 if np.isscalar(first) else (lambda mu, mup: first(mu, mup) + 0.05)
    if not (np.isscalar(first) and first > 0.9):
        yield "reflectance", dict(p, bdrf=[up] + m[1:])
    if not m:
        add = lambda a, v: np.concatenate([a, [v]])
        yield "layer below", dict(p, tau_arr=add(p["tau_arr"], p["tau_arr"][-1] + 0.7), omega_arr=add(p["omega_arr"], 0.6), Leg=np.vstack([p["Leg"], 0.3 ** np.arange(p["Leg"].shape[1])[None]]),
                                  f_arr=add(p["f_arr"], 0.0), s_poly=None if p["s_poly"] is None else np.vstack([p["s_poly"], np.zeros((1, p["s_poly"].shape[1]))]),
                                  b_pos=np.zeros(()) if not np.any(p["b_pos"]) else None)


def run(c, x):
    c = dict(c)
    rungs = c.pop("ladder", None)
    p = space.resolve(c)
    N, T = p["NQuad"] // 2, p["tau_arr"][-1]
    node = (np.polynomial.legendre.leggauss(N)[0] + 1) / 2
    w = np.polynomial.legendre.leggauss(N)[1] / 2
    mu = np.concatenate([node, -node])
    x.state(sorted(c.items()), rungs)
    x.traces += 1
    if p["s_poly"] is not None:
        edges = np.concatenate([[0.0], p["tau_arr"]])
        q = np.arange(p["s_poly"].shape[1])
        smax, smin = -np.inf, np.inf
        for l in range(len(p["tau_arr"])):
            v = (np.linspace(edges[l], edges[l + 1], 41)[:, None] ** q) @ p["s_poly"][l]
            smax, smin = max(smax, v.max()), min(smin, v.min())
        if smin < 0:
            return
    if not kernel_ok(p, mu):
        return
    t = space.depths(p, max_layers=3)

    def out(pp):
        sol = api.solve(x, c, pp, only_flux=True)
        a, b = sol.actinic(t)
        d, e = sol.down(t)
        return {"mean intensity": sol.u0(t), "upward flux": sol.up(t), "downward flux": d + e, "actinic flux up": a, "actinic flux down": b}

    p = dict(p, NFourier=1)
    for face in ("b_neg", "b_pos"):
        if np.ndim(p[face]) == 2:
            p[face] = p[face][:, :1]
    if rungs:
        last = None
        for v, q in ladder(p, rungs):
            if not kernel_ok(q, mu):
                continue
            r = out(q)
            x.state(v)
            top = max(np.max(np.abs(a)) for a in r.values())
            for k in r if last else ():
                drop = float(np.max(last[1][k] - r[k]))
                x.true(f"{rungs} {last[0]:g} -> {v:g}: {k} falls by {drop:.3g}", np.all(np.isfinite(r[k])) and drop <= 1e-7 * max(np.max(np.abs(r[k])), 1e-5 * top))
            last = v, r
        x.outcome(*(last[1].values() if last else ()))
        return
    base = out(p)
    top = {k: np.max(np.abs(v)) for k, v in base.items()}
    top = {k: max(v, 1e-5 * max(top.values())) for k, v in top.items()}
    x.outcome(*base.values())
    for name, q in more(p):
        if q["b_pos"] is None:
            continue
        if q["NFourier"] != 1 or not kernel_ok(q, mu):
            continue
        r = out(q)
        for k, v in r.items():
            tol = 1e-7 * max(top[k], np.max(np.abs(v)))
            drop = float(np.max(base[k] - v))
            x.true(f"more {name}: {k} falls by {drop:.3g}", np.all(np.isfinite(v)) and drop <= tol)
            if tol > 0 and drop / tol > x.margin:
                x.margin, x.margin_what = drop / tol, name + ": " + k
        x.state(name)
    if p["I0"] == 0:
        u = base["mean intensity"]
        f0 = p["bdrf"][0] if p["bdrf"] else 0.0
        R = 2 * (np.full((N, N), f0) if np.isscalar(f0) else f0(node, node)) * (node * w)[None, :]
        rho = R.sum(1)
        bp = np.broadcast_to(np.asarray(p["b_pos"], float).reshape(-1), (N,)) if np.size(p["b_pos"]) in (1, N) else np.zeros(N)
        M = max(float(np.max(p["b_neg"])), smax if p["s_poly"] is not None else 0.0, 0.0)
        if np.all((rho < 1 - 1e-9) | (bp == 0)) and np.all(rho < 1 + 1e-9):
            M = max([M] + [b / (1 - r) for b, r in zip(bp, rho) if b > 0])
            x.true(f"mean intensity {u.max():.6g} above its sources {M:.6g}", u.max() <= M * (1 + 1e-7) + 1e-300)
            x.true(f"mean intensity {u.min():.3g} negative", u.min() >= -1e-8 * M)
