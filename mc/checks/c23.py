import numpy as np
from .. import api, core, space

RULE = ("Every configuration within k deviations (quick 2 on reduced dimensions + 1 on all; thorough 2 on all) of seven bases x every applicable change of an irrelevant parameter: beam angles without a beam (values valid and unusual), moments beyond NLeg (changed, removed, appended; no corrections), phase function and peak fraction of "
        "non-scattering layers, beam azimuth and number of azimuthal modes for fluxes/mean, reflectance modes beyond the modes solved, higher reflectance modes and higher boundary-source columns for fluxes/mean, flux-only mode arguments; outputs equal to the base outputs (1e-8). "
        "Fewer azimuthal modes: each retained mode of u (discrete projection on the azimuth) unchanged (1e-8), dropped modes absent.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 2}}
ALL = ["simple", "all", "thermal", "solar", "nt", "layers", "_dark"]
space.BASES["_dark"] = dict(space.BASES["all"], om="zero_mid", leg="mixed")


def cases(tier):
    dims = ["L", "NQ", "NLeg", "NF", "NLall", "om", "leg", "mu0", "I0", "bp", "bn", "f", "NT", "bdrf", "s", "band"]
    D = {"NQ": [16, 6], "L": [12], "I0": [1e-3], "mu0": [0.07], "leg": ["rayleigh", "odd"], "bdrf": ["cached", "scalars2"], "s": ["zero0", "last_only", "const"], "f": ["uniform"]}
    cs = list(space.enumerate_configs(ALL, 1))
    cs += list(space.enumerate_configs(["all", "thermal", "layers", "_dark"] if tier == "quick" else ALL, 2, dims=dims if tier == "quick" else None, drop=D if tier == "quick" else {"NQ": [16]}))
    seen, out = set(), []
    for c in cs:
        k = tuple(sorted(c.items(), key=str))
        if k not in seen:
            seen.add(k)
            out.append(c)
    cs += list(space.sweeps(["all"], joint=False))
    return out


FL = ["up", "down", "direct", "u0"]


def variants(c, p):
    """yield name, changed problem, overrides, compared outputs (None: all)"""
    L, NQ, NLeg, NF = len(p["tau_arr"]), p["NQuad"], p["NLeg"], p["NFourier"]
    N = NQ // 2
    if not p["I0"] > 0:
        for mu0, phi0 in ((0.11, p["phi0"]), (1.0, 0.0), (p["mu0"], 4.4), (0.35, 6.0)):
            if np.ndim(p["b_pos"]) == 2 or np.ndim(p["b_neg"]) == 2:
                phi0 = p["phi0"]  # the azimuth origin of the boundary modes
            yield f"beam angles {mu0}, {phi0} without a beam", dict(p, mu0=mu0, phi0=phi0), {}, None
    leg = p["Leg"]
    beam_nt = c["NT"]
    if not beam_nt:
        a = leg.copy()
        if a.shape[1] > NLeg:
            a[:, NLeg:] = 0.37 - 0.2 * a[:, NLeg:]
            yield "moments beyond those used, changed", dict(p, Leg=a), {}, None
            yield "moments beyond those used, removed", dict(p, Leg=leg[:, :NLeg].copy()), {}, None
        yield "more moments than used", dict(p, Leg=np.concatenate([leg, np.full((L, 3), 0.21)], 1)), {}, None
    for v in (0.0, 0.9, 1.0 + 1e-9, 4.0):  # documented: corrected to one, with a warning
        a = leg.copy()
        a[:, 0] = v
        yield f"zeroth moment {v}", dict(p, Leg=a), {}, None
        for l in sorted({0, L - 1}):
            if L > 1 and v == 0.9:
                a = leg.copy()
                a[l, 0] = v
                yield f"zeroth moment {v} in layer {l}", dict(p, Leg=a), {}, None
    z = np.flatnonzero(p["omega_arr"] == 0)
    if len(z):
        a, f = leg.copy(), np.array(p["f_arr"], float)
        a[z, 1:] = 0.45 ** np.arange(1, a.shape[1]) * -1
        yield "phase function of layers that do not scatter", dict(p, Leg=a), {}, None
        f[z] = 0.33
        yield "peak fraction of layers that do not scatter", dict(p, f_arr=f), {}, None
        f = f.copy()
        f[z] = 0.0
        a = leg.copy()
        a[z, 1:] = 0.0
        yield "plain layers that do not scatter", dict(p, f_arr=f, Leg=a), {}, None
    if not np.ndim(p["b_pos"]) == 2 and not np.ndim(p["b_neg"]) == 2:
        for nf in sorted({1, max(1, NLeg // 2), NLeg}):
            if nf != NF:
                yield f"{nf} azimuthal modes for the fluxes", dict(p, NFourier=nf), {}, FL
    else:
        q = dict(p)
        for b in ("b_pos", "b_neg"):
            if np.ndim(q[b]) == 2:
                q[b] = q[b] * np.where(np.arange(NF) == 0, 1.0, -3.0)[None, :]
        if NF > 1:
            yield "higher boundary-source modes for the fluxes", q, {}, FL
        for nf in sorted({1, max(1, NF - 1)}):
            if nf != NF:
                q = dict(p, NFourier=nf)
                for b in ("b_pos", "b_neg"):
                    if np.ndim(p[b]) == 2:
                        q[b] = p[b][:, :nf].copy()
                yield f"{nf} azimuthal modes for the fluxes (boundary modes truncated)", q, {}, FL
    if p["I0"] > 0:
        for d in (0.9, 3.0):
            yield "beam azimuth for the fluxes", dict(p, phi0=(p["phi0"] + d) % (2 * np.pi)), {}, FL
    bd = list(p["bdrf"])
    if bd and c["bdrf"] not in ("cached", "cached_mu0"):
        more = bd[:NF] if len(bd) >= NF else bd + [0.0] * (NF - len(bd))
        yield "reflectance modes beyond those solved", dict(p, bdrf=more + [0.06, space.bdrf_f(0), 0.2]), {}, None
        if len(bd) > NF:
            yield "surplus reflectance modes removed", dict(p, bdrf=bd[:NF]), {}, None
        if NF > 1:
            yield "higher reflectance modes for the fluxes", dict(p, bdrf=[bd[0], 0.11, space.bdrf_f(1)]), {}, FL
        yield "only the zeroth reflectance mode for the fluxes", dict(p, bdrf=bd[:1]), {}, FL
        yield "only the zeroth reflectance mode in flux-only mode", dict(p, bdrf=bd[:1], **{b: (np.array(p[b])[:, :1] if np.ndim(p[b]) == 2 else p[b]) for b in ("b_pos", "b_neg")}), dict(only_flux=True), FL


def run(c, x):
    p = space.resolve(c)
    x.state(sorted(c.items(), key=str))
    t = space.depths(p, (0.4,), max_layers=3)
    sol = api.solve(x, c, p)
    base = sol.all(t)
    x.traces += 1
    cc = dict(c)
    for name, q, over, keys in variants(c, p):
        if cc["NT"] and q["mu0"] != p["mu0"] and np.any(np.abs((np.polynomial.legendre.leggauss(p["NQuad"] // 2)[0] + 1) / 2 - q["mu0"]) < 1e-6):
            continue
        r = api.solve(x, c, q, **over).all(t)
        x.traces += 1
        x.state(name, sorted(c.items(), key=str))
        api.compare(x, r, base, 1e-8, name + ": ", keys=[k for k in (keys or base) if k in r])
    x.outcome(base["up"], base["u0"])
    # truncating the azimuthal series keeps each retained mode
    NF, NLeg = p["NFourier"], p["NLeg"]
    if NF > 1 and not (c["NT"]):
        K = 2 * NF + 3
        ph = p["phi0"] + 2 * np.pi * np.arange(K) / K
        proj = lambda u, m: np.tensordot(u, np.cos(m * (ph - p["phi0"])), (2, 0)) * (1 if m == 0 else 2) / K
        full = sol.u(t, ph)
        sc = np.maximum(np.abs(full).max(axis=(0, 2))[None, :], 1e-5 * max(np.abs(full).max(), 1e-300))
        for nf in sorted({1, NF // 2, NF - 1} - {0, NF}):
            q = dict(p, NFourier=nf)
            for b in ("b_pos", "b_neg"):
                if np.ndim(p[b]) == 2:
                    q[b] = p[b][:, :nf].copy()
            u = api.solve(x, c, q).u(t, ph)
            x.traces += 1
            x.state("truncate", nf, sorted(c.items(), key=str))
            for m in range(NF):
                want = proj(full, m) if m < nf else np.zeros(full.shape[:2])
                x.close(f"mode {m} after truncating {NF} modes to {nf}", proj(u, m), want, 1e-8, scale=sc)
