import numpy as np
from .. import api, core, space

RULE = ("Every configuration within k deviations (quick 1 on six bases plus 2 on two bases over reduced dimensions) x automatic-differentiation mode on/off for the bases; every function {Fp, Fm diffuse, Fm direct, u0, u, actinic up, actinic down, interpolated u, "
        "interpolated u0} x {value, antiderivative} x a menu of depth arguments (scalar, Python int, 0-d, list, length one, two equal, unsorted with repeats and all edges/interfaces, reversed strided view, 331 and 1030 points, around each base 20011 depths, 3001 azimuths and 1001 directions) x azimuth arguments "
        "(scalar, length one, two, list unsorted), and every pair of depth and azimuth counts among those that coincide with the number of streams, of directions per hemisphere, of layers, of modes: values equal the scalar evaluations at each position (1e-8 of the depth's magnitude) and shapes are the documented squeezed ones.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 1}, "thorough": {"deviations": 2}}
ALL = ["simple", "all", "thermal", "solar", "nt", "layers"]


def cases(tier):
    cs = [dict(c, auto=a, long=not a) for a in (False, True) for c in space.enumerate_configs(ALL, 0)]
    cs += [dict(c, auto=False) for c in space.enumerate_configs(ALL, 1)]
    cs += [dict(c, auto=False) for c in space.enumerate_configs(["simple", "all"] if tier == "quick" else ALL, 2, dims=["L", "NQ", "NF", "I0", "f", "NT", "s", "bn", "om", "NLall"] if tier == "quick" else None, drop={"NQ": [16, 6], "L": [12]})]
    cs += [dict(c, auto=False) for c in space.sweeps(["all"], joint=False)]
    if tier == "thorough":
        cs += [dict(c, auto=True) for c in space.enumerate_configs(ALL, 1)]
    return cs


def menu_tau(p):
    e = space.depths(p, (0.31,), max_layers=3)
    n = len(e)
    un = np.concatenate([e[::-1], e[[0, n - 1, n // 2, n // 2]], e])
    big = e[np.arange(331) * 7 % n]
    out = [("scalar", float(e[n // 2])), ("0-d", np.array(e[1])), ("top", 0), ("np scalar bottom", e[-1]), ("list", [float(v) for v in e[:3][::-1]]), ("one", e[[1]]), ("two equal", e[[1, 1]]), ("unsorted", un),
           ("strided", np.repeat(e, 3)[::-3]), ("331", big)]
    # lengths that coincide with another axis (streams, hemisphere, layers, azimuthal modes)
    for m in sorted({2, p["NQuad"], p["NQuad"] // 2, len(p["tau_arr"]), len(p["tau_arr"]) + 1, p["NFourier"], p["NLeg"]}):
        out.append((f"{m} depths", e[(np.arange(m) * 3 + 1) % n]))
    return e, out


def check(x, what, f, point, tau, vals, lead, extra=()):
    """f(tau) against point values vals[..., i] found by depth; lead: leading axis or None, extra: trailing shape"""
    got = x.call(f, tau)
    arr = np.atleast_1d(np.asarray(tau, float))
    idx = np.array([point[float(v)] for v in arr])
    want = vals[:, idx] if lead else vals[idx]
    shape = ((want.shape[0],) if lead else ()) + (len(arr),) + tuple(extra)
    want = want.reshape(shape)
    exp = tuple(n for n in shape if n != 1)
    if np.shape(got) != exp:
        raise core.Violation(f"{what}: shape {np.shape(got)} instead of {exp}")
    g = np.asarray(got).reshape(shape)
    ax = 1 if lead else 0
    sc = np.abs(want).max(axis=tuple(i for i in range(want.ndim) if i != ax), keepdims=True) if lead else np.abs(want)
    x.close(what, g, want, 1e-8, scale=np.maximum(sc, 1e-6 * np.abs(vals).max()))
    return got


def run(c, x):
    PD, S = core.impl()
    c = dict(c)
    auto, long = c.pop("auto"), c.pop("long", False)
    p = space.resolve(c)
    x.state(sorted(c.items()), auto)
    sol = api.solve(x, c, p, autograd_compatible=auto)
    NQ = sol.NQ
    e, taus = menu_tau(p)
    point = {float(v): i for i, v in enumerate(e)}
    act = S.generate_diff_act_flux_funcs(sol.u0f)
    ipu, ip0 = S.interpolate(sol.uf), S.interpolate(sol.u0f)
    mus = np.array([0.9, -0.2, 0.35])
    phis = np.array([0.4, 5.0])
    for anti in (False, True):
        a = "antiderivative " if anti else ""
        one = {
            "Fp": (lambda t: sol.Fp(t, anti), 0), "Fm diffuse": (lambda t: sol.Fm(t, anti)[0], 0), "Fm direct": (lambda t: sol.Fm(t, anti)[1], 0), "u0": (lambda t: sol.u0f(t, anti), NQ),
            "actinic up": (lambda t: act[0](t, anti), 0), "actinic down": (lambda t: act[1](t, anti), 0), "interpolated u0": (lambda t: ip0(mus, t, anti), 3),
        }
        for name, (f, lead) in one.items():
            pv = [np.asarray(x.call(f, float(v))) for v in e]
            for v in pv:
                if v.shape != ((lead,) if lead else ()):
                    raise core.Violation(f"{a}{name} at a scalar depth: shape {v.shape}")
            vals = np.array(pv).T
            for tn, t in taus:
                x.state(a, name, tn)
                check(x, f"{a}{name}, depths {tn}", f, point, t, vals, bool(lead))
        # intensity: pointwise in depth and azimuth
        for name, f, lead in (("u", lambda t, ph: sol.uf(t, ph, anti), NQ), ("interpolated u", lambda t, ph: ipu(mus, t, ph, anti), 3)):
            pv = np.array([[np.asarray(x.call(f, float(v), float(ph))) for ph in phis] for v in e])  # tau, phi, lead
            if pv.shape[2:] != (lead,):
                raise core.Violation(f"{a}{name} at a scalar depth and azimuth: shape {pv.shape[2:]}")
            pv = pv.transpose(2, 0, 1)
            azs = sorted({3, p["NQuad"], p["NQuad"] // 2, len(p["tau_arr"]), p["NFourier"]})
            for m in azs:  # azimuth counts that coincide with another axis
                ix = [(1 + i * i) % 2 for i in range(m)]
                for tn, t in taus:
                    if tn in ("scalar", "one", "two equal", "unsorted") or tn.endswith("depths"):
                        x.state(a, name, tn, m)
                        check(x, f"{a}{name}, depths {tn}, {m} azimuths", lambda tt: f(tt, phis[ix]), point, t, pv[:, :, ix], True, (len(ix),))
            for tn, t in taus:
                for pn, ph, ix in (("scalar", 0.4, [0]), ("one", phis[[1]], [1]), ("two", phis, [0, 1]), ("list", [5.0, 0.4, 5.0], [1, 0, 1]), ("many", np.tile(phis, 35), [0, 1] * 35)):
                    if pn == "many" and tn not in ("scalar", "unsorted"):
                        continue
                    x.state(a, name, tn, pn)
                    check(x, f"{a}{name}, depths {tn}, azimuths {pn}", lambda tt: f(tt, ph), point, t, pv[:, :, ix], True, (len(ix),))
    # scalar direction of the interpolated functions
    for m in (0.5, -0.5, np.array([0.5])):
        r = np.asarray(x.call(ipu, m, e, phis))
        x.true(f"interpolated u at one direction: shape {r.shape}", r.shape == (len(e), 2))
        r = np.asarray(x.call(ip0, m, float(e[1])))
        x.true(f"interpolated u0 at one direction and depth: shape {r.shape}", r.shape == ())
    if long:  # longer than any block a function might work in
        n, ix = len(e), np.arange(20011) * 7 % len(e)
        for anti in (False, True):
            fs = {"Fp": lambda t: sol.Fp(t, anti), "Fm": lambda t: np.array(sol.Fm(t, anti)), "u0": lambda t: sol.u0f(t, anti), "u": lambda t: sol.uf(t, 0.4, anti),
                  "actinic up": lambda t: act[0](t, anti), "actinic down": lambda t: act[1](t, anti), "interpolated u": lambda t: ipu(mus, t, 0.4, anti), "interpolated u0": lambda t: ip0(mus, t, anti)}
            for name, f in fs.items():
                x.state(anti, name, "20011 depths")
                x.close(f"{name}, 20011 depths, antiderivative {anti}", np.asarray(x.call(f, e[ix])), np.asarray(x.call(f, e))[..., ix], 1e-8)
        ph = np.linspace(0, 6, 5)
        ix = np.arange(3001) * 3 % 5
        for name, f in (("u", lambda q: sol.uf(e[:2], q)), ("interpolated u", lambda q: ipu(mus, e[:2], q))):
            x.close(f"{name}, 3001 azimuths", np.asarray(x.call(f, ph[ix])), np.asarray(x.call(f, ph))[..., ix], 1e-8)
        ix = np.arange(1001) * 2 % 3
        x.close("interpolated u, 1001 directions", np.asarray(x.call(ipu, mus[ix], e[:2], ph)), np.asarray(x.call(ipu, mus, e[:2], ph))[ix], 1e-8)
        x.close("interpolated u0, 1001 directions", np.asarray(x.call(ip0, mus[ix], e[:2])), np.asarray(x.call(ip0, mus, e[:2]))[ix], 1e-8)
    t = e[np.arange(1030) * 5 % len(e)]
    r = np.asarray(sol.uf(t, phis))
    w = np.asarray(sol.uf(e, phis))[:, np.arange(1030) * 5 % len(e), :]
    x.close("u, 1030 depths", r, w, 1e-8)
    x.true("direction array has one entry per stream", np.shape(sol.mu) == (NQ,))
    x.traces += 1
    x.outcome(w[:, :8])
