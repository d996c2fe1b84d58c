import numpy as np
from .. import api, core, space

RULE = ("Every configuration within k deviations (quick 2 over reduced dimensions + 1 over all; thorough 2) of six bases x global source scale {1, 1e-9, 1e7}: actinic fluxes equal the reference model's hemispheric sums (1e-6) and the sums over the code's own u0; "
        "depth arrays spanning all layers equal single-layer and scalar calls; antiderivative differences over depth intervals inside each layer equal Gauss panels of the function (1e-7); with depths requested: (value, layer depths); functions made twice agree.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 2}}
ALL = ["simple", "all", "thermal", "solar", "nt", "layers"]


def cases(tier):
    dims = ["L", "NQ", "tau", "om", "leg", "mu0", "I0", "bp", "bn", "f", "bdrf", "s"]
    cs = list(space.enumerate_configs(ALL, 1))
    cs += list(space.enumerate_configs(["all", "thermal", "nt", "simple"] if tier == "quick" else ALL, 2, dims=dims if tier == "quick" else None, drop={"NQ": [16], "L": [12]}))
    cs += [dict(c, scale=1.0) for c in space.sweeps(["all", "thermal"], joint=False)]
    return [dict(c, scale=s) for c in cs for s in (1.0,)] + [dict(c, scale=s) for c in space.enumerate_configs(ALL, 1) for s in (1e-9, 1e7)]


def run(c, x):
    from .. import quad
    PD, S = core.impl()
    c = dict(c)
    k = c.pop("scale")
    p = space.resolve(c)
    p["I0"] *= k
    for b in ("b_pos", "b_neg"):
        p[b] = p[b] * k
    if p["s_poly"] is not None:
        p["s_poly"] = p["s_poly"] * k
    x.state(sorted(c.items()), k)
    sol = api.solve(x, c, p)
    N = p["NQuad"] // 2
    t = space.depths(p)
    ref = api.reference(p, [0])
    u0 = ref.u0(t)
    wu, wd = ref.actinic(t, u0)
    gu, gd = sol.actinic(t)
    top = max(np.abs(u0).max() * 2 * np.pi, np.abs(wd).max(), 1e-300)
    beam = p["I0"] * np.exp(-np.array([ref.stau_at(v) for v in t]) / p["mu0"]) if p["I0"] > 0 else 0.0  # the reclassified part is a difference of two beams
    sc = lambda w: np.maximum(np.maximum(np.maximum(np.abs(w), np.abs(u0).max(axis=0)), beam), 1e-5 * top)
    x.close("actinic up", gu, wu, 1e-6, scale=sc(wu))
    x.close("actinic down", gd, wd, 1e-6, scale=sc(wd))
    w = np.polynomial.legendre.leggauss(N)[1] / 2
    own = sol.u0(t)
    x.close("actinic up = sum over the code's u0", gu, 2 * np.pi * w @ own[:N], 1e-9, scale=sc(wu))
    extra = 0.0
    if p["I0"] > 0:
        extra = p["I0"] * (np.exp(-np.array([ref.stau_at(v) for v in t]) / p["mu0"]) - np.exp(-t / p["mu0"]))
    x.close("actinic down = sum over the code's u0 + reclassified beam", gd, 2 * np.pi * w @ own[N:] + extra, 1e-8, scale=sc(wd))
    act = x.call(S.generate_diff_act_flux_funcs, sol.u0f)
    e = np.concatenate([[0.0], p["tau_arr"]])
    big = max(np.abs(np.asarray(x.call(f, t, True))).max() for f in act[:2])
    L = len(e) - 1
    ends = np.concatenate([[e[l] + 0.8 * (e[l + 1] - e[l]), e[l] + 0.15 * (e[l + 1] - e[l])] for l in range(L)])
    whole = [np.asarray(x.call(f, ends, True)).reshape(2 * L) for f in act[:2]]  # all layers in one call
    for l in (range(L) if L <= 3 else (0, L // 2, L - 1)):
        h = e[l + 1] - e[l]
        a, b = e[l] + 0.15 * h, e[l] + 0.8 * h
        xs, ws = quad.panels(a, b, 0.5 * min(p["mu0"] if p["I0"] > 0 else 1, ref.x.min()))
        for j, nm in ((0, "up"), (1, "down")):
            A = np.asarray(x.call(act[j], np.array([b, a]), True))
            one = np.array([float(x.call(act[j], float(v), True)) for v in (b, a)])
            x.close(f"antiderivative of actinic {nm} at scalar depths", A, one, 1e-9, scale=max(np.abs(one).max(), 1e-6 * big))
            x.close(f"antiderivative of actinic {nm}, all layers at once", whole[j][2 * l:2 * l + 2], A, 1e-9, scale=max(np.abs(A).max(), 1e-6 * big))
            want = ws @ np.asarray(x.call(act[j], xs)).reshape(len(xs))
            sca = max(abs(want), 1e-5 * top * (b - a), 1e-5 * np.abs(A).max(), 1e-6 * big, 1e-6 * p["I0"])
            x.close(f"antiderivative of actinic {nm} in layer {l}", A[0] - A[1], want, 1e-6, scale=sca)
    for anti in (False, True):
        for j in (0, 1):
            r = x.call(act[j], t, anti, True)
            x.true("(value, depths) when asked for", isinstance(r, tuple) and len(r) == 2)
            x.close("value next to the depths", r[0], x.call(act[j], t, anti), 1e-12)
            x.close("depths", r[1], p["tau_arr"], 1e-14)
            r = x.call(act[j], float(t[1]), is_antiderivative_wrt_tau=anti, return_tau_arr=True)
            x.close("scalar depth, by name", np.reshape(r[0], ()), np.reshape(x.call(act[j], t, anti), -1)[1], 1e-9, floor=1e-7 * top)
    x.traces += 1
    x.outcome(gu, gd)
