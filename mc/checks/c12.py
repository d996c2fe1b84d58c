import numpy as np
from .. import api, space

RULE = ("Every configuration within k deviations (quick 2; thorough 3 on reduced dimensions) of the corrected bases, plus the inactive combinations (no beam, no peak, no scattering, no extra moments); corrected intensity equals the reference delta-M solution "
        "(multiple shooting) plus the documented TMS (layer-by-layer formal solution) and IMS corrections, at all depths of interest and four azimuths, rtol 1e-6 of the depth's intensity; fluxes, azimuthal mean and actinic fluxes equal those with corrections off; inactive corrections change nothing.") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
PH = np.array([0.0, 1.0, 2.2, 5.5])
D = {"NQ": [16], "phi0": [5.9]}


def cases(tier):
    space.BASES["_nt1"] = dict(space.BASES["nt"], L=1)
    space.BASES["_nt_all"] = dict(space.BASES["all"], NT=True)
    space.BASES["_nt5"] = dict(space.BASES["nt"], L=5, tau="mixed", om="zero_mid", f="big", NQ=6)
    bs = ["nt", "_nt1", "_nt_all", "_nt5"]
    cs = list(space.enumerate_configs(bs, 2, fixed={"NT": True}, drop=D)) + list(space.enumerate_configs(["nt", "_nt1"], 1, fixed={"NT": True, "NQ": 16}))
    cs += list(space.sweeps(bs, fixed={"NT": True}, joint=False, resonant=True)) + list(space.sweeps(["nt"], fixed={"NT": True}, resonant=True))
    if tier == "thorough":
        cs += list(space.enumerate_configs(bs, 3, fixed={"NT": True}, dims=["L", "NQ", "NLeg", "NF", "NLall", "tau", "om", "leg", "mu0", "f", "s", "I0", "bn"], drop={"NQ": [16, 8], "L": [12]}))
    return cs


def run(c, x):
    p = space.resolve(c)
    x.state(sorted(c.items()))
    t = space.depths(p)
    on = api.solve(x, c, p)
    off = api.solve(x, c, p, NT_cor=False)
    ref = api.reference(p)
    a, b = on.all(t, PH), off.all(t, PH)
    for s, r in ((on, a), (off, b)):
        r["act_up"], r["act_down"] = s.actinic(t)
    api.compare(x, {k: v for k, v in a.items() if k != "u"}, b, 1e-10, "corrections on, ")
    add = ref.nt(t, PH)
    want = ref.u(t, PH) + add
    top = max(np.abs(want).max(), 1e-300)
    sc = np.maximum(np.abs(want).max(axis=(0, 2), keepdims=True), 1e-5 * top)
    x.close("corrected u", a["u"], want, 1e-6, scale=sc)
    if ref.nt_active():
        # the correction itself, relative to its own size
        big = np.maximum(np.abs(add).max(axis=(0, 2), keepdims=True), 1e-4 * np.abs(want).max(axis=(0, 2), keepdims=True))
        x.close("correction", a["u"] - b["u"], add, 1e-5, scale=np.maximum(big, 1e-6 * top))
        x.true("the correction does something", np.abs(add).max() > 0)
    else:
        x.close("inactive correction", a["u"], b["u"], 1e-12)
    # the corrected function also keeps its flags
    r = x.call(on.uf, t, PH, False, True, True)
    x.true("flags: (u, error, depths)", len(r) == 3 and np.ndim(r[1]) == 0)
    x.close("u with flags", np.reshape(r[0], a["u"].shape), a["u"], 1e-12)
    x.close("depths with flags", r[2], p["tau_arr"], 1e-14)
    x.close("error with flags", r[1], x.call(off.uf, t, PH, False, True)[1], 1e-9, floor=1e-12)
    x.traces += 1
    x.outcome(a["u"])
