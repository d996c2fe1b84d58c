import itertools
import warnings
import numpy as np
from .. import api, core, space

RULE = ("Every configuration within k deviations (quick 1, thorough 2) of six bases x every subset (quick: up to three) of the delicate-input menu {zeroth moment other than one, albedo above 1-1e-6 after scaling, a used moment above 0.95 in magnitude after scaling, more than 64 azimuthal modes, "
        "more than 10 source coefficients} x {first, last layer} x value pairs on both sides of each threshold: the user warnings issued by the solve and by evaluating the outputs are exactly those for the delicate inputs present (none for an ordinary problem), the call returns finite "
        "values, a corrected zeroth moment gives the solution for one, and warnings turned into errors do not corrupt a later solve. Reflectance caching warns exactly when the beam angle is not in (0, 1].")
BOUNDS = {"quick": {"deviations": 1, "delicate inputs": 3}, "thorough": {"deviations": 2, "delicate inputs": 5}}
WORDS = {"zeroth": "zeroth index phase", "omega": "albedos are very close", "moment": "coefficients have a magnitude", "modes": "nfourier", "coeffs": "nscoeffs", "cache": "no caching"}
D = {"NQ": [16], "L": [12]}


def cases(tier):
    names = ["zeroth", "omega", "moment", "coeffs"]
    k = 1 if tier == "quick" else 2
    n = 3 if tier == "quick" else 4
    subsets = [s for r in range(n + 1) for s in itertools.combinations(names, r)]
    cs = [dict(c, delicate=s, side=a, at=l) for c in space.enumerate_configs(["simple", "all", "thermal", "solar", "nt"], k, drop=D, fixed={}) for s in subsets for a in ((True, False) if s else (True,)) for l in ((0, -1) if c["L"] > 1 and s else (0,))]
    cs += [dict(dict(space.BASES[b], NQ=q, NF="full", NT=False), modes=m, flux=f, delicate=s, side=True, at=0)
           for b in ("simple", "all") for q in (64, 66, 72) for m in (1, 64, 65, 66) if m <= q for f in (False, True) for s in ((), ("omega",), ("moment", "coeffs"))]
    cs += [dict(cache=m, n=n, kind=kk) for m in (-1, 0, -1e-9, 1e-9, 0.5, 1, 1.0, 1 + 1e-9, 2) for n in (1, 2, 5) for kk in range(4)]
    return cs


def seen(ws):
    out = set()
    for w in ws:
        if not issubclass(w.category, UserWarning):
            continue
        t = str(w.message).lower()
        k = [k for k, v in WORDS.items() if v in t]
        if len(k) != 1:
            if "PythonicDISORT" not in w.filename:
                continue
            raise core.Violation(f"undocumented warning: {w.message}")
        out.add(k[0])
    return out


def run(c, x):
    PD, S = core.impl()
    c = dict(c)
    x.state(sorted(map(str, c.items())))
    x.traces += 1
    if "cache" in c:
        modes = [[0.3], [space.bdrf_f(0)], [space.bdrf_f(0), 0.1], []][c["kind"]]
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            r = x.call(S.cache_BDRF_Fourier_modes, c["n"], modes, c["cache"])
        want = {"cache"} if not 0 < c["cache"] <= 1 else set()
        x.true(f"caching for mu0 = {c['cache']}: warnings {seen(ws)} instead of {want}", seen(ws) == want)
        x.true("one cached mode per mode", len(r) == len(modes))
        x.outcome(len(r), c["cache"])
        return
    del_, side, at = c.pop("delicate"), c.pop("side"), c.pop("at")
    modes, flux = c.pop("modes", None), c.pop("flux", False)
    if c["bdrf"].startswith("cached"):
        c["bdrf"] = "func_scalar"  # caching without a beam angle warns itself
    p = space.resolve(c)
    want = set()
    L, NLeg = len(p["tau_arr"]), p["NLeg"]
    om, leg, f = p["omega_arr"], p["Leg"], p["f_arr"]
    if modes is not None:
        p["NFourier"] = modes
        if np.ndim(p["b_pos"]) == 2:
            p["b_pos"] = p["b_pos"][:, :modes]
        if modes > 64 and not flux:
            want.add("modes")
    if "omega" in del_:
        eps = 9e-7 if side else 1.1e-6  # distance of the scaled albedo from one
        om[at] = 1 - eps if f[at] == 0 else (1 - eps) / (1 - f[at] + f[at] * (1 - eps))
    if "moment" in del_ and NLeg > 1:
        l = NLeg - 1 if at else 1
        v = 0.951 if side else 0.949
        ml = at
        if "omega" in del_:  # in another layer: together they are no phase function and the equations may be singular
            if L == 1:
                return
            ml = -1 - at
        leg[ml, l] = f[ml] + (1 - f[ml]) * v * (-1 if l > 1 and f[ml] < 0.02 else 1)
        om[ml] = 0.3
    a = 1 - om * f
    so, sl = om * (1 - f) / a, (leg[:, 1:NLeg] - f[:, None]) / (1 - f)[:, None]
    if (np.abs(sl) >= 1).any():
        return
    if (so > 1 - 1e-6).any():
        want.add("omega")
    if (np.abs(sl) > 0.95).any():
        want.add("moment")
    if "coeffs" in del_:
        n = 11 if side else 10
        p["s_poly"] = np.outer(np.linspace(1, 0.5, L), 0.3 ** np.arange(n))
        if side:
            want.add("coeffs")
    over = {}
    if flux:
        over["only_flux"] = True
    q = dict(p)
    if "zeroth" in del_ and om[at] > 0:
        leg2 = leg.copy()
        leg2[at, 0] = 0.97 if side else 1.0
        if side:
            want.add("zeroth")
        q["Leg"] = leg2
    t = space.depths(p, max_layers=2)
    ph = space.PHIS

    def go(prob):
        s = api.solve(x, c, prob, **over)
        return [s.Fp(t), *s.Fm(t), s.u0f(t)] + ([s.uf(t, ph)] if s.uf is not None else [])

    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        got = go(q)
    x.true(f"warnings {sorted(seen(ws))} instead of {sorted(want)}", seen(ws) == want)
    x.true("finite outputs", all(np.isfinite(v).all() for v in got))
    if del_:
        with warnings.catch_warnings():
            warnings.simplefilter("error", UserWarning)
            try:
                api.solve(x, c, q, **over)
                x.true("no exception although a delicate input is warned about in the solve", not want - {"coeffs"})
            except UserWarning:
                x.true("a warning turned into an error for ordinary input", bool(want))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ref = go(p)
        for i, (g, r) in enumerate(zip(got, ref)):
            x.close(f"output {i} against the one for a zeroth moment of one", g, r, 1e-9)
    x.outcome(*got)
