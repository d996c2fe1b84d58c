import warnings
import numpy as np
from math import pi
from .. import core

RULE = ("Every invalid argument of a catalogue (each documented requirement, at every layer / position, both sides of each bound) x ten base calls (one/three/eleven layers, with and without beam, delta-M, corrections, surface, source, flux-only, "
        "automatic differentiation, scalars): the call must raise ValueError; every evaluation outside the atmosphere, for every output function x antiderivative x position of the bad depth; helper argument checks; every boundary-valid call of a second catalogue must be accepted and finite.")
BOUNDS = {"quick": {"bases": 10, "simultaneous_faults": 1}, "thorough": {"bases": 10, "simultaneous_faults": 2}}
BASES = ["one", "three", "eleven", "nobeam", "flux", "nt", "bdrf", "source", "auto", "everything"]


def q0(a, b):
    return 0.1 + 0.1 * np.outer(a, b)


def base(name):
    L = {"one": 1, "eleven": 11}.get(name, 3)
    k = dict(tau_arr=0.4 * np.arange(1, L + 1), omega_arr=np.linspace(0.3, 0.9, L), NQuad=6, Leg_coeffs_all=np.array([g ** np.arange(8) for g in np.linspace(0.2, 0.6, L)]), mu0=0.6, I0=2.0, phi0=1.0)
    if name == "nobeam":
        k.update(I0=0.0, b_pos=0.5)
    if name == "flux":
        k.update(only_flux=True)
    if name in ("nt", "everything"):
        k.update(f_arr=np.linspace(0.1, 0.3, L), NT_cor=True)
    if name in ("bdrf", "everything"):
        k.update(BDRF_Fourier_modes=[q0, 0.05])
    if name in ("source", "everything"):
        k.update(s_poly_coeffs=np.ones((L, 2)), b_neg=np.array([0.1, 0.2, 0.3]))
    if name == "auto":
        k.update(autograd_compatible=True)
    if name == "everything":
        k.update(NLeg=5, NFourier=4, b_pos=np.ones((3, 4)) * 0.1)
    return k


def put(a, i, v):
    a = np.array(a, float)
    a[i] = v
    return a


def faults(name):
    """-> {fault name: changes}"""
    k = base(name)
    L = len(k["tau_arr"])
    out = {}
    for l in sorted({0, 1, L // 2, L - 1} & set(range(L))):
        lo = k["tau_arr"][l - 1] if l else 0.0
        for n, v in (("zero", 0.0), ("negative", -0.2), ("equal", lo), ("decreasing", lo - 0.1)):
            out[f"tau {n} at {l}"] = dict(tau_arr=put(k["tau_arr"], l, v))
        if l < L - 1:
            out[f"tau above next at {l}"] = dict(tau_arr=put(k["tau_arr"], l, k["tau_arr"][l + 1] + 0.05))
        for v in (1.0, 1.5, -0.01, -1.0):
            out[f"omega {v} at {l}"] = dict(omega_arr=put(k["omega_arr"], l, v))
        for j in (1, 2, 5, 6, 7):
            for v in (1.0, -1.0, 1.3, -2.0):
                out[f"moment {v} at {l},{j}"] = dict(Leg_coeffs_all=put(k["Leg_coeffs_all"], (l, j), v))
        for v in (-0.01, 1.0, 1.2):
            out[f"f {v} at {l}"] = dict(f_arr=put(np.full(L, 0.1), l, v))
    out["tau scalar negative"] = dict(tau_arr=-1.0, omega_arr=0.5, Leg_coeffs_all=k["Leg_coeffs_all"][0])
    out["omega longer"] = dict(omega_arr=np.full(L + 1, 0.5))
    out["moments more rows"] = dict(Leg_coeffs_all=np.tile(k["Leg_coeffs_all"][:1], (L + 1, 1)))
    out["f longer"] = dict(f_arr=np.full(L + 1, 0.1))
    out["s more rows"] = dict(s_poly_coeffs=np.ones((L + 1, 2)))
    if L > 1:
        out["omega shorter"] = dict(omega_arr=np.full(L - 1, 0.5))
        out["omega scalar"] = dict(omega_arr=0.5)
        out["moments fewer rows"] = dict(Leg_coeffs_all=k["Leg_coeffs_all"][:-1])
        out["moments one row"] = dict(Leg_coeffs_all=k["Leg_coeffs_all"][0])
        out["f shorter"] = dict(f_arr=np.full(L - 1, 0.1))
        out["f scalar"] = dict(f_arr=0.1)
        out["s fewer rows"] = dict(s_poly_coeffs=np.ones((L - 1, 2)))
        out["s one row"] = dict(s_poly_coeffs=np.ones((1, 2)))
    for v in (0, 1, 3, 5, 7, -2):
        out[f"NQuad {v}"] = dict(NQuad=v)
        if v > 2:
            out[f"NQuad {v} few moments"] = dict(NQuad=v, NLeg=2, NFourier=2, b_pos=0, b_neg=0)
    for v in (0, -1, 9):
        out[f"NLeg {v}"] = dict(NLeg=v)
    out["NLeg above NQuad"] = dict(NLeg=7, NFourier=3, b_pos=0.1)
    if not k.get("only_flux"):
        for v in (0, -1, 7):
            out[f"NFourier {v}"] = dict(NFourier=v, b_pos=0.1)
        out["NFourier above NLeg"] = dict(NLeg=3, NFourier=4, b_pos=0.1)
    for v in (-1e-9, -1e-3, -5.0):
        out[f"I0 {v}"] = dict(I0=v)
    for v in (0.0, -1e-9, -0.3, 1 + 1e-9, 1.001, 2.0):
        out[f"mu0 {v}"] = dict(mu0=v, I0=1.0)
    for v in (-1e-9, -1e-3, 2 * pi, 7.0):
        out[f"phi0 {v}"] = dict(phi0=v, I0=1.0)
    NF = 1 if k.get("only_flux") else k.get("NFourier", 6)
    for b in ("b_pos", "b_neg"):
        for n, sh in (("longer", (4,)), ("shorter", (2,)), ("too many modes", (3, NF + 1)), ("too many nodes", (4, NF)), ("all streams", (6,)), ("3-d", (3, NF, 1)), ("row", (1, 3)), ("2-d single", (1, 1))):
            out[f"{b} {n}"] = {b: np.ones(sh) * 0.2}
        if NF > 1:
            out[f"{b} too few modes"] = {b: np.ones((3, NF - 1)) * 0.2}
        if NF != 3:
            out[f"{b} transposed"] = {b: np.ones((NF, 3)) * 0.2}
    x = np.polynomial.legendre.leggauss(3)[0] / 2 + 0.5
    for i in range(3):
        out[f"mu0 on node {i} with corrections"] = dict(mu0=float(x[i]), NT_cor=True, f_arr=np.full(L, 0.1), I0=1.0)
    for v in (2, 1, 0, -3):
        out[f"banded threshold {v}"] = dict(use_banded_solver_NLayers=v)
    return out


def valid(name):
    """Calls at the edge of the allowed ranges."""
    k = base(name)
    L = len(k["tau_arr"])
    out = {"unchanged": {}}
    for l in sorted({0, L - 1}):
        out[f"omega 0 at {l}"] = dict(omega_arr=put(k["omega_arr"], l, 0.0))
        out[f"omega near 1 at {l}"] = dict(omega_arr=put(k["omega_arr"], l, 1 - 1e-6))
        out[f"moment near 1 at {l}"] = dict(Leg_coeffs_all=put(k["Leg_coeffs_all"], (l, 1), 0.95))
        out[f"moment -0.2 at {l}"] = dict(Leg_coeffs_all=put(k["Leg_coeffs_all"], (l, 7), -0.2))
        out[f"f 0 at {l}"] = dict(f_arr=put(np.full(L, 0.1), l, 0.0))
        out[f"f high at {l}"] = dict(f_arr=put(np.full(L, 0.1), l, 0.9))
    out["omega all 0"] = dict(omega_arr=np.zeros(L))
    out["thin"] = dict(tau_arr=1e-7 * np.arange(1, L + 1))
    out["mu0 1"] = dict(mu0=1.0)
    out["mu0 integer"] = dict(mu0=1)
    out["mu0 small"] = dict(mu0=0.01)
    out["phi0 0"] = dict(phi0=0)
    out["phi0 top"] = dict(phi0=2 * pi - 1e-9)
    out["no beam, any angles"] = dict(I0=0, mu0=0, phi0=-9.0)
    out["no beam, mu0 2"] = dict(I0=0.0, mu0=2.0, phi0=0.0)
    out["I0 integer"] = dict(I0=3)
    out["NLeg 1"] = dict(NLeg=1, NFourier=1, b_pos=0.1)
    out["NFourier 1"] = dict(NFourier=1, b_pos=0.1)
    out["NLeg = NQuad"] = dict(NLeg=6, NFourier=6, b_pos=0.1)
    out["NQuad 2"] = dict(NQuad=2, NLeg=2, NFourier=2, b_pos=0.1, b_neg=0.2)
    out["NQuad 8"] = dict(NQuad=8, NLeg=8, NFourier=8, b_pos=0.1, b_neg=0.2)
    out["banded 3"] = dict(use_banded_solver_NLayers=3)
    out["banded huge"] = dict(use_banded_solver_NLayers=10**6)
    out["zero boundary of any shape"] = dict(b_pos=np.zeros((3, 1)), b_neg=np.zeros(3))
    out["boundary vector"] = dict(b_pos=np.full(3, 0.2), b_neg=[0.1, 0.2, 0.3])
    out["boundary one-element"] = dict(b_pos=np.array([0.2]), b_neg=np.array(0.3))
    NF = 1 if k.get("only_flux") else k.get("NFourier", 6)
    out["boundary matrix"] = dict(b_pos=np.full((3, NF), 0.2), b_neg=np.full((3, NF), 0.1))
    out["f 0 scalar"] = dict(f_arr=0)
    out["f zeros"] = dict(f_arr=np.zeros(L))
    out["source zeros"] = dict(s_poly_coeffs=np.zeros((L, 3)))
    out["source one column"] = dict(s_poly_coeffs=np.ones((L, 1)))
    out["no surface"] = dict(BDRF_Fourier_modes=[])
    out["surface zeros"] = dict(BDRF_Fourier_modes=[0, 0.0])
    out["more surface modes than used"] = dict(BDRF_Fourier_modes=[0.1] * 9)
    out["zeroth moment corrected"] = dict(Leg_coeffs_all=put(k["Leg_coeffs_all"], (0, 0), 0.9))
    if not k.get("NT_cor"):
        out["mu0 on a node"] = dict(mu0=float(np.polynomial.legendre.leggauss(3)[0][1] / 2 + 0.5))
    out["mu0 near a node"] = dict(mu0=float(np.polynomial.legendre.leggauss(3)[0][1] / 2 + 0.5) + 1e-4)
    return out


def cases(tier):
    cs = []
    for b in BASES:
        cs += [dict(kind="fault", base=b, name=n) for n in faults(b)]
        cs += [dict(kind="valid", base=b, name=n) for n in valid(b)]
        cs += [dict(kind="eval", base=b)]
    cs += [dict(kind="helper", name=n) for n in HELP]
    if tier == "thorough":
        for b in ("three", "everything"):
            ns = list(faults(b))
            cs += [dict(kind="fault2", base=b, name=n, name2=m) for i, n in enumerate(ns) for m in ns[i + 1:]]
            vs = list(valid(b))
            cs += [dict(kind="fault+valid", base=b, name=n, name2=m) for n in ns for m in vs]
    return cs


def h_cc(x, S):
    for n in (-3, -1, 0, 1, 2, 4, 6, 100):
        x.raises(f"Clenshaw_Curtis_quad({n})", ValueError, S.Clenshaw_Curtis_quad, n)
        x.raises(f"Clenshaw_Curtis_quad({n}, 0, 1)", ValueError, S.Clenshaw_Curtis_quad, n, 0, 1)
    for n in (3, 5, 7, 101):
        x.call(S.Clenshaw_Curtis_quad, n)


def h_spline(x, S):
    xs, ys = np.array([0.0, 1.0, 2.0, 4.0]), np.array([1.0, 5.0, 2.0, 0.0])
    x.raises("one point", ValueError, S.linear_spline_coefficients, xs[:1], ys[:1])
    x.raises("no point", ValueError, S.linear_spline_coefficients, xs[:0], ys[:0])
    x.raises("fewer y", ValueError, S.linear_spline_coefficients, xs, ys[:-1])
    x.raises("more y", ValueError, S.linear_spline_coefficients, xs[:-1], ys)
    for i in range(3):
        for v in (xs[i], xs[i] - 0.5):
            b = xs.copy()
            b[i + 1] = v
            x.raises(f"x not ascending at {i + 1} ({v})", ValueError, S.linear_spline_coefficients, b, ys)
    x.raises("descending", ValueError, S.linear_spline_coefficients, xs[::-1], ys)
    x.call(S.linear_spline_coefficients, xs[:2], ys[:2])


def h_affine(x, S):
    for L in (1, 2, 3, 5):
        for n in (1, 2, 4):
            c = np.ones((L, n))
            for i in range(L):
                for z in (0.0, -0.0):
                    a = np.arange(1.0, L + 1)
                    a[i] = z
                    x.raises(f"zero scale at {i} of {L}", ValueError, S.affine_transform_poly_coeffs, c, a, np.ones(L))
            x.call(S.affine_transform_poly_coeffs, c, -np.arange(1.0, L + 1), np.zeros(L))


def h_spoly(x, S):
    for L in (1, 2, 4):
        t = np.arange(1.0, L + 1)
        for n in {0, 1, L, L + 2, 2 * L + 1} - {L + 1}:
            x.raises(f"{n} temperatures for {L} layers", ValueError, S.generate_s_poly_coeffs, t, np.full(n, 250.0), 500.0, 600.0)
        x.call(S.generate_s_poly_coeffs, t, np.full(L + 1, 250.0), 500.0, 600.0)
    x.call(S.generate_s_poly_coeffs, 1.0, np.array([200.0, 250.0]), 500.0, 600.0)


def h_interp(x, S):
    PD, _ = core.impl()
    for b in ("one", "everything"):
        o = PD.pydisort(**base(b))
        u, u0 = S.interpolate(o[4]), S.interpolate(o[3])
        for bad in (1.001, -1.001, 3.0, -50.0):
            x.raises(f"mu {bad}", ValueError, u, bad, 0.2, 0.0)
            x.raises(f"mu {bad} (u0)", ValueError, u0, bad, 0.2)
            for i in range(3):
                m = np.array([0.2, -0.4, 0.9])
                m[i] = bad
                x.raises(f"mu {bad} at {i}", ValueError, u, m, np.array([0.1, 0.3]), np.array([0.0, 1.0]))
                x.raises(f"mu {bad} at {i}, antiderivative", ValueError, u, m, 0.1, 0.0, True)
                x.raises(f"mu {bad} at {i} (u0)", ValueError, u0, m, np.array([0.1, 0.3]))
                x.raises(f"mu {bad} at {i} (u0), with depths", ValueError, u0, m, 0.1, False, False, True)
        for good in (1, -1, 0, 1.0, np.array([-1.0, 1.0, 0.0])):
            x.true(f"mu {good} accepted", np.all(np.isfinite(x.call(u, good, 0.2, 0.0))) and np.all(np.isfinite(x.call(u0, good, 0.2))))


HELP = {"Clenshaw-Curtis": h_cc, "spline": h_spline, "affine": h_affine, "source coefficients": h_spoly, "interpolation": h_interp}


def finite(out, k):
    T = np.atleast_1d(k["tau_arr"])
    t = np.concatenate([[0.0], T, T * 0.7])
    r = [out[1](t), out[2](t)[0], out[2](t)[1], out[3](t)]
    if len(out) > 4:
        r.append(out[4](t, np.array([0.0, 2.0])))
    return all(np.all(np.isfinite(v)) for v in r)


def run(case, x):
    PD, S = core.impl()
    x.state(sorted(case.items()))
    kind = case["kind"]
    x.traces += 1
    if kind == "helper":
        return HELP[case["name"]](x, S)
    k = base(case["base"])
    if kind in ("fault", "fault2"):
        k.update(faults(case["base"])[case["name"]])
        if "name2" in case:
            k.update(faults(case["base"])[case["name2"]])
        x.raises(f"{case['base']}: {case['name']}", ValueError, PD.pydisort, **k)
        x.outcome(case["name"])
    elif kind == "fault+valid":
        v = valid(case["base"])[case["name2"]]
        f = faults(case["base"])[case["name"]]
        if set(v) & set(f) or {"NQuad", "NLeg", "NFourier", "I0", "mu0", "tau_arr"} & (set(v) | set(f)):
            return  # the second change may undo the first
        k.update(v)
        k.update(f)
        x.raises(f"{case['base']}: {case['name']} with {case['name2']}", ValueError, PD.pydisort, **k)
    elif kind == "valid":
        k.update(valid(case["base"])[case["name"]])
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            out = x.call(PD.pydisort, **k)
        if case["name"].startswith("zeroth moment"):
            x.true("a zeroth moment that is corrected is warned about", any("zeroth" in str(w.message) for w in ws))
        elif case["name"] == "unchanged":
            x.true(f"warning for a plain problem: {[str(w.message) for w in ws]}", not any(w.category is UserWarning for w in ws))
        x.true(f"{case['base']}: {case['name']}: outputs must be finite", finite(out, k))
        x.outcome(out[1](0.0), out[3](0.0))
    else:
        out = x.call(PD.pydisort, **k)
        act = S.generate_diff_act_flux_funcs(out[3])
        fs = {"Fp": out[1], "Fm": out[2], "u0": out[3], "actinic up": act[0], "actinic down": act[1], "interpolated u0": lambda t, a=False: S.interpolate(out[3])(0.3, t, a)}
        if len(out) > 4:
            fs["u"] = lambda t, a=False: out[4](t, 0.0, a)
            fs["u many azimuths"] = lambda t, a=False: out[4](t, np.array([0.0, 1.0]), a)
            fs["interpolated u"] = lambda t, a=False: S.interpolate(out[4])(0.3, t, 0.0, a)
        T = float(np.atleast_1d(k["tau_arr"])[-1])
        for n, f in fs.items():
            for a in (False, True):
                for bad in (-1e-6, -1.0, T * (1 + 1e-6), T + 1, 1e6):
                    for arg in (bad, np.array([bad]), np.array([bad, 0.1]), np.array([0.1, bad, 0.2]), [0.1, 0.2, bad]):
                        x.raises(f"{case['base']}: {n} at {arg}{' antiderivative' if a else ''}", ValueError, f, arg, a)
                for good in (0, 0.0, T, np.array([0.0, T]), np.atleast_1d(k["tau_arr"])):
                    r = x.call(f, good, a)
                    x.true(f"{n} at {good} must be finite", all(np.all(np.isfinite(v)) for v in (r if isinstance(r, tuple) else (r,))))
        x.outcome(case["base"])
