"""All histories of operations up to a depth on the real code, each step checked against what the same operation gives
as the first one in a pristine process.  The model of the library is trivial (it has no state); the model of the world
is the version of each mutable array the caller owns, and the expected outcome of a step is a function of the operation
and those versions only.  Prefixes are shared by forking: every node of the tree of histories is a process snapshot."""
import os, pickle, warnings
import numpy as np
from .. import core, space

RULE = ("All sequences over an alphabet of ~110 operations (solves of a base problem and of every one-argument variation of it, evaluations of a shared solution, interpolation and actinic functions, helper calls with one-argument "
        "variations, rejected calls, in-place modification of the caller's input arrays, of the depth array and of every returned array): depth 2 over the full alphabet, depth 3 over the full alphabet with the modification of all returned arrays in the middle, depth 3 over a core alphabet (thorough: depth 3 over "
        "a larger and depth 4 over a core alphabet). Each step must give what it gives alone in a pristine process (1e-10), and leave its arguments, numpy error state, print options, random state and warning filters alone. In addition, for every configuration within two deviations over reduced dimensions of the bases: solve, evaluate, evaluate and solve again after overwriting the returned arrays, evaluate after overwriting the inputs, with and without automatic-differentiation mode.")
BOUNDS = {"quick": {"depth_full_alphabet": 2, "depth_core_alphabet": 3}, "thorough": {"depth_full_alphabet": 2, "depth_large_core": 3, "depth_small_core": 4}}
ASSUMPTIONS = ["operations outside the alphabet are not covered", "agreement within 1e-10 relative counts as the same result"]
TAU = np.array([0.0, 0.3, 0.5, 0.9, 1.2])
PHI = np.array([0.0, 2.0])
LEG = 9


def f0(a, b):
    return 0.1 + 0.1 * np.outer(a, b)


def f1(a, b):
    return 0.05 * np.outer(a, b**2)


def base():
    return dict(tau_arr=np.array([0.5, 1.2]), omega_arr=np.array([0.8, 0.6]), NQuad=4, Leg_coeffs_all=np.array([0.7 ** np.arange(LEG), 0.4 ** np.arange(LEG)]), mu0=0.6, I0=2.0, phi0=1.0,
                NLeg=4, NFourier=3, b_pos=np.array([0.2, 0.3]), b_neg=0.1, f_arr=np.array([0.2, 0.05]), NT_cor=True, BDRF_Fourier_modes=[f0, 0.05],
                s_poly_coeffs=np.array([[1.0, 0.5], [0.7, 0.2]]))


VARS = {
    "tau_arr": np.array([0.5, 1.3]), "tau_arr#0": np.array([0.55, 1.2]), "omega_arr": np.array([0.8, 0.3]), "omega_arr#0": np.array([0.0, 0.6]), "NQuad": 6, "Leg_coeffs_all": np.array([0.7 ** np.arange(LEG), 0.5 ** np.arange(LEG)]),
    "mu0": 0.8, "I0": 5.0, "I0#0": 0.0, "phi0": 2.5, "NLeg": 3, "NFourier": 2, "b_pos": np.array([0.5, 0.1]), "b_pos#0": 0.4, "b_neg": 0.6, "f_arr": np.array([0.3, 0.05]), "f_arr#0": 0, "NT_cor": False,
    "BDRF_Fourier_modes": [f1, 0.05], "BDRF_Fourier_modes#0": [f0], "BDRF_Fourier_modes#1": [0.3], "s_poly_coeffs": np.array([[1.0, 0.2], [0.7, 0.2]]), "s_poly_coeffs#0": np.array([[1.0], [0.7]]), "only_flux": True,
    "use_banded_solver_NLayers": 5, "autograd_compatible": True,
}
DEFAULTED = ["NLeg", "NFourier", "b_pos", "b_neg", "f_arr", "NT_cor", "BDRF_Fourier_modes", "s_poly_coeffs"]


def variation(name):
    k = base()
    if name.startswith("no_"):
        del k[name[3:]]
    elif name == "layers3":
        k.update(tau_arr=np.array([0.5, 1.2, 1.5]), omega_arr=np.array([0.8, 0.6, 0.2]), Leg_coeffs_all=np.array([0.7 ** np.arange(LEG), 0.4 ** np.arange(LEG), 0.1 ** np.arange(LEG)]), f_arr=np.array([0.2, 0.05, 0.1]),
                 s_poly_coeffs=np.array([[1.0, 0.5], [0.7, 0.2], [0.1, 0.1]]), use_banded_solver_NLayers=3)
    elif name == "layer1":
        k.update(tau_arr=1.2, omega_arr=0.8, Leg_coeffs_all=0.7 ** np.arange(LEG), f_arr=0.2, s_poly_coeffs=np.array([1.0, 0.5]))
    elif name == "minimal":
        k = dict(tau_arr=1.2, omega_arr=0.8, NQuad=4, Leg_coeffs_all=0.7 ** np.arange(4), mu0=0.6, I0=2.0, phi0=1.0)
    elif name == "leg0":
        k["Leg_coeffs_all"] = k["Leg_coeffs_all"].copy()
        k["Leg_coeffs_all"][:, 0] = 0.9
    elif name != "base":
        k[name.split("#")[0]] = VARS[name]
        if name == "NQuad":
            k["b_pos"] = np.array([0.2, 0.3, 0.1])
        if name == "NLeg":
            k["NFourier"] = 3
    return k


SOLVES = ["base"] + list(VARS) + ["no_" + d for d in DEFAULTED] + ["layers3", "layer1", "minimal", "leg0"]


def outputs(out, t, ph, keep):
    r = [np.array(out[0])]
    keep.append(out[0])
    for f in out[1:4]:
        for anti in (False, True):
            v = f(t, anti)
            v = v if isinstance(v, tuple) else (v,)
            keep += list(v)
            r += [np.array(w) for w in v]
    if len(out) > 4:
        for anti in (False, True):
            v = out[4](t, ph, anti)
            keep.append(v)
            r.append(np.array(v))
        v = out[4](t, ph, False, True, True)
        keep += list(v)
        r += [np.array(w) for w in v]
    return r


HELPERS = {
    "gl2": ("Gauss_Legendre_quad", 2), "gl3": ("Gauss_Legendre_quad", 3), "gl4": ("Gauss_Legendre_quad", 4), "gl3b": ("Gauss_Legendre_quad", 3, -1, 2), "gl3c": ("Gauss_Legendre_quad", 3, 0, 2),
    "cc5": ("Clenshaw_Curtis_quad", 5), "cc7": ("Clenshaw_Curtis_quad", 7), "cc5b": ("Clenshaw_Curtis_quad", 5, 0, 1), "cc5c": ("Clenshaw_Curtis_quad", 5, -1, 1),
    "fd5": ("generate_FD_mat", 5, 0, 1), "fd6": ("generate_FD_mat", 6, 0, 1), "fd5b": ("generate_FD_mat", 5, 0, 2),
    "nu": ("calculate_nu", np.array([0.1, -0.4]), np.array([0.2, 1.0]), np.array([-0.5]), np.array([0.3])), "nub": ("calculate_nu", np.array([0.1, 0.4]), np.array([0.2, 1.0]), np.array([-0.5]), np.array([0.3])),
    "aff": ("affine_transform_poly_coeffs", np.array([[1.0, 2.0, 3.0], [0.0, 1.0, 0.5]]), np.array([2.0, 0.5]), np.array([1.0, -1.0])),
    "affb": ("affine_transform_poly_coeffs", np.array([[1.0, 2.0, 3.0], [0.0, 1.0, 0.5]]), np.array([2.0, 0.5]), np.array([1.0, 1.0])),
    "spl": ("linear_spline_coefficients", np.array([0.0, 1.0, 3.0]), np.array([2.0, 1.0, 5.0])), "splb": ("linear_spline_coefficients", np.array([0.0, 2.0, 3.0]), np.array([2.0, 1.0, 5.0])),
    "pl": ("Planck", np.array([0.0, 200.0, 300.0]), 700.0), "plb": ("Planck", np.array([0.0, 200.0, 300.0]), 900.0),
    "bb": ("blackbody_contrib_to_BCs", 300.0, 600.0, 800.0), "bbb": ("blackbody_contrib_to_BCs", 300.0, 700.0, 800.0), "bbc": ("blackbody_contrib_to_BCs", 200.0, 600.0, 800.0),
    "sp": ("generate_s_poly_coeffs", np.array([0.5, 1.2]), np.array([200.0, 250.0, 300.0]), 600.0, 800.0), "spb": ("generate_s_poly_coeffs", np.array([0.6, 1.2]), np.array([200.0, 250.0, 300.0]), 600.0, 800.0),
    "em": ("generate_emissivity_from_BDRF", 2, f0), "emb": ("generate_emissivity_from_BDRF", 2, f1), "emc": ("generate_emissivity_from_BDRF", 3, f0),
    "band": ("to_diag_ordered_form", np.diag(np.arange(1.0, 5)) + np.diag(np.ones(3), 1) + np.diag(2 * np.ones(3), -1), 1, 1),
    "a2": ("atleast_2d_append", np.array([1.0, 2.0]), 3.0), "pre": ("prepend", np.array([1.0, 2.0]), 2, 0.5),
    "ti": ("transform_interval", np.array([0.0, 0.5]), 0, 2, -1, 1), "tw": ("transform_weights", np.array([0.0, 0.5]), 0, 2, -1, 1),
}
CACHES = {"cb": (2, [f0, 0.05], 0), "cbm": (2, [f0, 0.05], 0.6), "cbm2": (2, [f0, 0.05], 0.8), "cb3": (3, [f0, 0.05], 0.6), "cbf": (2, [f1, 0.05], 0.6)}
NV = 3  # versions of each caller-owned array
EVALS = ["u", "u_anti", "u_err", "u0", "u0_anti", "up", "down", "down_anti", "act", "act_tau", "ip", "ip_u0", "ip_flags"]
BAD = ["bad_om", "bad_leg", "bad_bc", "bad_nq", "bad_eval", "bad_bdrf", "bad_helper"]
WORLD = ["W_solve", "W_eval", "W_mut", "t_mut", "out_mut", "W_act", "P_solve", "Q_solve"]
OPS = ["solve:" + s for s in SOLVES] + ["help:" + h for h in HELPERS] + ["cache:" + h for h in CACHES] + ["eval:" + e for e in EVALS] + ["bad:" + b for b in BAD] + WORLD
CORE = ["solve:base", "solve:no_BDRF_Fourier_modes", "solve:layers3", "cache:cbm", "eval:u", "eval:u_err", "eval:u0_anti", "eval:down", "eval:act", "eval:ip", "bad:bad_om", "bad:bad_eval"] + WORLD
LARGE = CORE + ["solve:no_s_poly_coeffs", "solve:I0#0", "solve:autograd_compatible", "cache:cb3", "help:gl3", "help:cc5", "solve:mu0", "solve:NQuad", "solve:only_flux", "solve:minimal", "solve:phi0", "solve:BDRF_Fourier_modes", "solve:tau_arr", "solve:leg0", "help:sp", "help:aff", "help:pl", "eval:ip_u0", "eval:ip_flags", "eval:act_tau", "eval:down_anti",
                "eval:u_anti", "eval:up", "bad:bad_bc", "bad:bad_leg", "bad:bad_bdrf", "cache:cb"]
SMALL = ["solve:base", "solve:layers3", "cache:cbm", "eval:u", "eval:act", "eval:ip", "bad:bad_eval"] + WORLD


def w_inputs(v):
    k = base()
    k["tau_arr"] = k["tau_arr"] * (1 + 0.25 * v)
    k["omega_arr"] = k["omega_arr"] * (1 - 0.2 * v)
    k["Leg_coeffs_all"][:, 1:] *= 1 - 0.15 * v
    k["b_pos"] = k["b_pos"] + 0.3 * v
    k["b_neg"] = np.array([0.1, 0.4]) + 0.1 * v
    k["f_arr"] = k["f_arr"] * (1 - 0.4 * v)
    k["s_poly_coeffs"] = k["s_poly_coeffs"] + 0.2 * v
    return k


def w_t(v):
    return np.array([[0.1, 0.5, 0.9], [0.0, 0.7, 1.2], [1.1, 0.2, 0.6]][v])


class Failed(Exception):
    pass


class World:
    def __init__(self):
        PD, S = core.impl()
        self.PD, self.S = PD, S
        self.kept = []
        self.vi = self.vt = 0
        self.inp = w_inputs(0)
        self.t = w_t(0)
        self.A = self.actA = self.ipA = self.ip0A = self.B = None
        self.calls = 0
        self.P = None
        x = np.polynomial.legendre.leggauss(2)[0] / 2 + 0.5
        self.Q = (f0(x, x), f0(x, np.array([0.6])), f1(x, x), f1(x, np.array([0.6])))  # arrays owned by the caller's reflectance functions

    def needA(self, name=""):
        if self.A is None:
            self.A = self.PD.pydisort(**base())
            self.calls += 1
        if self.actA is None and name.startswith("act"):
            self.actA = self.S.generate_diff_act_flux_funcs(self.A[3])
            self.calls += 1
        if self.ipA is None and name.startswith("ip"):
            self.ipA = self.S.interpolate(self.A[4])
            self.ip0A = self.S.interpolate(self.A[3])
            self.calls += 2

    def key(self, op):
        """model: what the outcome of `op` may depend on"""
        if op.startswith("eval:"):
            return (op, self.vt)
        if op == "W_solve":
            return (op, self.vi)
        if op in ("W_eval", "W_act"):
            return ("W_eval" if op == "W_eval" else "W_act", self.vi if self.B is None else self.B[1])
        return (op,)

    def do(self, op):
        """-> list of arrays (outcome)"""
        S, PD = self.S, self.PD
        kind, _, name = op.partition(":")
        self.calls += 1
        if kind == "solve":
            k = variation(name)
            snap = pickle.dumps({a: b for a, b in k.items() if a != "BDRF_Fourier_modes"})
            modes = list(k["BDRF_Fourier_modes"]) if "BDRF_Fourier_modes" in k else None
            out = PD.pydisort(**k)
            if pickle.dumps({a: b for a, b in k.items() if a != "BDRF_Fourier_modes"}) != snap or (modes is not None and modes != k["BDRF_Fourier_modes"]):
                raise Failed(f"{op}: the arguments were modified")
            t, ph = TAU.copy(), PHI.copy()
            r = outputs(out, t, ph, self.kept)
            if not (np.array_equal(t, TAU) and np.array_equal(ph, PHI)):
                raise Failed(f"{op}: the depth or azimuth argument was modified")
            return r
        if kind == "help":
            f, *a = HELPERS[name]
            snap = pickle.dumps([b for b in a if not callable(b)])
            r = getattr(S, f)(*a)
            if pickle.dumps([b for b in a if not callable(b)]) != snap:
                raise Failed(f"{op}: the arguments were modified")
            r = list(r) if isinstance(r, (tuple, list)) else [r]
            r = [b.toarray() if hasattr(b, "toarray") else b for b in r]
            res = [np.array(b) for b in r]
            if f != "atleast_2d_append":  # documented to return views of its arguments
                self.kept += r
            return res
        if kind == "cache":
            N, modes, mu0 = CACHES[name]
            c = S.cache_BDRF_Fourier_modes(N, list(modes), mu0)
            x = np.polynomial.legendre.leggauss(N)[0] / 2 + 0.5
            x = S.Gauss_Legendre_quad(N)[0]
            return [np.array(g(x, x)) for g in c] + [np.array(g(x, np.array([mu0 or 0.6]))) for g in c]
        if kind == "eval":
            self.needA(name)
            t, ph, mu = self.t, PHI.copy(), np.array([0.9, -0.3, 0.1])
            t_before = t.copy()
            A = self.A
            r = {"u": lambda: A[4](t, ph), "u_anti": lambda: A[4](t, ph, True), "u_err": lambda: A[4](t, ph, False, True, True), "u0": lambda: A[3](t), "u0_anti": lambda: A[3](t, True), "up": lambda: A[1](t),
                 "down": lambda: A[2](t), "down_anti": lambda: A[2](t, True, True), "act": lambda: (self.actA[0](t), self.actA[1](t)), "act_tau": lambda: self.actA[1](t, True, True), "ip": lambda: self.ipA(mu, t, ph),
                 "ip_u0": lambda: self.ip0A(mu, t), "ip_flags": lambda: self.ipA(mu, t, ph, True, True, True)}[name]()
            r = list(r) if isinstance(r, tuple) else [r]
            if not (np.array_equal(t, t_before) and np.array_equal(ph, PHI)):
                raise Failed(f"{op}: an argument was modified")
            res = [np.array(b) for b in r]
            self.kept += [b for b in r if isinstance(b, np.ndarray)]
            return res
        if kind == "bad":
            k = base()

            def boom(*a):
                raise ValueError("boom")
            try:
                if name == "bad_om":
                    k["omega_arr"] = np.array([0.5, 1.0])
                    PD.pydisort(**k)
                elif name == "bad_leg":
                    k["Leg_coeffs_all"][1, 2] = 1.0
                    PD.pydisort(**k)
                elif name == "bad_bc":
                    k["b_neg"] = np.ones(7)
                    PD.pydisort(**k)
                elif name == "bad_nq":
                    k["NQuad"] = 5
                    PD.pydisort(**k)
                elif name == "bad_bdrf":
                    k["BDRF_Fourier_modes"] = [0.1, boom]
                    PD.pydisort(**k)
                elif name == "bad_helper":
                    for f in (lambda: S.Clenshaw_Curtis_quad(4), lambda: S.Clenshaw_Curtis_quad(-1), lambda: S.generate_FD_mat(2, 0.0, 1.0), lambda: S.linear_spline_coefficients(np.array([0.0, 0.0, 1.0]), np.arange(3.0)),
                              lambda: S.linear_spline_coefficients(np.arange(3.0), np.arange(4.0)), lambda: S.generate_s_poly_coeffs(np.array([1.0, 2.0]), np.array([200.0, 300.0]), 1e4, 2e4), lambda: S.interpolate(3),
                              lambda: S.interpolate(lambda t: t), lambda: S.cache_BDRF_Fourier_modes(2, [boom]), lambda: S.generate_emissivity_from_BDRF(2, boom), lambda: S.blackbody_contrib_to_BCs(-5.0, 1e4, 2e4)):
                        try:
                            f()
                        except Exception:
                            pass
                    raise ValueError
                else:
                    self.needA("ip")
                    self.needA("ip_u0")
                    self.needA("act")
                    for t, anti in ((np.array([0.3, 99.0]), False), (-0.1, True)):
                        for f in (self.A[1], self.A[2], self.A[3], lambda t, a: self.A[4](t, 0.0, a), *self.actA, lambda t, a: self.ipA(0.5, t, 0.0, a), lambda t, a: self.ip0A(0.5, t, a),
                                  lambda t, a: self.ipA(np.array([0.5, 1.5]), 0.1, 0.0, a), lambda t, a: self.ip0A(-1.1, 0.1, a)):
                            try:
                                f(t, anti)
                            except ValueError:
                                continue
                            raise Failed(f"{op}: accepted")
                    raise ValueError
            except ValueError:
                return [np.array(1.0)]
            raise Failed(f"{op}: accepted")
        if op == "P_solve":  # reflectance modes cached once and used for every solve
            if self.P is None:
                self.P = S.cache_BDRF_Fourier_modes(2, [f0, f1, 0.05], 0.6)
            k = base()
            k["BDRF_Fourier_modes"] = self.P
            out = PD.pydisort(**k)
            if k["BDRF_Fourier_modes"] is not self.P or len(self.P) != 3:
                raise Failed(f"{op}: the list of modes was modified")
            return outputs(out, TAU.copy(), PHI.copy(), self.kept)
        if op == "Q_solve":  # reflectance functions that hand out their own arrays
            Q = self.Q
            snap = [a.copy() for a in Q]
            k = base()
            k["BDRF_Fourier_modes"] = [lambda a, b: Q[0] if len(b) == 2 else Q[1], 0.05, lambda a, b: Q[2] if len(b) == 2 else Q[3]]
            out = PD.pydisort(**k)
            if any(not np.array_equal(a, b) for a, b in zip(Q, snap)):
                raise Failed(f"{op}: the arrays returned by the caller's reflectance functions were modified")
            return outputs(out, TAU.copy(), PHI.copy(), self.kept)
        if op == "W_solve":
            self.B = (PD.pydisort(**self.inp), self.vi)
            if any(not np.array_equal(self.inp[a], b) for a, b in w_inputs(self.vi).items() if a != "BDRF_Fourier_modes"):
                raise Failed(f"{op}: the arguments were modified")
            return outputs(self.B[0], TAU.copy(), PHI.copy(), self.kept)
        if op in ("W_eval", "W_act"):
            if self.B is None:
                self.B = (PD.pydisort(**self.inp), self.vi)
            if op == "W_eval":  # without the direction array, which is the caller's own
                return outputs(self.B[0], TAU.copy(), PHI.copy(), self.kept)[1:]
            a = S.generate_diff_act_flux_funcs(self.B[0][3])
            return [np.array(a[0](TAU.copy())), np.array(a[1](TAU.copy())), np.array(S.interpolate(self.B[0][4])(np.array([0.4, -0.4]), TAU.copy(), PHI.copy()))]
        if op == "W_mut":
            self.vi = (self.vi + 1) % NV
            for a, b in w_inputs(self.vi).items():
                if isinstance(b, np.ndarray):
                    self.inp[a][...] = b
            return []
        if op == "t_mut":
            self.vt = (self.vt + 1) % NV
            self.t[...] = w_t(self.vt)
            return []
        if op == "out_mut":
            for b in self.kept:
                if isinstance(b, np.ndarray) and b.flags.writeable and b.dtype.kind == "f":
                    b[...] = -123.0
            return []
        raise AssertionError(op)


def global_state(interp=False):
    """SciPy's barycentric interpolator draws a permutation from numpy's global generator; that is SciPy's doing and
    only exempts the interpolating operations."""
    r = (None, None) if interp else (repr(np.random.get_state()[1:3]), np.random.get_state()[1].tobytes())
    return r + (repr(np.geterr()), repr(np.get_printoptions()), repr(warnings.filters), os.getcwd(), repr(np.geterrcall()))


def same(op, got, want):
    if len(got) != len(want):
        raise Failed(f"{op}: {len(got)} outputs instead of {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            raise Failed(f"{op}: output {i} has shape {a.shape} {a.dtype} instead of {b.shape} {b.dtype}")
        e = np.max(np.abs(a - b), initial=0.0)
        if not e <= 1e-10 * np.max(np.abs(b), initial=0.0) + 1e-300:
            raise Failed(f"{op}: output {i} differs by {e:.3e} from what the same call gives in a pristine process")


def step(w, op, baseline):
    k = w.key(op)
    interp = op.startswith("eval:ip") or op in ("W_act", "bad:bad_eval")
    g = global_state(interp)
    got = w.do(op)
    if global_state(interp) != g:
        raise Failed(f"{op}: global state (error state, print options, random state, warning filters or directory) changed")
    if op not in ("W_mut", "t_mut", "out_mut"):
        same(op, got, baseline[k])


def in_child(f):
    """Run f() in a forked child; -> its pickled result."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            warnings.simplefilter("ignore")
            np.seterr(all="ignore")
            try:
                res = ("ok", f())
            except Failed as e:
                res = ("fail", str(e))
            except BaseException as e:
                res = ("fail", f"raised {type(e).__name__}: {e}")
            with os.fdopen(wr, "wb") as fh:
                pickle.dump(res, fh)
        finally:
            os._exit(0)
    os.close(wr)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    _, st = os.waitpid(pid, 0)
    if not data:
        return ("fail", f"the interpreter died (status {st})")
    return pickle.loads(data)


BASE = {}


def prepare(tier):
    """Outcome of every operation as the first one in a pristine process, for every version of what it may depend on."""
    def one(op, vi, vt):
        def f():
            w = World()
            while w.vi != vi:
                w.do("W_mut")
            while w.vt != vt:
                w.do("t_mut")
            return w.key(op), w.do(op)
        return in_child(f)
    core.impl()
    import gc, autograd.numpy, scipy.interpolate, scipy.integrate, scipy.fft, scipy.constants, scipy.sparse, scipy.special, scipy.linalg  # noqa: F401 (import cost only)
    gc.freeze()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for op in OPS:
            if op in ("W_mut", "t_mut", "out_mut"):
                continue
            for v in range(NV) if op.startswith("eval:") or op.startswith("W_") else [0]:
                st, res = one(op, v if op.startswith("W_") else 0, v if op.startswith("eval:") else 0)
                if st == "ok":
                    BASE[res[0]] = res[1]
                else:
                    BASE["error"] = f"{op} in a pristine process: {res}"


def frozen(k):
    return {a: pickle.dumps(b) for a, b in k.items() if a != "BDRF_Fourier_modes"}


def run_cfg(c, x):
    """One configuration: solve, evaluate, evaluate again after every array involved was overwritten, solve again."""
    from .. import api
    PD, S = core.impl()
    p = space.resolve(c)
    x.state(sorted(c.items()))
    extra = dict(use_banded_solver_NLayers=c["band"])
    if c["NT"]:
        extra["NT_cor"] = True
    kind = c["bdrf"] if not (c["bdrf"] == "cached_mu0" and not p["I0"] > 0) else "cached"
    k = api.kwargs(p, kind, **extra)
    lent, modes = [], None
    if k.get("BDRF_Fourier_modes"):
        def lend(f, store):
            def g(a, b):
                key = (np.asarray(a).tobytes(), np.asarray(b).tobytes())
                if key not in store:
                    store[key] = np.array(f(a, b))
                return store[key] if store[key].ndim else store[key][()]
            lent.append(store)
            return g
        k["BDRF_Fourier_modes"] = [q if np.isscalar(q) else lend(q, {}) for q in k["BDRF_Fourier_modes"]]
        modes = list(k["BDRF_Fourier_modes"])
    for auto in (False, True):
        kk = dict(k, autograd_compatible=auto)
        snap = frozen(kk)
        out = x.call(PD.pydisort, **kk)
        first = [{a: b.copy() for a, b in st.items()} for st in lent]
        t = space.depths(p, (0.4,), max_layers=3)
        t = np.concatenate([t[::-1], t])
        ph = np.array([0.3, 2.0])
        ph0, t0 = ph.copy(), t.copy()
        act = S.generate_diff_act_flux_funcs(out[3])
        ip, ip0 = S.interpolate(out[4]), S.interpolate(out[3])
        mu = np.array([0.9, -0.3])

        def ev(keep):
            r = outputs(out, t, ph, keep)
            for f, a in ((act[0], (t,)), (act[1], (t,)), (act[1], (t, True)), (ip, (mu, t, ph)), (ip0, (mu, t))):
                v = f(*a)
                keep.append(v)
                r.append(np.array(v))
            x.calls += 20
            return r
        keep = []
        r0 = ev(keep)
        if frozen(kk) != snap:
            raise core.Violation("the arguments of the solver were modified: " + ", ".join(a for a, b in frozen(kk).items() if snap[a] != b))
        if not (np.array_equal(ph, ph0) and np.array_equal(t, t0) and np.array_equal(mu, [0.9, -0.3])):
            raise core.Violation("an argument of an output function was modified")
        if modes is not None and (modes != kk["BDRF_Fourier_modes"] or any(not np.array_equal(b, st[a]) for f, st in zip(first, lent) for a, b in f.items())):
            raise core.Violation("the reflectance modes were modified")

        def check(what, got):
            try:
                same(what, got, r0)
            except Failed as e:
                raise core.Violation(str(e))
            x.compared += len(got)
            x.traces += 1
        check("second evaluation", ev([]))
        again = PD.pydisort(**kk)
        x.calls += 1
        check("solved again with the same arrays", outputs(again, t, ph, []) + r0[len(outputs(again, t, ph, [])):])
        for b in keep:
            if isinstance(b, np.ndarray) and b.flags.writeable:
                b[...] = -7
        check("evaluation after the returned arrays were overwritten", r0[:1] + ev([])[1:])
        again = PD.pydisort(**kk)
        check("solved again after the returned arrays were overwritten", outputs(again, t, ph, []) + r0[len(outputs(again, t, ph, [])):])
        saved = {a: b.copy() for a, b in kk.items() if isinstance(b, np.ndarray) and b.ndim}
        for a in saved:
            kk[a][...] = 0.0123 if kk[a].dtype.kind == "f" else 1
        stores = [{a: b.copy() for a, b in st.items()} for st in lent]
        for st in lent:
            for b in st.values():
                b[...] = 0.01
        check("evaluation after the inputs were overwritten", r0[:1] + ev([])[1:])
        for a, b in saved.items():
            kk[a][...] = b
        for st, o in zip(lent, stores):
            for a, b in o.items():
                st[a][...] = b
    x.outcome(r0[1], r0[3])


def cases(tier):
    cs = [dict(cfg=c) for c in space.enumerate_configs(["simple", "all", "thermal", "solar", "nt", "layers"], 1)]
    cs += [dict(cfg=c) for c in space.enumerate_configs(["all", "layers", "simple"] if tier == "quick" else ["simple", "all", "thermal", "solar", "nt", "layers"], 2,
                                                        dims=["L", "NQ", "NF", "I0", "bp", "bn", "f", "NT", "bdrf", "s", "band"], drop={"NQ": [16, 6], "L": [12], "I0": [1e-3, 3e4], "bdrf": ["scalars2", "many"]})]
    cs += [dict(prefix=[a], last=list(OPS)) for a in OPS]
    cs += [dict(prefix=[a, "out_mut"], last=list(OPS)) for a in OPS if a not in ("W_mut", "t_mut", "out_mut") and not a.startswith("bad:")]
    # alone twice and thrice first (simplest histories), then the deeper trees
    if tier == "quick":
        cs += [dict(prefix=[a, b], last=list(CORE)) for a in CORE for b in CORE]
    else:
        cs += [dict(prefix=[a, b], last=list(LARGE)) for a in LARGE for b in LARGE]
        cs += [dict(prefix=[a, b, c], last=list(SMALL)) for a in SMALL for b in SMALL for c in SMALL]
    return cs


CHUNK = 1


def run(case, x):
    if "cfg" in case:
        return run_cfg(case["cfg"], x)
    if "error" in BASE:
        raise core.Violation(BASE["error"])

    def tree():
        w = World()
        fails, calls, states = [], 0, 0
        for op in case["prefix"]:
            step(w, op, BASE)
        for op in case["last"]:
            def leaf(op=op):
                c0 = w.calls
                step(w, op, BASE)
                return w.calls - c0, (w.vi, w.vt, None if w.B is None else w.B[1], len(w.kept))
            st, res = in_child(leaf)
            if st != "ok":
                return ("history", case["prefix"] + [op], res)
            calls += res[0]
            states += 1
        return ("done", calls + w.calls, states)
    st, res = in_child(tree)
    if st != "ok":
        raise core.Violation(f"history {case['prefix']}: {res}")
    if res[0] == "history":
        raise core.Violation(f"history {res[1]}: {res[2]}")
    x.calls += res[1]
    x.traces += res[2]
    x.compared += res[2] + len(case["prefix"])
    for op in case["last"]:
        x.state(case["prefix"], op)
        if (op,) in BASE:
            x.outcome(*BASE[(op,)][:2])
