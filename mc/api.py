"""Driving the public API from resolved problems, and the reference model from the same numbers."""
import numpy as np
from . import core, space
from .refmodel import Problem


def kwargs(p, bdrf_kind=None, **over):
    """Keyword arguments of the public solver for a resolved problem (fresh arrays)."""
    PD, S = core.impl()
    k = dict(tau_arr=np.array(p["tau_arr"]), omega_arr=np.array(p["omega_arr"]), NQuad=p["NQuad"], Leg_coeffs_all=np.array(p["Leg"]),
             mu0=p["mu0"], I0=p["I0"], phi0=p["phi0"], NLeg=p["NLeg"], NFourier=p["NFourier"], b_pos=np.array(p["b_pos"])[()], b_neg=np.array(p["b_neg"])[()])
    if np.any(p["f_arr"]):
        k["f_arr"] = np.array(p["f_arr"])
    if p["s_poly"] is not None:
        k["s_poly_coeffs"] = np.array(p["s_poly"])
    if len(p["bdrf"]):
        m = list(p["bdrf"])
        if bdrf_kind == "cached":
            m = S.cache_BDRF_Fourier_modes(p["NQuad"] // 2, m)
        elif bdrf_kind == "cached_mu0":
            m = S.cache_BDRF_Fourier_modes(p["NQuad"] // 2, m, p["mu0"])
        k["BDRF_Fourier_modes"] = m
    k.update(over)
    return k


class Sol:
    """The functions returned by one solve, with outputs reshaped to full axes."""

    def __init__(self, x, out, NQ, tau=None):
        self.x, self.NQ, self.tau = x, NQ, None if tau is None else np.atleast_1d(tau)
        self.mu, self.Fp, self.Fm, self.u0f = out[:4]
        self.uf = out[4] if len(out) > 4 else None

    def _flags(self, what, f, args, plain, shape, axis, **flags):
        """The values, their shapes and kind must not depend on whether additional information is asked for, or on the
        order of the depths, and the additional information comes in the documented order."""
        n = len(args[0])
        perm = np.arange(n)
        if "return_tau_arr" in flags and len(flags) == 1:
            perm = perm[::-1] if n % 2 else np.roll(perm, n // 2)
        r = self.x.call(f, args[0][perm], *args[1:], **flags)
        name = f"{what} with {sorted(flags)}"
        self.x.true(f"{name}: a tuple of the values and {len(flags)} more", isinstance(r, tuple) and len(r) == len(plain) + len(flags))
        for i, v in enumerate(plain):
            if not np.all(np.isfinite(v)):
                raise core.Violation(f"{what}: not finite: {v}")
            if np.shape(r[i]) != np.shape(v):
                raise core.Violation(f"{name}: value {i} has shape {np.shape(r[i])} instead of {np.shape(v)}")
            self.x.close(f"{name}: value {i}, depths in another order, against the value without", np.reshape(r[i], shape), np.take(np.reshape(v, shape), perm, axis=axis), 1e-9)
        if "return_tau_arr" in flags and self.tau is not None:
            self.x.true(f"{name}: optical depths {r[-1]}", np.shape(r[-1]) == self.tau.shape and np.allclose(r[-1], self.tau, rtol=1e-14, atol=0))
        if "return_Fourier_error" in flags:
            self.x.true(f"{name}: Fourier error {r[len(plain)]}", np.ndim(r[len(plain)]) == 0 and r[len(plain)] >= 0)

    def u(self, t, ph, anti=False, **k):
        t, ph = np.atleast_1d(t), np.atleast_1d(ph)
        shape = (self.NQ, len(t), len(ph))
        r = self.x.call(self.uf, t, ph, anti, **k)
        if k:
            return (np.asarray(r[0]).reshape(shape),) + tuple(r[1:])
        self._flags("u", self.uf, (t, ph, anti), (r,), shape, 1, return_Fourier_error=True)
        self._flags("u", self.uf, (t, ph, anti), (r,), shape, 1, return_tau_arr=True)
        self._flags("u", self.uf, (t, ph, anti), (r,), shape, 1, return_tau_arr=True, return_Fourier_error=True)
        return np.asarray(r).reshape(shape)

    def u0(self, t, anti=False):
        t = np.atleast_1d(t)
        r = self.x.call(self.u0f, t, anti)
        self._flags("u0", self.u0f, (t, anti), (r,), (self.NQ, len(t)), 1, return_tau_arr=True)
        return np.asarray(r).reshape(self.NQ, len(t))

    def up(self, t, anti=False):
        t = np.atleast_1d(t)
        r = self.x.call(self.Fp, t, anti)
        self._flags("flux up", self.Fp, (t, anti), (r,), (len(t),), 0, return_tau_arr=True)
        return np.asarray(r).reshape(len(t))

    def down(self, t, anti=False):
        t = np.atleast_1d(t)
        r = self.x.call(self.Fm, t, anti)
        self.x.true("downward fluxes: two values", isinstance(r, tuple) and len(r) == 2)
        self._flags("flux down", self.Fm, (t, anti), r, (len(t),), 0, return_tau_arr=True)
        return np.asarray(r[0]).reshape(len(t)), np.asarray(r[1]).reshape(len(t))

    def all(self, t, ph=space.PHIS, anti=False):
        """dict of every output on a depth grid"""
        d, b = self.down(t, anti)
        r = dict(up=self.up(t, anti), down=d, direct=b, u0=self.u0(t, anti))
        if self.uf is not None:
            r["u"] = self.u(t, ph, anti)
        return r

    def actinic(self, t, anti=False):
        PD, S = core.impl()
        a, b = self.x.call(S.generate_diff_act_flux_funcs, self.u0f)
        t = np.atleast_1d(t)
        return np.asarray(self.x.call(a, t, anti)).reshape(len(t)), np.asarray(self.x.call(b, t, anti)).reshape(len(t))


def solve_kw(x, k):
    PD, S = core.impl()
    return Sol(x, x.call(PD.pydisort, **k), k["NQuad"], k["tau_arr"])


def solve(x, c, p=None, **over):
    """Solve a configuration (dict of options)."""
    p = space.resolve(c) if p is None else p
    k = dict(use_banded_solver_NLayers=c["band"])
    if c["NT"]:
        k["NT_cor"] = True
    k.update(over)
    kind = c["bdrf"]
    if kind == "cached_mu0" and not p["I0"] > 0:
        kind = "cached"
    return solve_kw(x, kwargs(p, kind, **k))


def reference(p, modes=None):
    q = dict(p)
    if "NT" in q:
        del q["NT"]
    return Problem(**q).solve(modes)


def compare(x, a, b, rtol=1e-6, what="", keys=None):
    """Every output of two evaluations agrees; tolerance relative to the magnitude at each depth
    (floored at 1e-5 of the overall magnitude of the outputs)."""
    top = scaleof(b)
    ref = np.abs(b["u0"]).max(axis=0) if "u0" in b else 0.0
    for k in keys or a:
        if k not in b:
            continue
        A, B = np.asarray(a[k]), np.asarray(b[k])
        if k in ("u", "u0"):
            sc = np.abs(B).max(axis=tuple(i for i in range(B.ndim) if i != 1), keepdims=True)
        else:
            sc = np.maximum(np.abs(B), ref)
        x.close(what + k, A, B, rtol, scale=np.maximum(sc, 1e-5 * top))


def scaleof(r):
    return max(float(np.max(np.abs(v))) for v in r.values())
