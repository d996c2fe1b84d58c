"""Independent reference model of the problem that PythonicDISORT is meant to solve.

Deliberately boring, and sharing no algorithm with the implementation:

* the radiative transfer equation is written in the ORIGINAL optical depth (no delta-scaled
  coordinate, no affine transformation of the source polynomial);
* azimuthal modes of the phase function are obtained by averaging p(cos gamma) over an equispaced
  azimuth grid (no associated Legendre functions, no Pochhammer symbols);
* the two-point boundary value problem is solved by multiple shooting with matrix exponentials
  (no eigendecomposition, no particular solutions, no coefficient matching, no banded solver);
* sources are extra components of the linear ODE state (beam transmission, powers of tau);
* nothing is rescaled.

Everything is a plain function of a `Problem` (fully resolved numbers).
"""
import numpy as np
from . import quad
import scipy.linalg as sla
from math import pi


def gauss01(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


class Problem:
    """Fully resolved problem: arrays only."""

    def __init__(self, tau_arr, omega_arr, NQuad, Leg, mu0=0.0, I0=0.0, phi0=0.0, NLeg=None,
                 NFourier=None, b_pos=0, b_neg=0, f_arr=None, bdrf=(), s_poly=None, **_):
        self.tau = np.asarray(tau_arr, float)
        self.L = len(self.tau)
        self.edges = np.concatenate([[0.0], self.tau])
        self.om = np.asarray(omega_arr, float)
        self.NQ = int(NQuad)
        self.N = self.NQ // 2
        self.Leg = np.atleast_2d(np.asarray(Leg, float))
        self.NLeg = self.NQ if NLeg is None else int(NLeg)
        self.NF = self.NQ if NFourier is None else int(NFourier)
        self.mu0, self.I0, self.phi0 = float(mu0), float(I0), float(phi0)
        self.f = np.zeros(self.L) if f_arr is None else np.broadcast_to(np.asarray(f_arr, float), (self.L,))
        self.bp = self._bc(b_pos)
        self.bn = self._bc(b_neg)
        self.bdrf = list(bdrf)  # callables (mu, mu') -> outer matrix, or scalars
        s = np.zeros((self.L, 1)) if s_poly is None else np.atleast_2d(np.asarray(s_poly, float))
        if s.size == 0:
            s = np.zeros((self.L, 1))
        self.s = s
        self.x, self.w = gauss01(self.N)
        self.mu = np.concatenate([self.x, -self.x])
        self.ww = np.concatenate([self.w, self.w])
        # attenuation coefficient of the delta-scaled medium per unit ORIGINAL optical depth
        self.sig = 1 - self.om * self.f
        self.stau = np.concatenate([[0.0], np.cumsum(self.sig * np.diff(self.edges))])

    def _bc(self, b):
        """-> (N, NF) matrix of Fourier coefficients."""
        out = np.zeros((self.N, self.NF))
        b = np.asarray(b, float)
        if b.ndim == 2:
            out[:, :] = b
        else:
            out[:, 0] = b
        return out

    # ---- optics -------------------------------------------------------------------------
    def phase(self, coeffs, mu, mup, dphi):
        """sum (2l+1) c_l P_l(nu) on the outer grid mu x mup x dphi."""
        nu = (mu[:, None, None] * mup[None, :, None]
              + np.sqrt(1 - mu**2)[:, None, None] * np.sqrt(1 - mup**2)[None, :, None] * np.cos(dphi)[None, None, :])
        return np.polynomial.legendre.legval(nu, (2 * np.arange(len(coeffs)) + 1) * coeffs)

    def trunc_coeffs(self, l):
        """Legendre coefficients of (1-f) p* : g_l - f, first NLeg (the delta peak removed)."""
        return self.Leg[l, : self.NLeg] - self.f[l]

    def modes(self, l, mu, mup):
        """A[m, i, j]: azimuthal mode m of (1-f)p*(mu_i, mup_j), m < NF."""
        K = 2 * (self.NLeg + self.NF) + 2
        dphi = 2 * pi * np.arange(K) / K
        p = self.phase(self.trunc_coeffs(l), np.asarray(mu, float), np.atleast_1d(np.asarray(mup, float)), dphi)
        c = np.cos(np.arange(self.NF)[:, None] * dphi[None, :])
        return np.einsum("ijk,mk->mij", p, c) / K

    def layer_of(self, tau):
        """Layer of a depth; interfaces belong to the layer above (documented piecewise convention)."""
        return int(np.argmax(tau <= self.tau))

    # ---- solve --------------------------------------------------------------------------
    def solve(self, modes=None):
        NQ, N, L = self.NQ, self.N, self.L
        ms = range(self.NF) if modes is None else modes
        ns = self.s.shape[1]
        beam = self.I0 > 0
        h_max = 8.0 * self.x.min()
        # sublayers (shared by all modes)
        self.sub = []  # (layer, start)
        self.h = np.empty(L)
        for l in range(L):
            T = self.edges[l + 1] - self.edges[l]
            n = max(1, int(np.ceil(T * self.sig[l] / h_max)))
            self.h[l] = T / n
            for k in range(n):
                self.sub.append((l, self.edges[l] + k * self.h[l]))
        nsub = len(self.sub)
        self.first = [min(i for i, (a, _) in enumerate(self.sub) if a == l) for l in range(L)]
        self.A = {}
        self.U = {}
        Am = [self.modes(l, self.mu, self.mu) for l in range(L)]
        Xm = [self.modes(l, self.mu, [-self.mu0]) if beam else None for l in range(L)]
        self.aux = np.array([self.aux_at(l, t) for l, t in self.sub])
        for m in ms:
            d0 = 1.0 if m == 0 else 0.0
            size = NQ * (nsub + 1)
            M = np.zeros((size, size))
            rhs = np.zeros(size)
            self.A[m] = []
            for l in range(L):
                A = np.zeros((NQ + 1 + ns, NQ + 1 + ns))
                A[:NQ, :NQ] = (np.diag(np.full(NQ, self.sig[l])) - self.om[l] / 2 * Am[l][m] * self.ww[None, :]) / self.mu[:, None]
                if beam:
                    A[:NQ, NQ] = -(self.om[l] * self.I0 * (2 - d0) / (4 * pi)) * Xm[l][m][:, 0] / self.mu
                    A[NQ, NQ] = -self.sig[l] / self.mu0
                if m == 0:
                    A[:NQ, NQ + 1:] = -(1 - self.om[l]) * self.s[l][None, :] / self.mu[:, None]
                for k in range(1, ns):
                    A[NQ + 1 + k, NQ + k] = k
                self.A[m].append(A)
                P = sla.expm(A * self.h[l])
                for i in [i for i, (a, _) in enumerate(self.sub) if a == l]:
                    r = N + NQ * i
                    M[r:r + NQ, NQ * i:NQ * (i + 1)] = -P[:NQ, :NQ]
                    M[r:r + NQ, NQ * (i + 1):NQ * (i + 2)] = np.eye(NQ)
                    rhs[r:r + NQ] = P[:NQ, NQ:] @ self.aux[i]
            M[:N, N:NQ] = np.eye(N)
            rhs[:N] = self.bn[:, m]
            M[-N:, -NQ:-N] = np.eye(N)
            rhs[-N:] = self.bp[:, m]
            R, X = self.surface(m)
            M[-N:, -N:] = -R
            rhs[-N:] += X
            if size > 200:
                bw = 2 * NQ + N
                ab = np.zeros((2 * bw + 1, size))
                ii, jj = np.nonzero(M)
                ab[bw + ii - jj, jj] = M[ii, jj]
                sol = sla.solve_banded((bw, bw), ab, rhs)
            else:
                sol = np.linalg.solve(M, rhs)
            self.U[m] = sol.reshape(nsub + 1, NQ)
        return self

    def surface(self, m):
        """Reflection matrix and reflected direct beam of azimuthal mode m."""
        N = self.N
        R, X = np.zeros((N, N)), np.zeros(N)
        if m < len(self.bdrf):
            q = self.bdrf[m]
            qf = (lambda a, b: np.full((len(a), len(b)), float(q))) if np.isscalar(q) else q
            R = (2.0 if m == 0 else 1.0) * qf(self.x, self.x) * (self.x * self.w)[None, :]
            if self.I0 > 0:
                X = qf(self.x, np.array([self.mu0]))[:, 0] * self.mu0 * self.I0 / pi * np.exp(-self.stau[-1] / self.mu0)
        return R, X

    def stau_at(self, tau, l=None):
        l = self.layer_of(tau) if l is None else l
        return self.stau[l] + self.sig[l] * (tau - self.edges[l])

    def aux_at(self, l, tau):
        """Known components of the ODE state: beam transmission and powers of tau."""
        E = np.exp(-self.stau_at(tau, l) / self.mu0) if self.I0 > 0 else 0.0
        return np.concatenate([[E], float(tau) ** np.arange(self.s.shape[1])])

    def um(self, m, tau, l=None):
        """Azimuthal mode m of the diffuse intensity at one depth (NQ,)."""
        l = self.layer_of(tau) if l is None else l
        n = sum(1 for a, _ in self.sub if a == l)
        k = min(n - 1, int((tau - self.edges[l]) / self.h[l]))
        i = self.first[l] + k
        d = tau - self.sub[i][1]
        y = np.concatenate([self.U[m][i], self.aux[i]])
        return (sla.expm(self.A[m][l] * d) @ y)[: self.NQ]

    def u(self, taus, phis):
        """(NQ, ntau, nphi) uncorrected diffuse intensity."""
        taus, phis = np.atleast_1d(taus), np.atleast_1d(phis)
        um = np.array([[self.um(m, t) for t in taus] for m in range(self.NF)])  # m,t,i
        c = np.cos(np.arange(self.NF)[:, None] * (self.phi0 - phis)[None, :])
        return np.einsum("mti,mp->itp", um, c)

    def u0(self, taus):
        return np.array([self.um(0, t) for t in np.atleast_1d(taus)]).T

    # ---- fluxes -------------------------------------------------------------------------
    def fluxes(self, taus, u0=None):
        """up diffuse, down diffuse (after reclassification of the delta peak), direct."""
        taus = np.atleast_1d(taus)
        u0 = self.u0(taus) if u0 is None else u0
        up = 2 * pi * (self.w * self.x) @ u0[: self.N]
        dn = 2 * pi * (self.w * self.x) @ u0[self.N:]
        direct = np.zeros(len(taus))
        if self.I0 > 0:
            st = np.array([self.stau_at(t) for t in taus])
            direct = self.I0 * self.mu0 * np.exp(-taus / self.mu0)
            dn = dn + self.I0 * self.mu0 * np.exp(-st / self.mu0) - direct
        return up, dn, direct

    def actinic(self, taus, u0=None):
        taus = np.atleast_1d(taus)
        u0 = self.u0(taus) if u0 is None else u0
        up = 2 * pi * self.w @ u0[: self.N]
        dn = 2 * pi * self.w @ u0[self.N:]
        if self.I0 > 0:
            st = np.array([self.stau_at(t) for t in taus])
            dn = dn + self.I0 * np.exp(-st / self.mu0) - self.I0 * np.exp(-taus / self.mu0)
        return up, dn

    # ---- Nakajima-Tanaka corrections ------------------------------------------------------
    def nt_active(self):
        return self.I0 > 0 and self.Leg.shape[1] > self.NLeg and np.any(self.om * self.f > 0)

    def nt(self, taus, phis):
        """(NQ, ntau, nphi) TMS + IMS correction, layer by layer from the documented definition."""
        taus, phis = np.atleast_1d(taus).astype(float), np.atleast_1d(phis).astype(float)
        NQ, N, L = self.NQ, self.N, self.L
        out = np.zeros((NQ, len(taus), len(phis)))
        if not self.nt_active():
            return out
        # TMS: single scattering of (true - truncated) phase function in the scaled medium
        S = np.zeros((L, NQ, len(phis)))
        for l in range(L):
            res = self.Leg[l].copy()
            res[: self.NLeg] -= self.trunc_coeffs(l)
            if self.f[l] < 1:
                S[l] = self.om[l] / self.sig[l] * self.I0 / (4 * pi) * self.phase(res, self.mu, np.array([-self.mu0]), phis - self.phi0)[:, 0, :]
        for it, tau in enumerate(taus):
            l0 = self.layer_of(tau)
            t = self.stau_at(tau, l0)
            for i in range(N):
                m = self.x[i]
                # upward: integral over depths below
                for l in range(l0, L):
                    a, b = (t if l == l0 else self.stau[l]), self.stau[l + 1]
                    k = 1 / m + 1 / self.mu0
                    # int_a^b exp(-s/mu0 - (s-t)/m) ds / m
                    out[i, it] += S[l, i] * np.exp(-a / self.mu0 - (a - t) / m) * -np.expm1(-k * (b - a)) / (k * m)
                # downward: integral over depths above
                for l in range(0, l0 + 1):
                    a, b = self.stau[l], (t if l == l0 else self.stau[l + 1])
                    k = 1 / m - 1 / self.mu0
                    # int_a^b exp(-s/mu0 - (t-s)/m) ds / m
                    if k > 0:
                        v = np.exp(-b / self.mu0 - (t - b) / m) * -np.expm1(-k * (b - a)) / (k * m)
                    else:
                        v = np.exp(-a / self.mu0 - (t - a) / m) * np.expm1(k * (b - a)) / (k * m)
                    out[N + i, it] += S[l, N + i] * v
        # IMS: downward only, layer-averaged optical properties (weights: layer optical thickness)
        dt = np.diff(self.edges)
        wbar = (self.om * dt).sum() / dt.sum()
        fbar = (self.f * self.om * dt).sum() / (self.om * dt).sum()
        gr = self.Leg.copy()
        gr[:, : self.NLeg] = self.f[:, None]
        gbar = (gr * (self.om * dt)[:, None]).sum(0) / (self.f * self.om * dt).sum()
        m0 = self.mu0 / (1 - wbar * fbar)
        ph = self.phase(2 * gbar - gbar**2, -self.x, np.array([-self.mu0]), phis - self.phi0)[:, 0, :]
        for i in range(N):
            # light scattered once within the peak (source t exp(-t/m0)) and attenuated on its way
            chi = np.array([(lambda t, h: h @ (t * np.exp(-t / m0 - (T - t) / self.x[i])))(*quad.panels(0.0, T, 5 * min(m0, self.x[i]))) for T in taus]) / (self.x[i] * m0)
            out[N + i] += self.I0 / (4 * pi) * (wbar * fbar) ** 2 / (1 - wbar * fbar) * ph[i][None, :] * chi[:, None]
        return out
