import numpy as np
from .. import api, core, space

RULE = ("Every configuration within k deviations (quick k=2, and k=3 from one base over the dimensions that select code paths; thorough k=3) of six base problems over 17 dimensions (layers 1..12, streams 2..16, and a few cases up to 40 layers, 32 streams; moments, modes, "
        "optical-depth, albedo and phase-function profiles, beam, boundary sources, delta-M, surface, internal source, solver threshold); for each, the real solver's "
        "u, u0, Fp, Fm at both ends, interfaces and interior depths and three azimuths must equal the reference model (multiple shooting in the unscaled equation), "
        "rtol 1e-6 per depth. A case is non-trivial if its outputs differ from those of other cases (distinct outcome digests).") + space.SWEEP_RULE
BOUNDS = {"quick": {"deviations": 2}, "thorough": {"deviations": 3}}
BASES = ["simple", "all", "thermal", "solar", "layers"]


def cases(tier):
    return [dict(space.BASES["simple"], finding=1)] + _cases(tier) + _many(tier)


def _many(tier):
    """very many streams and azimuthal modes: a thin layer, whose scattered light is known in closed form"""
    return [dict(many=n, g=g, NF=f, mu0=m) for n in ((64, 100, 128) if tier == "quick" else (48, 64, 80, 100, 128, 144, 160, 180, 200, 220)) for g in (0.98, 0.9) for f in (n, n - 7) for m in (0.6, 0.17, 1.0)]


def _run_many(c, x):
    n, g, tau, om = c["many"], c["g"], 1e-6, 0.9
    leg, nf, phi = g ** np.arange(n), c["NF"], np.array([0.0, 0.3, 2.0, np.pi])
    x.state(sorted(c.items()))
    mu, Fp, Fm, u0, u = x.call(core.impl()[0].pydisort, tau, om, n, leg, c["mu0"], 2.0, 0.4, NFourier=nf)
    got = u(tau * np.array([0, 0.3, 1.0]), phi)
    # azimuthal modes of the phase function by a discrete Fourier transform (exact: it has n modes)
    az = 2 * np.pi * np.arange(2 * n + 1) / (2 * n + 1)
    nu = -mu[:, None] * c["mu0"] + np.sqrt(1 - mu[:, None]**2) * np.sqrt(1 - c["mu0"]**2) * np.cos(az)
    modes = np.fft.rfft(np.polynomial.legendre.legval(nu, (2 * np.arange(n) + 1) * leg), axis=1).real / len(az)
    k = np.arange(nf)
    P = (modes[:, :nf] * np.where(k == 0, 1, 2)) @ np.cos(np.multiply.outer(k, 0.4 - phi))
    want = np.empty((n, 3, len(phi)))
    for i, f in enumerate((0, 0.3, 1.0)):
        path = np.where(mu > 0, 1 - f, f) * tau / np.abs(mu)
        want[:, i] = om * 2.0 / (4 * np.pi) * P * path[:, None]
    # second order: multiple scattering and attenuation, of relative size tau / mu
    x.true("many streams: u is finite", np.isfinite(got).all())
    sel = np.abs(mu) > 0.02
    err = np.abs(got - want)[sel].max(axis=0) / np.abs(want)[sel].max()
    x.true("many streams: u equals single scattering in a thin layer (error %.1g of its maximum)" % err.max(), (err < 2e-4).all())
    x.traces += 1
    x.outcome(got)


DEEP = ["L", "NLeg", "NF", "om", "leg", "bp", "bn", "f", "bdrf", "s", "band", "I0"]


def _deep():
    """three deviations over the dimensions that select code paths"""
    return list(space.enumerate_configs(["all"], 3, dims=DEEP, fixed={"NT": False}, drop={
        "L": [12], "om": ["zero_top", "zero_bot", "weak"], "leg": ["hg", "odd"], "bdrf": ["cached", "cached_mu0", "white", "funcs3", "scalars2"], "s": ["quart", "zero0"], "I0": [1e-3, 3e4]}))


def _wide():
    """many streams, many layers"""
    return [dict(space.BASES[b], NT=False, NQ=n, L=l, **o) for n, l in ((24, 1), (32, 2), (4, 40), (6, 25)) for b in ("simple", "all") for o in ({}, {"leg": "mixed", "f": "none"}, {"s": "linear", "om": "zero_mid"}, {"band": 3, "I0": 0.0, "bp": "matrix"})]


def _cases(tier):
    if tier == "quick":
        return list(space.enumerate_configs(BASES, 2, fixed={"NT": False}, drop={"NQ": [16, 6], "phi0": [5.9]})) + \
            list(space.enumerate_configs(["simple", "all"], 1, fixed={"NT": False, "NQ": 16})) + _deep() + _wide() + list(space.sweeps(BASES, fixed={'NT': False}, resonant=True))
    return list(space.enumerate_configs(BASES, 2, fixed={"NT": False})) + list(space.enumerate_configs(["simple", "all", "thermal"], 3, fixed={"NT": False}, drop={"NQ": [16, 6, 8], "L": [12]})) + _deep() + _wide() + list(space.sweeps(BASES, fixed={'NT': False}, resonant=True))


FINDING = "complex-eigenvalues NQuad=4 NLeg=4 omega=0.95 Henyey-Greenstein g=0.9 without delta-M: imaginary part of the complex conjugate eigenvalues of mode 1 is discarded, singular matrix or wrong intensity"


def finding_key(c, msg):
    """The one listed finding: this case, and only its symptoms (wrong or non-finite intensity, or a singular matrix)."""
    return FINDING if c.get("finding") and msg.startswith(("u: ", "u, ", "raised LinAlgError")) else None


def run(c, x):
    if "many" in c:
        return _run_many(c, x)
    c = dict(c)
    special = c.pop("finding", None)
    p = space.resolve(c)
    if special:
        p["Leg"] = 0.9 ** np.arange(4)[None, :]
        p["omega_arr"] = np.array([0.95])
    sol = api.solve(x, c, p)
    t = space.depths(p)
    ref = api.reference(p)
    x.state(sorted(c.items()))
    x.close("mu nodes", sol.mu, ref.mu, 1e-10)
    u0 = ref.u0(t)
    up, dn, direct = ref.fluxes(t, u0)
    want = dict(up=up, down=dn, direct=direct, u0=u0, u=ref.u(t, space.PHIS))
    got = sol.all(t)
    api.compare(x, got, want)
    x.traces += 1
    x.outcome(got["u"], got["up"])
