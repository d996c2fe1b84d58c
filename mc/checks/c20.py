import itertools
import numpy as np
from .. import api, core, space

RULE = ("(a) every list of up to 3 (thorough 4) reflectance modes over {0.15, 0.0, f0, f1, f2} x streams {2,4,6} (thorough +8,16) x modes solved {one, all} x beam {none, 0.6, on the first node, on the last node, 1.0} x cache {without beam angle, with}: three solves in sequence with one "
        "cache (full, then with another atmosphere, then flux-only) equal the uncached solves (1e-9); during the solves the original functions are never called when the beam angle is cached (or there is no beam), and without it only for the beam; "
        "the originals receive only node and beam arguments; (b) caches made from caches, two caches for different stream numbers alive together; (c) emissivity for N = 1..12 (thorough 1..32) x {scalars, functions asymmetric in the directions, cached functions} = 1 - 2 sum_j R(mu_i, mu_j) mu_j w_j (1e-12).")
BOUNDS = {"quick": {"modes": 3, "streams": 6, "emissivity N": 12}, "thorough": {"modes": 4, "streams": 16, "emissivity N": 32}}
ALPH = [0.15, 0.0, "f0", "f1", "f2"]


def cases(tier):
    cs = []
    q = tier == "quick"
    kinds = ["scalar", "zero", "int", "f0", "f1", "f2", "cached", "cached_mu0"]
    for N in range(1, (13 if q else 33)):
        cs += [dict(kind="emis", N=N, mode=k) for k in kinds]
    for n in range(1, 4 if q else 5):
        for ms in itertools.product(ALPH, repeat=n):
            if n == 3 and q and ms.count(0.0) + ms.count(0.15) > 2:
                continue
            for NQ in (2, 4, 6) if q else (2, 4, 6, 8, 16):
                for NF in ("one", "all"):
                    for beam in ("none", 0.6, "first", "last", 1.0):
                        if n == 3 and (NF == "one" or beam in ("last",)) and q:
                            continue
                        if n == 4 and (NF == "one" or NQ == 16):
                            continue
                        for cm in (False, True):
                            cs.append(dict(kind="cache", modes=list(ms), NQ=NQ, NF=NF, beam=beam, cm=cm))
    for ms in itertools.product(ALPH, repeat=2):
        for cm in (False, True):
            cs.append(dict(kind="two", modes=list(ms), cm=cm))
    return cs


class Counter:
    def __init__(self, f):
        self.f, self.calls = f, []

    def __call__(self, mu, mup):
        self.calls.append((np.array(mu), np.array(mup)))
        return self.f(mu, mup)


def build(ms):
    return [m if np.isscalar(m) and not isinstance(m, str) else Counter(space.bdrf_f(int(m[1]))) for m in ms]


def nodes(N):
    x, w = np.polynomial.legendre.leggauss(N)
    return (x + 1) / 2, w / 2


def problem(NQ, NF, I0, mu0, which):
    L = 2 if which == 0 else 3
    tau = np.cumsum([0.4, 0.9, 0.3][:L])
    om = np.array([0.9, 0.6, 0.8] if which == 0 else [0.3, 0.0, 0.7])[:L]
    leg = np.array([0.6, 0.2, 0.5])[:L, None] ** np.arange(NQ)[None, :]
    return dict(tau_arr=tau, omega_arr=om, NQuad=NQ, Leg_coeffs_all=leg, mu0=mu0, I0=I0, phi0=0.7, NFourier=NF, b_pos=0.2, b_neg=0.5 if which else 0.0)


def solve3(x, base, modes):
    out = []
    for which, fl in ((0, False), (1, False), (0, True)):
        k = problem(*base, which)
        k["BDRF_Fourier_modes"] = modes
        if fl:
            k["only_flux"] = True
        s = api.solve_kw(x, k)
        t = np.array([0.0, 0.2, 0.4, 1.1, float(k["tau_arr"][-1])])
        out.append(s.all(t))
    return out


def compare3(x, a, b, what):
    for i, (p, q) in enumerate(zip(a, b)):
        api.compare(x, p, q, 1e-9, f"{what}, solve {i}: ")


def run(c, x):
    PD, S = core.impl()
    x.state(*[str(v) for v in c.values()])
    x.traces += 1
    if c["kind"] == "emis":
        N, m = c["N"], c["mode"]
        mu, w = nodes(N)
        if m in ("scalar", "zero", "int"):
            v = {"scalar": 0.3, "zero": 0.0, "int": 1}[m]
            e = x.call(S.generate_emissivity_from_BDRF, N, v)
            x.close("emissivity of a constant", np.broadcast_to(e, (N,)), np.full(N, 1 - float(v)), 1e-12, floor=1.0)
            if v:  # a constant function is the same surface
                e = x.call(S.generate_emissivity_from_BDRF, N, lambda a, b: np.full((len(a), len(b)), float(v)))
                x.close("emissivity of a constant function", e, np.full(N, 1 - float(v)), 1e-12, floor=1.0)
            return x.outcome(e)
        f = space.bdrf_f(int(m[1])) if m[0] == "f" else space.bdrf_f(0)
        g = f
        if m == "cached":
            g = x.call(S.cache_BDRF_Fourier_modes, N, [f])[0]
        elif m == "cached_mu0":
            g = x.call(S.cache_BDRF_Fourier_modes, N, [f], 0.37)[0]
        want = np.array([1 - 2 * sum(f(mu[i:i + 1], mu[j:j + 1])[0, 0] * mu[j] * w[j] for j in range(N)) for i in range(N)])
        e = x.call(S.generate_emissivity_from_BDRF, N, g)
        x.close("emissivity", e, want, 1e-12, floor=1.0)
        x.close("emissivity again", x.call(S.generate_emissivity_from_BDRF, N, g), want, 1e-12, floor=1.0)
        return x.outcome(e)
    if c["kind"] == "two":
        # caches for several stream numbers made from the same originals, used alternately, and a cache of a cache
        orig = build(c["modes"])
        mu0 = 0.6
        a = (mu0,) if c["cm"] else ()
        ca = {NQ: x.call(S.cache_BDRF_Fourier_modes, NQ // 2, orig, *a) for NQ in (2, 4, 6)}
        for NQ in (4, 2, 6, 4):
            base = (NQ, min(2, NQ), 1.5, mu0)
            compare3(x, solve3(x, base, ca[NQ]), solve3(x, base, build(c["modes"])), f"{NQ} streams")
        base = (4, 2, 1.5, mu0)
        if not c["cm"]:
            cc = x.call(S.cache_BDRF_Fourier_modes, 2, ca[4])
            compare3(x, solve3(x, base, cc), solve3(x, base, build(c["modes"])), "cache of a cache")
        orig.clear()  # the cache does not depend on the caller's list afterwards
        if c["cm"]:
            compare3(x, solve3(x, base, ca[4]), solve3(x, base, build(c["modes"])), "original list emptied")
        return
    NQ, N = c["NQ"], c["NQ"] // 2
    mu, w = nodes(N)
    I0 = 0.0 if c["beam"] == "none" else 1.5
    mu0 = {"none": 0.6, "first": float(mu[0]), "last": float(mu[-1])}.get(c["beam"], c["beam"])
    NF = 1 if c["NF"] == "one" else NQ
    orig = build(c["modes"])
    fs = [m for m in orig if isinstance(m, Counter)]
    cached = x.call(S.cache_BDRF_Fourier_modes, N, orig, *((mu0,) if c["cm"] else ()))
    x.true(f"as many cached modes as modes: {len(cached)} for {len(orig)}", len(cached) == len(orig))
    before = [len(f.calls) for f in fs]
    got = solve3(x, (NQ, NF, I0, mu0), cached)
    after = [len(f.calls) for f in fs]
    if c["cm"] or I0 == 0:
        x.true(f"original functions called again during solves with the cache: {before} -> {after}", before == after)
    for f in fs:
        for a, b in f.calls:
            x.true("originals are called with the quadrature directions", np.allclose(np.ravel(a), mu))
            x.true("originals are called with quadrature or beam directions", np.all(np.min(np.abs(np.ravel(b)[:, None] - np.append(mu, mu0)), axis=1) < 1e-12))
        for a, b in f.calls[before[fs.index(f)]:]:
            x.true("without the beam angle, only the beam is evaluated again", np.allclose(np.ravel(b), mu0))
    want = solve3(x, (NQ, NF, I0, mu0), build(c["modes"]))
    compare3(x, got, want, "cached")
    x.outcome(got[0]["up"], got[0]["u0"])
