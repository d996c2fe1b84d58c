import numpy as np
from .. import core

RULE = ("Every number of nodes (Gauss-Legendre 1..100, thorough 1..200; Clenshaw-Curtis odd 3..257, thorough 3..1025; finite differences 3..60 grid points, thorough 3..300) x intervals {default, [0,1], [-1,1], [0,2pi], [-3,-1], [1e-3,1e3], [5,2] reversed for the rules}: nodes inside and ordered, "
        "positive weights summing to the length, exact integration of every Legendre polynomial of the interval up to the rule's degree (1e-11), exact differentiation of 1, x, x^2 at every point; arguments as floats where documented.")
BOUNDS = {"quick": {"GL": 100, "CC": 257, "FD": 60}, "thorough": {"GL": 200, "CC": 1025, "FD": 300}}
INT = [None, (0, 1), (-1, 1), (0, 2 * np.pi), (-3.0, -1.0), (1e-3, 1e3), (5, 2)]


def cases(tier):
    b = BOUNDS[tier]
    return ([dict(rule="GL", n=n, i=i) for n in range(1, b["GL"] + 1) for i in range(len(INT))] + [dict(rule="CC", n=n, i=i) for n in range(3, b["CC"] + 1, 2) for i in range(len(INT))]
            + [dict(rule="FD", n=n, i=i) for n in range(3, b["FD"] + 1) for i in range(1, len(INT) - 1)])


def run(case, x):
    PD, S = core.impl()
    n, iv = case["n"], INT[case["i"]]
    x.state(*case.values())
    x.traces += 1
    if case["rule"] == "FD":
        a, b = iv
        g, D = x.call(S.generate_FD_mat, n, a, b)
        D = D.toarray()
        x.true("shapes", g.shape == (n,) and D.shape == (n, n))
        x.close("grid", g, np.linspace(a, b, n), 1e-12)
        s = (g - a) / (b - a)
        for k, d in ((0, 0 * s), (1, 1 + 0 * s), (2, 2 * s)):
            x.close(f"derivative of s^{k}", D @ s**k * (b - a), d, 1e-9 * n, floor=1.0)
        if n > 4:  # central differences are second order only: interior rows are symmetric in a cubic
            x.close("central rows use the two neighbours", np.diag(D, 1)[1:] * (g[1] - g[0]), np.full(n - 2, 0.5), 1e-8)
        return x.outcome(D[:3])
    f = S.Gauss_Legendre_quad if case["rule"] == "GL" else S.Clenshaw_Curtis_quad
    a, b = iv if iv is not None else ((0, 1) if case["rule"] == "GL" else (0, 2 * np.pi))
    p, w = x.call(f, n) if iv is None else x.call(f, n, a, b)
    if case["rule"] == "GL":
        p2, w2 = x.call(f, float(n), a, b)
        x.close("float number of nodes", p2, p, 1e-14)
    x.true(f"{n} nodes and weights: {p.shape}, {w.shape}", p.shape == (n,) and w.shape == (n,))
    lo, hi, ln = min(a, b), max(a, b), abs(b - a)
    x.true("nodes inside the interval", np.all(p >= lo - 1e-12 * ln) and np.all(p <= hi + 1e-12 * ln))
    x.true("nodes ordered from start to end", np.all(np.diff(p) * (b - a) > 0))
    x.true("weights of the sign of the interval", np.all(w * (b - a) > 0))
    x.close("sum of the weights", np.sum(w), b - a, 1e-12)
    deg = 2 * n - 1 if case["rule"] == "GL" else n
    s = (2 * p - a - b) / (b - a)
    V = np.polynomial.legendre.legvander(np.clip(s, -1, 1), deg)
    got = w @ V / (b - a)
    want = np.zeros(deg + 1)
    want[0] = 1
    x.close(f"integrals of Legendre polynomials up to degree {deg}", got, want, 1e-11, floor=1.0)
    x.close("mirror symmetric nodes", p + p[::-1], np.full(n, float(a + b)), 1e-11, floor=ln)
    if case["rule"] == "CC":
        x.close("end points are nodes", p[[0, -1]], np.array([a, b], float), 1e-12, floor=ln)
    x.outcome(p[:4], w[:4])
