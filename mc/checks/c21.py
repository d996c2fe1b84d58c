import itertools
import math
import numpy as np
import scipy.linalg
from .. import core

RULE = ("Every helper x every argument size up to the bound x a small value alphabet, against elementwise definitions: prepend (lengths 0..6 x values); transform_interval/transform_weights (lengths 1..4 x 6x6 interval pairs incl. reversed; endpoints map to endpoints, composition inverts); calculate_nu (all "
        "lengths 1..3 of the four arguments, all direction pairs of a 6 x 5 alphabet incl. poles; squeezed axes; unit-vector dot product); atleast_2d_append (0..3 dimensions x 1..3 arguments, lists, memory shared); linear_spline_coefficients (2..6 points x all permutations of values: value at both ends of every segment); "
        "affine_transform_poly_coeffs (1..3 rows x 1..6 coefficients x scales {1,-1,2,0.5,-3} x shifts {0,1,-2,0.25}: p(x) = q(ax+b) at 7 points); to_diag_ordered_form (every matrix size 1..6 (thorough 9) x every upper/lower bandwidth: ab[u+i-j,j] = A[i,j] for every band entry, "
        "solve_banded = dense solve, int and float and Fortran-ordered input).")
BOUNDS = {"quick": {"matrix": 7, "poly": 6}, "thorough": {"matrix": 14, "poly": 9}}
IV = [(0.0, 1.0), (-1.0, 1.0), (0, 2 * math.pi), (-3.0, -1.0), (5.0, 2.0), (1, 4)]
MU = [-1.0, -0.6, 0.0, 0.3, 0.8, 1.0]
PH = [0.0, 0.7, math.pi, 5.0, -1.0]


def cases(tier):
    q = tier == "quick"
    cs = [dict(h="prepend", n=n, v=v) for n in range(0, 7) for v in (0, 1.5, -2.25)]
    cs += [dict(h="interval", n=n, cd=i, ab=j) for n in range(1, 5) for i in range(len(IV)) for j in range(len(IV))]
    cs += [dict(h="nu", shape=s) for s in itertools.product((0, 1, 2, 3), repeat=4)]
    cs += [dict(h="nu_values", mu=a, mup=b) for a in MU for b in MU]
    cs += [dict(h="atleast", kinds=k) for n in (1, 2, 3) for k in itertools.product(("py", "0d", "1", "n", "1xn", "nx1", "nxm", "3d", "list", "list2"), repeat=n) if n < 3 or len(set(k)) == 3]
    cs += [dict(h="spline", y=y, grid=g) for n in (2, 3, 4, 5) for y in itertools.permutations((0.0, 1.0, -2.0, 3.5, 1.0)[:n]) for g in ("unit", "uneven", "neg")]
    cs += [dict(h="affine", rows=r, n=n, a=a, b=b) for r in (1, 2, 3) for n in range(1, (7 if q else 10)) for a in range(5) for b in range(5)]
    m = BOUNDS[tier]["matrix"]
    cs += [dict(h="diag", n=n, u=u, l=l) for n in range(1, m + 1) for u in range(n) for l in range(n)]
    return cs


def run(c, x):
    PD, S = core.impl()
    h = c["h"]
    x.state(*[str(v) for v in c.values()])
    x.traces += 1
    if h == "prepend":
        n, v = c["n"], c["v"]
        for arr in (np.arange(n) + 0.5, np.arange(n), -np.ones(n)):
            keep = arr.copy()
            r = x.call(S.prepend, arr, n, v)
            x.true("length", np.shape(r) == (n + 1,))
            x.true(f"values {r}", r[0] == v and list(r[1:]) == list(arr))
            x.true("argument untouched", np.array_equal(arr, keep))
        x.outcome(r)
    elif h == "interval":
        (cc, d), (a, b) = IV[c["cd"]], IV[c["ab"]]
        n = c["n"]
        arr = np.linspace(a, b, n + 1)[:n] if n > 1 else np.array([a])
        r = x.call(S.transform_interval, arr, cc, d, a, b)
        want = np.array([cc + (d - cc) * ((v - a) / (b - a)) for v in arr])
        x.close("transformed points", r, want, 1e-12, floor=1.0)
        x.close("end points", x.call(S.transform_interval, np.array([a, b]), cc, d, a, b), np.array([cc, d], float), 1e-12, floor=1.0)
        x.close("and back", x.call(S.transform_interval, r, a, b, cc, d), np.asarray(arr, float), 1e-12, floor=1.0)
        w = 0.25 * (1 + np.arange(n))
        keep = w.copy()
        r2 = x.call(S.transform_weights, w, cc, d, a, b)
        x.close("transformed weights", r2, np.array([v * (d - cc) / (b - a) for v in keep]), 1e-12)
        x.close("weights back", x.call(S.transform_weights, r2, a, b, cc, d), keep, 1e-12)
        x.true("argument untouched", np.array_equal(w, keep))
        x.outcome(r, r2)
    elif h in ("nu", "nu_values"):
        def nu(m, p, mp, pp):
            v = lambda mu, ph: np.array([math.sqrt(max(0, 1 - mu * mu)) * math.cos(ph), math.sqrt(max(0, 1 - mu * mu)) * math.sin(ph), mu])
            return float(v(m, p) @ v(mp, pp))
        if h == "nu":
            al = [[0.3, -0.6, 0.9], [0.7, 5.0, -1.0], [-0.2, 1.0, 0.5], [1.1, 0.0, 3.0]]
            args, full = [], []
            for k, n in enumerate(c["shape"]):  # 0: python scalar
                args.append(al[k][0] if n == 0 else np.array(al[k][:n]))
                full.append(al[k][:max(n, 1)])
        else:
            args = [c["mu"], np.array(PH), c["mup"], np.array(PH)]
            full = [[c["mu"]], PH, [c["mup"]], PH]
        r = x.call(S.calculate_nu, *args)
        want = np.squeeze(np.array([[[[nu(a, b, cc, d) for d in full[3]] for cc in full[2]] for b in full[1]] for a in full[0]]))
        x.close("cosine of the scattering angle", r, want, 1e-12, floor=1.0)
        x.outcome(r)
    elif h == "atleast":
        mk = {"py": lambda: 2.5, "0d": lambda: np.array(3.0), "1": lambda: np.array([4.0]), "n": lambda: np.arange(3.0), "1xn": lambda: np.arange(3.0)[None, :], "nx1": lambda: np.arange(3.0)[:, None],
              "nxm": lambda: np.arange(6.0).reshape(2, 3), "3d": lambda: np.arange(8.0).reshape(2, 2, 2), "list": lambda: [1, 2, 3], "list2": lambda: [[1, 2], [3, 4]]}
        shp = {"py": (1, 1), "0d": (1, 1), "1": (1, 1), "n": (3, 1), "1xn": (1, 3), "nx1": (3, 1), "nxm": (2, 3), "3d": (2, 2, 2), "list": (3, 1), "list2": (2, 2)}
        args = [mk[k]() for k in c["kinds"]]
        r = x.call(S.atleast_2d_append, *args)
        if len(args) == 1:
            x.true("one argument gives an array", isinstance(r, np.ndarray))
            r = [r]
        else:
            x.true("several arguments give a sequence of arrays", isinstance(r, (list, tuple)) and len(r) == len(args))
        for k, a, o in zip(c["kinds"], args, r):
            x.true(f"shape {np.shape(o)} for {k}", np.shape(o) == shp[k])
            x.true("values in order", np.array_equal(np.ravel(o), np.ravel(np.asarray(a))))
            if isinstance(a, np.ndarray):
                x.true("a view, not a copy", np.shares_memory(a, o))
        x.outcome([np.shape(o) for o in r])
    elif h == "spline":
        y = np.array(c["y"])
        n = len(y)
        xs = {"unit": np.arange(n, dtype=float), "uneven": np.cumsum(0.3 + np.arange(n) ** 2.0), "neg": np.linspace(-2, 1.5, n)}[c["grid"]]
        r = x.call(S.linear_spline_coefficients, xs, y)
        x.true(f"axes (segment, order): {np.shape(r)}", np.shape(r) == (n - 1, 2))
        for i in range(n - 1):
            for t in (0.0, 0.3, 1.0):
                p = xs[i] + t * (xs[i + 1] - xs[i])
                x.close(f"segment {i}", r[i][0] + r[i][1] * p, y[i] + t * (y[i + 1] - y[i]), 1e-11, floor=10.0)
        x.close("without input checks", x.call(S.linear_spline_coefficients, xs, y, False), r, 1e-14)
        x.outcome(r)
    elif h == "affine":
        R, n = c["rows"], c["n"]
        A, B = [1.0, -1.0, 2.0, 0.5, -3.0], [0.0, 1.0, -2.0, 0.25, 1e-3]
        co = np.array([[(-1) ** (i + j) * (1 + 0.5 * i + 0.25 * j) for j in range(n)] for i in range(R)])
        if R > 1:
            co[1, -1] = 0.0
        a = np.array([A[(c["a"] + i) % 5] for i in range(R)])
        b = np.array([B[(c["b"] + 2 * i) % 5] for i in range(R)])
        keep = (co.copy(), a.copy(), b.copy())
        r = x.call(S.affine_transform_poly_coeffs, co, a, b)
        x.true(f"shape {np.shape(r)}", np.shape(r) == (R, n))
        for i in range(R):
            for v in (-1.5, -0.4, 0.0, 0.2, 1.0, 1.7, 2.5):
                p = math.fsum(co[i, j] * v**j for j in range(n))
                yv = a[i] * v + b[i]
                terms = [r[i, j] * yv**j for j in range(n)]
                x.close(f"row {i}: same polynomial", math.fsum(terms), p, 1e-10, scale=max(1.0, max(abs(t) for t in terms)))
        x.true("arguments untouched", all(np.array_equal(p, q) for p, q in zip(keep, (co, a, b))))
        x.outcome(r)
    elif h == "diag":
        n, u, l = c["n"], c["u"], c["l"]
        A = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                if -u <= i - j <= l:
                    A[i, j] = 1 + 10 * i + j if i != j else 200 + i
        for V in (A, A.astype(int), np.asfortranarray(A)):
            ab = x.call(S.to_diag_ordered_form, V, u, l)
            x.true(f"shape {np.shape(ab)}", np.shape(ab) == (u + l + 1, n))
            for i in range(n):
                for j in range(n):
                    if -u <= i - j <= l:
                        x.true(f"entry {i},{j}: {ab[u + i - j, j]} instead of {V[i, j]}", ab[u + i - j, j] == V[i, j])
        rhs = 1.0 + np.arange(n)
        x.close("banded solve", scipy.linalg.solve_banded((l, u), np.asarray(ab, float), rhs), np.linalg.solve(A, rhs), 1e-10)
        x.outcome(ab)
