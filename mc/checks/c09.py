"""Systematic exploration of thread schedules of the real code under a preemption bound."""
import numpy as np
from .. import core, sched
from . import c08

RULE = ("Two threads, each one call sequence on shared objects (fresh for every schedule); every schedule that switches before a statement of the package's source with at most P preemptions, for both starting threads. Quick: P=1 everywhere at the "
        "first (evaluations: first two; two whole solves: all) executions of each statement, plus P=2 on a diagonal grid of second points (every point for helpers); thorough: every execution of every statement, P=2 (solves: every 40th second point), and every "
        "bytecode instruction (first execution) with P=1. In every schedule both threads must return what they return alone (1e-10), and finish; after every schedule with one switch point both calls of an evaluation or helper scenario are repeated sequentially, in both orders, and must return the same again.")
BOUNDS = {"quick": {"preemptions": "1 all statements, 2 on a grid", "granularity": "statement"}, "thorough": {"preemptions": "2 (solves: 1, and 2 on a grid)", "granularity": "statement; bytecode with 1 preemption"}}
ASSUMPTIONS = ["two threads", "switches happen at statement (thorough: bytecode) boundaries of the package's own files; NumPy and SciPy calls are atomic"]
T1, T2 = np.array([0.1, 0.7]), np.array([1.1, 0.3, 0.5])
P1, P2 = np.array([0.3]), np.array([2.0, 0.1])


def sol(**over):
    PD, S = core.impl()
    k = c08.base()
    k.update(over)
    return PD.pydisort(**k)


def A(r):
    return [np.array(v) for v in (r if isinstance(r, (tuple, list)) else (r,))]


def _eval(f1, f2, **over):
    def make():
        o = sol(**over)
        return (lambda: A(f1(o))), (lambda: A(f2(o)))
    return make


def s_interp(which, pre=False):
    def make():
        PD, S = core.impl()
        o = sol()
        f = S.interpolate(o[4 if which == "u" else 3])
        m1, m2 = np.array([0.3, -0.8]), np.array([-0.1, 0.9, 0.5])
        if which == "u":
            return (lambda: A(f(m1, T1, P1))), (lambda: A(f(m2, T2, P2)))
        return (lambda: A(f(m1, T1))), (lambda: A(f(m2, T2)))
    return make


def s_same(get, *args):
    """both threads call one shared function with arguments of the same shapes but different values"""
    def make():
        f = get(sol(), core.impl()[1])
        one = lambda w: (lambda: A(f(*[np.array(a[w]) for a in args])))
        return one(0), one(1)
    return make


TT = ([0.1, 0.7, 0.55], [1.1, 0.3, 0.02])
PP = ([0.3, 1.0], [2.0, 0.1])
MM = ([0.3, -0.8], [-0.1, 0.9])


def s_act():
    PD, S = core.impl()
    o = sol()
    up, dn = S.generate_diff_act_flux_funcs(o[3])
    return (lambda: A(dn(T1)) + A(up(T1))), (lambda: A(dn(T2, True)) + A(up(T2)))


def s_make():
    """two threads build helper functions from one solution"""
    PD, S = core.impl()
    o = sol()
    return (lambda: A(S.interpolate(o[4])(0.4, T1, P1))), (lambda: A(S.generate_diff_act_flux_funcs(o[3])[1](T2)))


def full(o, t, ph):
    r = A(o[0]) + A(o[1](t)) + A(o[2](t)) + A(o[3](t))
    return r + (A(o[4](t, ph)) if len(o) > 4 else [])


def _solve(k1, k2, shared=None):
    def make():
        PD, S = core.impl()
        a, b = c08.variation(k1), c08.variation(k2)
        if shared == "cache":
            m = S.cache_BDRF_Fourier_modes(2, [c08.f0, 0.05], 0.6)
            a["BDRF_Fourier_modes"] = b["BDRF_Fourier_modes"] = m
        elif shared == "args":
            b = {**a, "I0": 3.0}
        return (lambda: full(PD.pydisort(**a), T1, P1)), (lambda: full(PD.pydisort(**b), T2, P2))
    return make


def s_solve_eval():
    PD, S = core.impl()
    o = sol()
    return (lambda: full(PD.pydisort(**c08.variation("layers3")), T1, P1)), (lambda: full(o, T2, P2))


def s_helpers(a, b):
    def make():
        PD, S = core.impl()
        f, *x = c08.HELPERS[a]
        g, *y = c08.HELPERS[b]
        un = lambda r: [np.array(v.toarray() if hasattr(v, "toarray") else v) for v in (r if isinstance(r, (tuple, list)) else (r,))]
        return (lambda: un(getattr(S, f)(*x))), (lambda: un(getattr(S, g)(*y)))
    return make


def s_cache():
    PD, S = core.impl()
    x = S.Gauss_Legendre_quad(2)[0]
    def t(modes, mu0):
        c = S.cache_BDRF_Fourier_modes(2, modes, mu0)
        return [np.array(g(x, x)) for g in c] + [np.array(g(x, np.array([mu0]))) for g in c]
    return (lambda: t([c08.f0, 0.05], 0.6)), (lambda: t([c08.f1, c08.f0], 0.8))


EVAL = {
    "u|u": _eval(lambda o: o[4](T1, P1), lambda o: o[4](T2, P2), NT_cor=False),
    "u|u anti": _eval(lambda o: o[4](T1, P1), lambda o: o[4](T2, P2, True, True, True), NT_cor=False),
    "u|u same": _eval(lambda o: o[4](T1, P1), lambda o: o[4](T1 * 0.5, P1), NT_cor=False),
    "u0|u0": _eval(lambda o: o[3](T1), lambda o: o[3](T2, True)),
    "u0|u": _eval(lambda o: o[3](T1), lambda o: o[4](T2, P2), NT_cor=False),
    "up|up": _eval(lambda o: o[1](T1), lambda o: o[1](T2, True)),
    "down|down": _eval(lambda o: o[2](T1), lambda o: o[2](T2, True)),
    "up|down": _eval(lambda o: o[1](T1), lambda o: o[2](T2)),
    "down|u0": _eval(lambda o: o[2](T1), lambda o: o[3](T2)),
    "up|u nobeam": _eval(lambda o: o[1](T1), lambda o: o[4](T2, P2), I0=0.0),
    "ip|ip": s_interp("u"), "ip0|ip0": s_interp("u0"), "act|act": s_act, "make|make": s_make,
}
SAME = {
    "up same": s_same(lambda o, S: o[1], TT), "down same": s_same(lambda o, S: o[2], TT), "u0 same": s_same(lambda o, S: o[3], TT), "nt same": s_same(lambda o, S: o[4], TT, PP),
    "ip same": s_same(lambda o, S: S.interpolate(o[4]), MM, TT, PP), "ip0 same": s_same(lambda o, S: S.interpolate(o[3]), MM, TT),
    "actup same": s_same(lambda o, S: S.generate_diff_act_flux_funcs(o[3])[0], TT), "actdn same": s_same(lambda o, S: S.generate_diff_act_flux_funcs(o[3])[1], TT),
    "up|down same": _eval(lambda o: o[1](np.array(TT[0])), lambda o: o[2](np.array(TT[1]))), "u0|up same": _eval(lambda o: o[3](np.array(TT[0])), lambda o: o[1](np.array(TT[1]))),
}
CORRECTED = {
    "nt|nt": _eval(lambda o: o[4](T1, P1), lambda o: o[4](T2, P2)),
    "nt|nt anti": _eval(lambda o: o[4](T1, P1, True), lambda o: o[4](T2, P2, False, True)),
    "nt|u0": _eval(lambda o: o[4](T1, P1), lambda o: o[3](T2), s_poly_coeffs=np.array([[]])),
    "autograd u|up": _eval(lambda o: o[4](T1, P1), lambda o: o[1](T2), autograd_compatible=True),
}
SOLVE = {
    "solve base|omega": _solve("base", "omega_arr"), "solve base|layers3": _solve("base", "layers3"), "solve base|NQuad": _solve("base", "NQuad"), "solve base|only_flux": _solve("base", "only_flux"),
    "solve base|I0#0": _solve("base", "I0#0"), "solve defaults|minimal": _solve("no_BDRF_Fourier_modes", "minimal"), "solve cache|mu-cache": _solve("base", "b_neg", "cache"), "solve shared args": _solve("base", "base", "args"),
    "solve|eval": s_solve_eval, "solve base|autograd": _solve("base", "autograd_compatible"), "solve tau|f": _solve("tau_arr", "f_arr"),
}
HELP = {"gl|gl": s_helpers("gl3", "gl4"), "cc|cc": s_helpers("cc5", "cc7"), "cc|ccb": s_helpers("cc5", "cc5b"), "fd|fd": s_helpers("fd5", "fd6"), "aff|aff": s_helpers("aff", "affb"), "spl|spl": s_helpers("spl", "splb"), "em|em": s_helpers("em", "emb"),
        "sp|spb": s_helpers("sp", "spb"), "pl|pl": s_helpers("pl", "plb"), "cache|cache": s_cache,
        "gl same": s_helpers("gl3", "gl3"), "gl2|gl3": s_helpers("gl2", "gl3"), "cc same": s_helpers("cc5", "cc5"), "fd same": s_helpers("fd5", "fd5"), "pl same": s_helpers("pl", "pl"), "sp same": s_helpers("sp", "sp")}
DEEP = {"solve base|NQuad", "solve base|only_flux", "solve base|I0#0", "solve base|autograd", "solve tau|f"}
SYMMETRIC = {"solve base|omega", "solve cache|mu-cache", "solve shared args", "solve defaults|minimal"}  # quick: one starting thread
ALL = {**EVAL, **SAME, **CORRECTED, **SOLVE, **HELP}
REPEAT = {**EVAL, **SAME, **CORRECTED, **HELP}
EXPECT = {}
LINES = {}


def prepare(tier):
    """What each thread returns alone (each in a pristine process), and how many switch points it has."""
    if EXPECT:
        return
    import glob, gc, os, autograd.numpy, scipy.interpolate, scipy.integrate, scipy.fft, scipy.constants, scipy.sparse, scipy.special, scipy.linalg  # noqa: F401 (import cost only)
    for fn in glob.glob(os.path.join(core.SRC, "PythonicDISORT", "*.py")):
        sched.statements(fn)
    gc.freeze()
    for name, make in ALL.items():
        def one(i):
            def f():
                return make()[i]()
            return f

        def count(op=False, occurrences=2):
            """switch points of each thread: numbers of the events that are the 1st..n-th execution of their statement"""
            log = ([], [])
            sched.run(make(), 0, [], op, log)
            pts = []
            for lg in log:
                seen, out = {}, []
                for i, e in enumerate(lg):
                    seen[e] = seen.get(e, 0) + 1
                    if seen[e] <= occurrences:
                        out.append(i)
                pts.append(out + [len(lg)])
            return pts
        EXPECT[name] = [c08.in_child(one(i)) for i in (0, 1)]
        occ = 10**9 if tier == "thorough" or name == "solve base|omega" else (1 if name in SOLVE or name in CORRECTED or name in SAME else 2)
        st, n = c08.in_child(lambda: count(False, occ))
        LINES[name] = n if st == "ok" else ([0], [0])
        if tier == "thorough":
            st, n = c08.in_child(lambda: count(True, 1))
            LINES[name, "op"] = n if st == "ok" else ([0], [0])


def cases(tier):
    """One case per (scenario, first thread, first switch point); the second switch points are enumerated inside, as
    the length of the other thread's run is only known then."""
    import warnings
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            core.impl()
            prepare(tier)
        except Exception as e:
            return [dict(error=f"{type(e).__name__}: {e}")]
    cs = []
    for name in list(HELP) + list(EVAL) + list(SAME) + list(CORRECTED) + list(SOLVE):
        if tier == "quick" and name in DEEP:
            continue
        for first in (0,) if tier == "quick" and name in SYMMETRIC else (0, 1):
            if tier == "quick":
                p2 = {"u|u": 3, "ip|ip": 30, "ip0|ip0": 10, "act|act": 24, "make|make": 0, "sp|spb": 0}.get(name, 1 if name in HELP else 6 if name in EVAL else 0)
            else:
                p2 = 1 if name not in SOLVE else 40
            for i, k in enumerate(LINES[name][first]):
                cs.append(dict(scenario=name, first=first, k=k, i=i, second=p2))
            if tier == "thorough":
                for k in LINES[name, "op"][first]:
                    cs.append(dict(scenario=name, first=first, k=k, second=0, opcodes=True))
    return cs


CHUNK = 2


def check(name, res, taken, sw):
    for i in (0, 1):
        st, want = EXPECT[name][i]
        if st != "ok":
            raise c08.Failed(f"thread {i} alone: {want}")
        if res[i][0] != "ok":
            raise c08.Failed(f"schedule {sw}: thread {i} raised {res[i][1]}")
        try:
            c08.same(f"thread {i}", res[i][1], want)
        except c08.Failed as e:
            raise c08.Failed(f"schedule {sw}: {e}")


def run(case, x):
    if "error" in case:
        raise core.Violation("a scenario fails even sequentially: " + case["error"])
    name, first = case["scenario"], case["first"]

    def go():
        n = 0
        sws = [[case["k"]]]
        if case["second"]:
            # second switch points on a diagonal grid: consecutive first points use shifted second points
            sws += [[case["k"], j] for j in LINES[name][1 - first][case["i"] % case["second"]::case["second"]]]
        for sw in sws:
            # afterwards both calls are repeated, in both orders (each after a schedule of its own)
            for order in ((0, 1), (1, 0)) if len(sw) == 1 and name in REPEAT else (None,):
                fs = ALL[name]()
                try:
                    res, cnt, taken = sched.run(fs, first, sw, case.get("opcodes", False))
                except sched.Deadlock as e:
                    raise c08.Failed(f"schedule {sw}: {e}")
                check(name, res, taken, sw)
                n += 1
                for i in order or ():
                    try:
                        again = ("ok", fs[i]())
                    except Exception as e:
                        again = ("error", f"{type(e).__name__}: {e}")
                    check(name, [again if j == i else res[j] for j in (0, 1)], taken, f"{sw}, then calls {order} again")
        return n, [v[1] for v in res]
    st, r = c08.in_child(go)  # module state starts pristine for every first switch point
    if st != "ok":
        raise core.Violation(f"{name}, thread {first} first: {r}")
    x.calls += 2 * r[0]
    x.traces += r[0]
    x.compared += 2 * r[0]
    for j in range(r[0]):
        x.state(name, first, case["k"], j, case.get("opcodes"))
    for v in r[1]:
        x.outcome(*v[:3])
