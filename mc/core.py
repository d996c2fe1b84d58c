"""Exhaustive explorer: runs every case of a finite, deterministically ordered space on the real code.

A check module defines
    RULE            text: the space, the bound, the oracle
    cases(tier)     deterministic list of JSON-able case descriptors, simplest first
    run(case, x)    executes the case on the real code through `x` (an Execution), raising Violation
"""
import json, os, signal, sys, time, traceback, hashlib, warnings, multiprocessing as mp
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
CASE_TIMEOUT = 150


class Violation(Exception):
    pass


class Timeout(Exception):
    pass


_impl = None


def impl():
    """The package from /repo's working tree (imported once per process, never from a cache)."""
    global _impl
    if _impl is None:
        sys.dont_write_bytecode = True
        if SRC not in sys.path:
            sys.path.insert(0, SRC)
        warnings.simplefilter("ignore")
        import PythonicDISORT
        from PythonicDISORT import subroutines
        where = os.path.realpath(PythonicDISORT.__file__)
        assert where.startswith(os.path.realpath(SRC)), where
        _impl = (PythonicDISORT, subroutines)
    return _impl


class Execution:
    """Bookkeeping of one case: calls made on the implementation (transitions), states seen,
    comparisons made, closest approach to a tolerance, digests of outcomes."""

    def __init__(self):
        self.calls = 0
        self.states = set()
        self.traces = 0
        self.compared = 0
        self.margin = 0.0
        self.margin_what = ""
        self.outcomes = set()

    def call(self, f, *a, **k):
        self.calls += 1
        return f(*a, **k)

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def outcome(self, *vals):
        import numpy as np
        h = hashlib.blake2b(digest_size=8)
        for v in vals:
            try:
                v = np.asarray(v, float)
                with np.errstate(all="ignore"):
                    h.update(repr([float("%.6g" % t) for t in v.ravel()[:64]]).encode())
            except Exception:
                h.update(repr(v).encode())
        self.outcomes.add(h.digest())

    def close(self, what, got, want, rtol=1e-6, scale=None, floor=0.0, axis=None):
        """|got-want| <= rtol*max(scale, floor). scale: per-element magnitude (default max|want| over
        everything except `axis`, floored at 1e-5 of the overall maximum)."""
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        self.compared += 1
        if got.shape != want.shape:
            raise Violation(f"{what}: shape {got.shape} instead of {want.shape}")
        if got.size == 0:
            return
        if got.dtype == object or not np.all(np.isfinite(got.astype(complex) if np.iscomplexobj(got) else got.astype(float))):
            if not np.all(np.isfinite(np.asarray(want, float))):
                raise AssertionError(f"{what}: reference is not finite")
            raise Violation(f"{what}: not finite: {got}")
        aw = np.abs(want)
        if scale is None:
            if axis is None:
                scale = aw.max()
            else:
                scale = aw.max(axis=tuple(i for i in range(aw.ndim) if i != axis), keepdims=True)
                scale = np.maximum(scale, 1e-5 * aw.max())
        tol = rtol * np.maximum(scale, floor) + 1e-300
        err = np.abs(got - want)
        r = float(np.max(err / tol))
        if not r <= 1.0:
            i = np.unravel_index(np.argmax(err / tol), err.shape)
            raise Violation(f"{what}: got {got[i]!r}, expected {want[i]!r} at index {tuple(int(k) for k in i)} "
                            f"(difference {err[i]:.3e}, {r:.3g} x tolerance)")
        if r > self.margin:
            self.margin, self.margin_what = r, what

    def true(self, what, cond):
        self.compared += 1
        if not cond:
            raise Violation(what)

    def raises(self, what, exc, f, *a, **k):
        self.calls += 1
        self.compared += 1
        try:
            r = f(*a, **k)
        except exc:
            return
        except Exception as e:
            raise Violation(f"{what}: raised {type(e).__name__}: {e} instead of {exc.__name__}")
        raise Violation(f"{what}: accepted, returned {str(r)[:200]}")


def _alarm(*_):
    raise Timeout("case did not finish in %d s" % CASE_TIMEOUT)


def run_one(mod, case):
    """-> (None | message, Execution)"""
    x = Execution()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np
            with np.errstate(all="ignore"):
                mod.run(case, x)
        return None, x
    except Violation as e:
        return str(e), x
    except BaseException as e:  # an accepted, valid case must not raise
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, Timeout):
            pass
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(t.filename)}:{t.lineno}" for t in tb[-3:])
        return f"raised {type(e).__name__}: {e} ({where})", x
    finally:
        signal.alarm(0)


def _worker(mod, cases, nxt, cur, wid, conn, deadline, chunk, known=()):
    agg = dict(known=[], calls=0, traces=0, compared=0, margin=0.0, margin_what="", margin_case=None, done=0, fails=[], capped=False, cpu=0.0)
    states, outcomes = set(), set()
    slow = []
    while True:
        with nxt.get_lock():
            i0 = nxt.value
            nxt.value = i0 + chunk
        if i0 >= len(cases):
            break
        stop = False
        for i in range(i0, min(i0 + chunk, len(cases))):
            if time.time() > deadline:
                agg["capped"] = True
                stop = True
                break
            cur[wid] = i
            t0 = time.time()
            msg, x = run_one(mod, cases[i])
            slow.append((time.time() - t0, i))
            slow = sorted(slow, reverse=True)[:3]
            agg["done"] += 1
            agg["calls"] += x.calls
            agg["traces"] += x.traces
            agg["compared"] += x.compared
            states |= x.states
            outcomes |= x.outcomes
            if x.margin > agg["margin"]:
                agg["margin"], agg["margin_what"], agg["margin_case"] = x.margin, x.margin_what, i
            key = mod.finding_key(cases[i], msg) if msg is not None and hasattr(mod, "finding_key") else None
            if key is not None and key in known:  # a listed finding neither stops nor fails the search
                agg["known"].append((i, msg, key))
            elif msg is not None:
                agg["fails"].append((i, msg))
                if len(agg["fails"]) >= 3:
                    stop = True
                with nxt.get_lock():  # the explorer stops at the first level that contains a violation
                    nxt.value = len(cases)
                if stop:
                    break
        if stop:
            break
    cur[wid] = -1
    agg["states"], agg["outcomes"], agg["slow"], agg["cpu"] = states, outcomes, slow, time.process_time()
    conn.send(agg)
    conn.close()


def explore(mod, cases, jobs, budget, chunk=None, known=()):
    n = len(cases)
    chunk = chunk or max(1, min(8, n // (jobs * 8) or 1))
    nxt, cur = mp.Value("l", 0), mp.Array("l", [-1] * jobs)
    deadline = time.time() + budget
    procs = []
    for w in range(jobs):
        a, b = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(mod, cases, nxt, cur, w, b, deadline, chunk, known))
        p.start()
        b.close()
        procs.append((p, a))
    res = []
    for w, (p, a) in enumerate(procs):
        try:
            res.append(a.recv())
        except EOFError:
            p.join()
            i = cur[w]
            res.append(dict(known=[], calls=0, traces=0, compared=0, margin=0, margin_what="", margin_case=None, done=0, capped=False, cpu=0,
                            states=set(), outcomes=set(), slow=[], fails=[(i, f"the interpreter died (exit code {p.exitcode})")] if i >= 0 else [(0, f"worker died (exit code {p.exitcode})")]))
        p.join()
    return res


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                out.append(line[len(f"known: property={prop} "):])
    return out


def main(prop, mod, tier, argv=()):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or max(1, min(8, os.cpu_count() or 1))
    cases = list(mod.cases(tier))
    try:
        impl()
        imp = None
    except Exception as e:
        imp = f"the package cannot be imported: {type(e).__name__}: {e}"
    if imp:
        res = [dict(known=[], calls=0, traces=0, compared=0, margin=0, margin_what="", margin_case=None, done=0, capped=False, cpu=0,
                    states=set(), outcomes=set(), slow=[], fails=[(0, imp)])]
    else:
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
        budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "5400"))
        res = explore(mod, cases, jobs, budget, getattr(mod, "CHUNK", None), known_findings(prop))
    states = set().union(*[r["states"] for r in res])
    outcomes = set().union(*[r["outcomes"] for r in res])
    fails = sorted(f for r in res for f in r["fails"])
    shown = [f for r in res for f in r["known"]]
    new = [(i, msg, None) for i, msg in fails]
    for k in sorted({k for _, _, k in shown}):
        print(f"KNOWN-FINDING: property={prop} {k}")
    done = sum(r["done"] for r in res)
    capped = any(r["capped"] for r in res)
    best = max(res, key=lambda r: r["margin"])
    slow = sorted((s for r in res for s in r["slow"]), reverse=True)[:3]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=len(states), transitions=sum(r["calls"] for r in res), traces_validated_against_impl=sum(r["traces"] for r in res),
            evaluations=done, distinct_nontrivial=len(outcomes), comparisons=sum(r["compared"] for r in res),
            rule=mod.RULE, exhaustive=bool(done == len(cases) and not fails), cases_in_bound=len(cases), cases_completed=done, capped=capped,
            bounds=getattr(mod, "BOUNDS", {}).get(tier, {}) if isinstance(getattr(mod, "BOUNDS", {}), dict) else {},
            samples=[cases[i] for i in sorted({0, len(cases) // 3, 2 * len(cases) // 3, len(cases) - 1})] if cases else [],
            closest_approach_to_tolerance=dict(ratio=best["margin"], what=best["margin_what"]),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) or ["input values outside the stated alphabet are not covered", "floating-point agreement is judged with the tolerances in the rule"],
        wall_s=round(time.time() - t0, 2), violations=len(new),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{prop} [{tier}] cases={done}/{len(cases)} states={len(states)} transitions={ev['coverage']['transitions']} traces={ev['coverage']['traces_validated_against_impl']} "
          f"outcomes={len(outcomes)} comparisons={ev['coverage']['comparisons']} margin={best['margin']:.3g} ({best['margin_what']} case {best['margin_case']}) "
          f"capped={capped} wall={ev['wall_s']}s cpu={sum(r['cpu'] for r in res):.0f}s slowest={[(round(a, 2), i) for a, i in slow]}")
    if new:
        i, msg, _ = new[0]
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        path = os.path.join(VERIF, "out", f"{prop}_replay.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, tier=tier, case=cases[i], message=msg, all=[dict(case=cases[j], message=m) for j, m, _ in new[1:10]],
                           replay=f"{sys.executable} {VERIF}/mc/replay.py {path}"), fh, indent=1, default=str)
        print(f"  case: {json.dumps(cases[i], default=str)}")
        print(f"  {msg}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if capped:
        print(f"{prop}: time cap reached after {done} of {len(cases)} cases; nothing below it violated the property")
    print(f"{prop}: held on everything explored")
    return 0
