import contextlib, io, itertools, re
import numpy as np
from .. import core, space

RULE = ("Every size (streams 2..6, depths 1..4, azimuths 1..3) x every single position of a deviation in every output (and none, and everywhere) x reference {positive, with zeros at, next to, and away from the deviation, all zero} x sign and size of the deviation "
        "x with/without intensity: all returned arrays equal difference and ratio computed entry by entry, and the printed maxima are those of the arrays. For 2 and 4 streams every order of the directions and every non-empty choice of directions "
        "(as mask and as index list) x positions; the evaluated functions are real solutions for six bases.")
BOUNDS = {"quick": {"streams": 4, "depths": 3, "azimuths": 2}, "thorough": {"streams": 6, "depths": 4, "azimuths": 3}}
OUT = ["flup", "rfldn", "rfldir", "uu"]


def cases(tier):
    q = tier == "quick"
    cs = []
    for NQ, nt, nph in itertools.product((2, 4) if q else (2, 4, 6), range(1, 4 if q else 5), range(1, 3 if q else 4)):
        for with_u in (True, False):
            where = [(o, i) for o in OUT[:3] for i in range(nt)] + ([("uu", i) for i in range(NQ * nt * nph)] if with_u else [])
            for wh in [None, "all"] + where:
                for zero in ("none", "at", "next", "far", "all"):
                    for d in (0.25, -3.0, 1e-9) if wh else (0.0,):
                        cs.append(dict(NQ=NQ, nt=nt, nph=nph, u=with_u, where=wh, zero=zero, d=d))
    for NQ in (2, 4):
        for perm in itertools.permutations(range(NQ)):
            for mask in itertools.product((0, 1), repeat=NQ):
                if any(mask):
                    for as_index in (False, True):
                        cs.append(dict(NQ=NQ, nt=2, nph=2, u=True, where=["uu", 5], zero="next", d=0.25, perm=list(perm), mask=list(mask), index=as_index))
    cs += [dict(base=b, nph=n, nt=m) for b in ("simple", "all", "thermal", "solar", "nt", "layers") for n in (1, 2) for m in (1, 5)]
    return cs


def ratio(d, r):
    out = np.zeros(np.shape(d))
    for i in np.ndindex(*np.shape(d)):
        out[i] = d[i] / r[i] if r[i] != 0 else 0.0
    return out


def check(x, results, fu, fd, u, perm, mask, vals, NQ, nt, nph):
    """vals: the flux and intensity values the functions return on the full grid"""
    PD, S = core.impl()
    txt = io.StringIO()
    keep = {k: np.array(v) for k, v in results.items()}
    with contextlib.redirect_stdout(txt), np.errstate(all="raise", under="ignore"):
        got = x.call(S._compare, results, mask, perm, fu, fd, *([u] if u is not None else []))
    want = []
    for k, v in zip(("flup", "rfldn", "rfldir"), vals[:3]):
        d = np.abs(np.asarray(results[k]) - v)
        want += [d, ratio(d, np.asarray(results[k]))]
    if u is not None:
        sel = np.flatnonzero(mask) if np.asarray(mask).dtype == bool else np.asarray(mask)
        d = np.array([[[abs(results["uu"][i, t, p] - vals[3][perm[i], t, p]) for p in range(nph)] for t in range(nt)] for i in sel])
        want += [d, ratio(d, np.asarray(results["uu"])[sel])]
    x.true(f"{len(want)} arrays", isinstance(got, tuple) and len(got) == len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        x.close(f"array {i}", np.asarray(g), np.asarray(w), 1e-12, scale=np.maximum(np.abs(w), 1e-3 * np.max(np.abs(w))))
    nums = [float(v) for v in re.findall(r"[=(] *(-?\d[\d.]*(?:e[-+]?\d+)?)", txt.getvalue())]
    for i, w in enumerate(want):
        m = float(np.max(w))
        x.true(f"printed maximum {m!r} of array {i}", any(abs(v - m) <= 1e-9 * abs(m) for v in nums))
    x.true("the stored results are not modified", all(np.array_equal(keep[k], results[k]) for k in keep))
    x.traces += 1
    x.outcome(*want)


def run(c, x):
    x.state(sorted(map(str, c.items())))
    if "base" in c:
        p = space.resolve(space.BASES[c["base"]])
        from .. import api
        sol = api.solve(x, space.BASES[c["base"]], p)
        NQ, nph, nt = sol.NQ, c["nph"], c["nt"]
        t = np.array([0.4 * p["tau_arr"][-1]]) if nt == 1 else np.linspace(0, p["tau_arr"][-1], nt)
        ph = np.array([0.3, 2.0])[:nph]
        dn, di = sol.down(t)
        vals = [sol.up(t), dn, di, sol.u(t, ph)]
        perm = np.concatenate([np.arange(NQ - 1, NQ // 2 - 1, -1), np.arange(NQ // 2)])
        res = dict(flup=vals[0] * 1.01, rfldn=vals[1] + 0.01, rfldir=vals[2] * 0.5, uu=np.ascontiguousarray(vals[3][perm]) - 0.02, tau_test_arr=t, phi_arr=ph)
        for mask in (np.ones(NQ, bool), np.arange(NQ) % 2 == 0):
            check(x, res, sol.Fp, sol.Fm, sol.uf, perm, mask, vals, NQ, nt, nph)
            check(x, res, sol.Fp, sol.Fm, None, perm, mask, vals, NQ, nt, nph)
        return
    NQ, nt, nph = c["NQ"], c["nt"], c["nph"]
    g = lambda n, a: 1.0 + np.arange(n) * a  # all different
    ref = dict(flup=g(nt, 0.3), rfldn=2 * g(nt, 0.2), rfldir=3 * g(nt, 0.1), uu=g(NQ * nt * nph, 0.07))
    pos = (lambda k: c["where"][1]) if isinstance(c["where"], (tuple, list)) else (lambda k: 0)
    for k, v in ref.items():
        n = len(v)
        if c["zero"] == "all":
            v[:] = 0
        elif c["zero"] != "none":
            v[(pos(k) + {"at": 0, "next": 1, "far": n // 2}[c["zero"]]) % n] = 0
    val = {k: np.array(v) for k, v in ref.items()}
    for k, v in val.items():
        if c["where"] == "all":
            v += c["d"]
        elif c["where"] is not None and c["where"][0] == k:
            v[c["where"][1]] += c["d"]
    uu, uv = ref["uu"].reshape(NQ, nt, nph), val["uu"].reshape(NQ, nt, nph)
    perm = np.array(c.get("perm", list(range(NQ))[::-1]))
    mask = np.array(c.get("mask", [1] * NQ), bool)
    full = np.empty_like(uv)
    full[perm] = uv  # direction i of the reference is direction perm[i] of the functions
    t, ph = 0.5 + np.arange(nt), 0.1 + np.arange(nph)
    tab = lambda v: lambda tau: np.squeeze(np.array([v[int(round(a - 0.5))] for a in np.atleast_1d(tau)]))[()]
    fd = lambda tau: (tab(val["rfldn"])(tau), tab(val["rfldir"])(tau))
    u = (lambda tau, phi: np.squeeze(np.array([[[full[i, int(round(a - 0.5)), int(round(b - 0.1))] for b in np.atleast_1d(phi)] for a in np.atleast_1d(tau)] for i in range(NQ)]))[()]) if c["u"] else None
    res = dict(flup=ref["flup"], rfldn=ref["rfldn"], rfldir=ref["rfldir"], tau_test_arr=t)
    if c["u"]:
        res.update(uu=uu, phi_arr=ph)
    check(x, res, tab(val["flup"]), fd, u, perm, np.flatnonzero(mask) if c.get("index") else mask, [val["flup"], val["rfldn"], val["rfldir"], full], NQ, nt, nph)
