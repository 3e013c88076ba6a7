"""C01-C06: digital elevation model conditioning."""
import numpy as np
from . import prop, Skip, geo, M

ATOL = 1e-9


def _dany():
    import dany
    return dany


def _dem(case, kind=None):
    """elevations in the forms users hand over (float64/float32/integer)"""
    g, rng = case.g, case.rng
    z, k = geo.random_dem(rng, g, kind)
    r = rng.random()
    dt = "float64"
    if r < 0.1:
        z = z.astype(np.float32)
        dt = "float32"
    elif r < 0.2:
        z = np.round(z * (20 if np.ptp(z) < 5 else 1)).astype(np.int64)
        dt = "int64"
    case.desc.update(dem=k, dtype=dt)
    case.count("dem:" + k)
    case.count("dtype:" + dt)
    return z


def _eps(case):
    """epsilon argument: default, or explicit"""
    r = case.rng.random()
    if r < 0.5:
        return None, 2e-6
    if r < 0.55:
        e = int(case.pick([1, 2]))
    elif r < 0.7:
        e = float(10 ** case.rng.uniform(-6, 1))
    else:
        e = float(case.pick([1e-5, 1e-3, 0.01, 0.25]))
    return e, float(e)


def _fill(case, g_obj, dem, **kw):
    d = _dany()
    return case.call("fill_sinks", d.fill_sinks, g_obj, dem, **kw)


def _out(case, res, what="fill_sinks"):
    res = np.asarray(res)
    case.check(res.shape == case.shape, "shape", lambda: f"{what} returned shape {res.shape} for a {case.shape} elevation model")
    return res.ravel().astype(float)


def _method_kw(case, methods=("priority", "complete", "drain", None)):
    if case.is_large or case.is_long:
        methods = [k for k in methods if k != "drain"]      # (one pass per level, minutes)
    m = case.pick(list(methods))
    kw = {}
    if m is not None:
        kw["method"] = m if case.rng.random() < 0.85 else m.upper()
    return (m or "priority"), kw


def _ulp(z):
    return ATOL + 4e-15 * float(np.max(np.abs(z)) if len(z) else 0)


@prop("C01")
def never_lowers(case):
    """filled >= original everywhere; outline cells keep their elevation exactly"""
    g = case.geometry(kinds=geo.DISTANT, large=True)
    z = _dem(case)
    m, kw = _method_kw(case)
    eps, e = _eps(case)
    if eps is not None:
        kw["eps"] = eps
    case.desc.update(method=m, eps=e)
    case.count("method:" + m)
    w = _out(case, _fill(case, case.new_grid(), case.arr(z), **kw))
    zf = z.astype(float)
    case.check(np.isfinite(w).all(), "finite", "filled elevations are not finite")
    low = np.flatnonzero(w < zf)
    case.check(len(low) == 0, "lowered",
               lambda: f"{m}: cell {low[0]} lowered from {zf[low[0]]!r} to {w[low[0]]!r}")
    ed = np.array(g.edges(), int)
    mv = ed[w[ed] != zf[ed]] if len(ed) else ed
    case.check(len(mv) == 0, "outline-moved",
               lambda: f"{m}: outline cell {mv[0]} moved from {zf[mv[0]]!r} to {w[mv[0]]!r}")
    case.count("cells_raised", (w > zf).sum())
    case.count("outline_cells", len(ed))
    if (w > zf).any():
        case.nontrivial(z, m, e)


@prop("C02")
def plain_fill_is_spill_level(case):
    g = case.geometry(kinds=geo.DISTANT, large=True)
    z = _dem(case)
    kw = {"method": case.pick(["complete", "complete", "Complete"])}
    if case.rng.random() < 0.4:
        kw["eps"] = float(case.pick([1e-3, 0.25]))      # documented as ignored
    elif case.rng.random() < 0.3:
        # no increment at all
        kw = {"eps": case.pick([0, 0.0]), **case.pick([{}, {"method": "priority"}, {"method": "priority" if case.is_large or case.is_long else "drain"}])}
        case.count("zero_increment")
    w = _out(case, _fill(case, case.new_grid(), case.arr(z), **kw))
    zf = z.astype(float)
    ref = M.spill(g.adj(), zf, g.edges())
    bad = np.flatnonzero(np.abs(w - ref) > _ulp(zf))
    case.check(len(bad) == 0, "not-spill-level",
               lambda: f"cell {bad[0]} (outline={bad[0] in set(g.edges())}) filled to {w[bad[0]]!r}, its spill level is {ref[bad[0]]!r} (original {zf[bad[0]]!r})")
    case.count("cells_in_depressions", (ref > zf).sum())
    if (ref > zf).any():
        case.nontrivial(z)


def _interior(case, m, e, w, zf, seeds):
    """every cell off the seeds has a strictly lower neighbour"""
    g = case.g
    adj = g.adj()
    seeds = set(int(s) for s in seeds)
    for c in range(g.n):
        if c in seeds or not adj[c]:
            continue
        lowest = min(w[k] for k in adj[c])
        if not case.check(lowest < w[c], "no-descent",
                          lambda: f"{m} eps={e}: cell {c} at {w[c]!r} has no lower neighbour (lowest {lowest!r}), original {zf[c]!r}"):
            break


@prop("C03")
def eps_fill_descends(case):
    g = case.geometry(kinds=geo.DISTANT, large=True)
    z = _dem(case)
    m, kw = _method_kw(case, ("priority", "priority", None, "drain"))
    eps, e = _eps(case)
    if eps is not None:
        kw["eps"] = eps
    case.desc.update(method=m, eps=e)
    case.count("method:" + m)
    w = _out(case, _fill(case, case.new_grid(), case.arr(z), **kw))
    zf = z.astype(float)
    ed = g.edges()
    # the strictly-descending chain has to end on the outline, so also rule out
    # cells cut off from it (a grid without outline cells does not exist)
    _interior(case, m, e, w, zf, ed)
    case.count("cells_raised", (w > zf).sum())
    if (w > zf).any():
        case.nontrivial(z, m, e)


@prop("C04")
def eps_fill_is_tight(case):
    g = case.geometry(kinds=geo.DISTANT, large=True)
    z = _dem(case)
    m, kw = _method_kw(case, ("priority", None, "drain", "drain"))
    eps, e = _eps(case)
    if eps is not None:
        kw["eps"] = eps
    case.desc.update(method=m, eps=e)
    case.count("method:" + m)
    w = _out(case, _fill(case, case.new_grid(), case.arr(z), **kw))
    zf = z.astype(float)
    tol = _ulp(zf) + 1e-13 * g.n
    adj, ed = g.adj(), g.edges()
    if m == "drain":
        ref = M.eps_fill(adj, zf, ed, e)
        bad = np.flatnonzero(np.abs(w - ref) > tol + 1e-4 * e)
        case.check(len(bad) == 0, "not-lowest-draining-surface",
                   lambda: f"drain eps={e}: cell {bad[0]} at {w[bad[0]]!r}, lowest draining surface is {ref[bad[0]]!r}")
        raised = ref > zf
    else:
        _tight_priority(case, adj, zf, w, e, ed, tol)
        raised = w > zf
    case.count("cells_raised", raised.sum())
    if raised.any():
        case.nontrivial(z, m, e)


def _tight_priority(case, adj, zf, w, e, seeds, tol):
    n = len(zf)
    raised = np.flatnonzero(w > zf + tol)
    for c in raised:
        d = min(abs(w[c] - (w[k] + e)) for k in adj[c])
        if not case.check(d <= tol + 1e-4 * e, "raise-not-one-increment",
                          lambda: f"priority eps={e}: raised cell {c} at {w[c]!r} is not one increment above any neighbour {[w[k] for k in adj[c]]} (original {zf[c]!r})"):
            return
    ref = M.spill(adj, zf, seeds)
    hi = np.flatnonzero(w > ref + e * n + tol)
    case.check(len(hi) == 0, "over-raised",
               lambda: f"priority eps={e}: cell {hi[0]} raised to {w[hi[0]]!r}, spill level {ref[hi[0]]!r}, {n} cells")
    lo = np.flatnonzero(w < ref - tol)
    case.check(len(lo) == 0, "below-spill",
               lambda: f"priority eps={e}: cell {lo[0]} at {w[lo[0]]!r} below its spill level {ref[lo[0]]!r}")


def _stream_mask(case, z):
    """outlet(s), random cells, or a downhill path of cells"""
    g, rng = case.g, case.rng
    adj = g.adj()
    k = rng.random()
    mask = np.zeros(g.n, bool)
    if case.is_large or case.is_long:
        k = rng.choice([0.1, 0.4, 0.4])         # (lines would be slow to draw)
    if k < 0.3:
        mask[int(np.argmin(z)) if rng.random() < 0.6 else int(rng.integers(g.n))] = True
        kind = "outlet"
    elif k < 0.5:
        mask[rng.choice(g.n, max(1, int(g.n * rng.uniform(0.02, 0.6 if case.is_large or case.is_long else 0.3))), replace=False)] = True
        kind = "scattered"
    else:
        for _ in range(int(rng.integers(1, 4))):
            c = int(rng.integers(g.n))
            for _ in range(int(rng.integers(3, max(4, g.n // 4)))):
                mask[c] = True
                nb = [q for q in adj[c] if not mask[q]]
                if not nb:
                    break
                c = min(nb, key=lambda q: z[q]) if rng.random() < 0.8 else int(rng.choice(nb))
        kind = "lines"
    return mask, kind


@prop("C05")
def stream_conditioning(case):
    g = case.geometry(kinds=geo.DISTANT, large=True)
    rng = case.rng
    z = _dem(case)
    zf = z.astype(float)
    mask, kind = _stream_mask(case, zf)
    m, kw = _method_kw(case, ("priority", None, "drain", "complete"))
    eps, e = _eps(case)
    if eps is not None:
        kw["eps"] = eps
    if m == "complete":
        e = 0.0
    case.desc.update(method=m, eps=e, mask=kind, stream_cells=int(mask.sum()))
    case.count("mask:" + kind)
    case.count("method:" + m)
    form = case.pick(["bool", "int", "numbered", "float"])
    if form == "bool":
        ma = mask
    elif form == "int":
        ma = mask.astype(int)
    elif form == "numbered":
        ma = np.where(mask, rng.integers(1, 9, g.n), 0)
    else:
        # lengths or shares of a cell as well
        ma = np.where(mask, 1.0 if rng.random() < 0.5 else rng.uniform(0.01, 1.5, g.n), rng.choice([0.0, -1.0, np.nan], g.n))
    w = _out(case, _fill(case, case.new_grid(), case.arr(z), stream_mask=case.arr(ma), **kw))
    tol = _ulp(zf) + 1e-13 * g.n
    adj = g.adj()
    low = np.flatnonzero(w < zf)
    case.check(len(low) == 0, "lowered", lambda: f"cell {low[0]} lowered from {zf[low[0]]!r} to {w[low[0]]!r}")
    # level a mapped stream cell must end at
    lev = zf.copy()
    for c in sorted(np.flatnonzero(mask), key=lambda c: (zf[c], c)):   # from the lowest up
        nb = [lev[k] for k in adj[c] if mask[k]]
        if len(nb) > 1 and min(nb) > lev[c]:
            lev[c] = min(nb) + e
    bad = [c for c in np.flatnonzero(mask) if abs(w[c] - lev[c]) > tol]
    case.check(not bad, "stream-cell-level",
               lambda: f"stream cell {bad[0]} (original {zf[bad[0]]!r}) at {w[bad[0]]!r}, expected {lev[bad[0]]!r}; stream neighbours {[zf[k] for k in adj[bad[0]] if mask[k]]}")
    seeds = np.flatnonzero(mask)
    reach = np.isfinite(M.spill(adj, zf, seeds))
    land = np.flatnonzero(~mask & reach)
    untouched = (lev[seeds] == zf[seeds]).all()
    if m == "complete":
        for c in land:
            lowest = min(w[k] for k in adj[c])
            if not case.check(lowest <= w[c], "no-descent",
                              lambda: f"complete: land cell {c} at {w[c]!r} is below all its neighbours (lowest {lowest!r})"):
                break
        if untouched:
            ref = M.spill(adj, zf, seeds)
            b = np.flatnonzero(np.abs(w - ref) > tol)
            b = [c for c in b if reach[c]]
            case.check(not b, "not-spill-level",
                       lambda: f"complete: cell {b[0]} at {w[b[0]]!r}, spill level to the streams {ref[b[0]]!r}")
    else:
        for c in land:
            lowest = min(w[k] for k in adj[c])
            if not case.check(lowest < w[c], "no-descent",
                              lambda: f"priority eps={e}: land cell {c} at {w[c]!r} has no lower neighbour (lowest {lowest!r}, original {zf[c]!r})"):
                break
        if untouched and reach.all():
            _tight_priority(case, adj, zf, w, e, seeds, tol)
    case.count("stream_cells", mask.sum())
    case.count("stream_cells_raised", (lev > zf).sum())
    case.count("land_raised", (w > zf)[~mask].sum())
    if (w > zf).any():
        case.nontrivial(z, mask, m, e)


STAT = {"mean": np.mean, "median": np.median, "min": np.min, "max": np.max}


def _strip(rng):
    n, w = int(rng.integers(200, 420)), int(rng.integers(1, 3))
    g = geo.structured(np.full(n // w, 10.0), np.full(w, 10.0))
    return g if rng.random() < 0.5 else g.permute(rng.permutation(g.n))


@prop("C06")
def nan_filling(case):
    rng = case.rng
    far = case.idx % 260 == 61
    if far:
        # values have to travel through hundreds of missing cells
        g = case.geometry(make=lambda: _strip(rng))
        case.count("far_from_any_value")
    else:
        g = case.geometry(kinds=geo.DISTANT, large=True)
    z, k = geo.random_dem(rng, g)
    adj = g.adj()
    style = case.pick(["sparse", "patch", "dense", "leave-one", "all", "islands"])
    if far:
        style = "leave-one"
    elif case.is_large or case.is_long:
        style = case.pick(["sparse", "patch"])
    nan = np.zeros(g.n, bool)
    if style == "sparse":
        nan = rng.random(g.n) < 0.12
    elif style == "dense":
        nan = rng.random(g.n) < 0.6
    elif style == "patch":
        for _ in range(int(rng.integers(1, 4))):
            c = int(rng.integers(g.n))
            nan[c] = True
            nan[adj[c]] = True
            if rng.random() < 0.5:
                for q in adj[c]:
                    nan[adj[q]] = True
    elif style == "leave-one":
        nan[:] = True
        nan[case.pick([0, g.n - 1, int(rng.integers(g.n))]) if far else int(rng.integers(g.n))] = False
    elif style == "all":
        nan[:] = True
        if rng.random() < 0.7:
            nan[:] = rng.random(g.n) < 0.3
    else:
        comp = rng.random(g.n) < 0.35
        nan = comp
    z = z.copy()
    if rng.random() < 0.06:
        # numbers used as no-data marks elsewhere; here they are values
        z = z.astype(float)
        z[rng.random(g.n) < 0.1] = case.pick([-9999.0, -999.0, 0.0, -1.0, -32768.0, 1e10, -1e10, 1e30])
        case.count("mark_like_values")
    z[nan] = np.nan
    if rng.random() < 0.1:
        z = z.astype(np.float32)
    meth = case.pick(["mean", "mean", "median", "min", "max", None])
    kw = {} if meth is None else {"method": meth if rng.random() < 0.85 else meth.upper()}
    st = STAT[meth or "mean"]
    case.desc.update(nan=style, nan_cells=int(nan.sum()), method=meth or "mean")
    case.count("nan:" + style)
    case.count("method:" + (meth or "mean"))
    import dany
    a = case.arr(z)
    res = case.call("fill_nan_values", dany.fill_nan_values, case.new_grid(), a, **kw)
    w = _out(case, res, "fill_nan_values")
    z = z.astype(float)
    case.check(np.array_equal(w[~nan], z[~nan]), "valid-cell-changed",
               lambda: f"cell {np.flatnonzero(~nan & (w != z))[0]} had an elevation and was changed")
    # cells that can obtain a value: connected to a valid cell
    ok = ~nan
    st_ = list(np.flatnonzero(ok))
    while st_:
        c = st_.pop()
        for q in adj[c]:
            if not ok[q]:
                ok[q] = True
                st_.append(q)
    left = np.flatnonzero(np.isnan(w) & ok)
    case.check(len(left) == 0, "nan-left", lambda: f"cell {left[0]} still has no elevation")
    tol = 1e-9 + 1e-6 * (np.nanmax(np.abs(z)) if (~nan).any() else 0) * (a.dtype == np.float32)
    tol = max(tol, 1e-12 * (np.nanmax(np.abs(z)) if (~nan).any() else 0))
    n_exact = 0
    for c in np.flatnonzero(nan & ok & ~np.isnan(w)):
        base = [w[q] for q in adj[c] if not nan[q]]
        opt = [w[q] for q in adj[c] if nan[q] and not np.isnan(w[q])]
        if not opt:
            n_exact += 1
            e = st(base)
            if not case.check(abs(e - w[c]) <= tol, "not-the-statistic",
                              lambda: f"{meth}: cell {c} filled with {w[c]!r}, the {meth or 'mean'} of its neighbours is {e!r}"):
                break
        elif len(opt) <= 8:
            hit = False
            for s in range(1 << len(opt)):
                v = base + [opt[i] for i in range(len(opt)) if s >> i & 1]
                if v and abs(st(v) - w[c]) <= tol:
                    hit = True
                    break
            if not case.check(hit, "not-the-statistic",
                              lambda: f"{meth}: cell {c} filled with {w[c]!r}, which is not the {meth or 'mean'} over its valued neighbours {base} and any of {opt}"):
                break
        else:
            lo, hi = min(base + opt), max(base + opt)
            if not case.check(lo - tol <= w[c] <= hi + tol, "outside-neighbours",
                              lambda: f"cell {c} filled with {w[c]!r} outside its neighbours' range {lo!r}..{hi!r}"):
                break
    case.count("cells_filled", (nan & ok).sum())
    case.count("cells_with_one_possible_value", n_exact)
    if (nan & ok).any():
        case.nontrivial(z, meth)
