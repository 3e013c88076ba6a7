"""F01-F08: flow directions, accumulation, watersheds, subbasins, cell geometry."""
import math
import numpy as np
from . import prop, Skip, geo, M


def unique_min(rng, z):
    """lower one cell so that the elevation model has a single lowest cell"""
    z = np.asarray(z, float).copy()
    m = np.flatnonzero(z == np.nanmin(z))
    if len(m) > 1 or rng.random() < 0.1:
        z[int(rng.choice(m))] -= float(rng.choice([1e-3, 0.5, 10.0]))
    return z


LARGE_KINDS = ("noise", "plane", "cone", "valley")


def conditioned(case, terminals=(), eps=None, outlet=None, kind=None, lone=False):
    """single-outlet elevation model in which every other cell has a neighbour
    lower by at least eps (built by the reference model, not by dany)"""
    g, rng = case.g, case.rng
    eps = eps or float(case.pick([2e-6, 2e-6, 1e-5, 1e-3, 0.01]))
    z, k = geo.random_dem(rng, g, kind or (case.pick(LARGE_KINDS) if case.is_large or case.is_long else None))
    z = np.asarray(z, float).copy()
    if outlet is None:
        ed = g.edges()
        r = rng.random()
        outlet = int(np.argmin(z)) if r < 0.4 else int(rng.choice(ed)) if r < 0.8 else int(rng.integers(g.n))
    z[outlet] = min(z.min(), z[outlet]) - float(rng.choice([1e-3, 0.3, 5.0]))
    w = M.eps_fill(g.adj(), z, [outlet] + [t for t in terminals if t != outlet], eps)
    if lone:
        # cells without any neighbour keep their elevation
        w = np.where([len(a) == 0 for a in g.adj()], z, w)
    if not np.isfinite(w).all():
        raise Skip("disconnected")
    case.desc.update(dem=k, eps=eps, outlet=int(outlet))
    case.count("dem:" + k)
    return w, outlet, eps


def number_type(case, z):
    """the same elevations as numbers of another type, where that loses nothing"""
    if case.rng.random() < 0.5:
        for t in (np.int16, np.int32, np.int64, np.float32):
            if t is np.float32 or np.isfinite(z).all() and np.abs(z).max() < 3e4:
                if np.array_equal(z, z.astype(t).astype(float), equal_nan=True):
                    if t is np.int16 and case.rng.random() < 0.5:
                        continue
                    case.count("elevations:" + np.dtype(t).name)
                    return z.astype(t)
    return z


def fd_object(case, z, grid=None, judged=True, **kw):
    import dany
    f = case.call if judged else case.setup
    return f("FlowDirections", dany.FlowDirections, grid if grid is not None else case.new_grid(), case.arr(number_type(case, z)), **kw)


def directions(case, fd, judged=True, **kw):
    f = case.call if judged else case.setup
    r = np.asarray(f("flow_directions", fd.flow_directions, **kw))
    if judged:
        case.check(r.shape == case.shape, "shape", lambda: f"flow directions of shape {r.shape} for a {case.shape} grid")
    return r.ravel()


def usable_fdir(case, f):
    """precondition of the properties that build on flow directions"""
    g = case.g
    if f.shape != (g.n,) or (f >= g.n).any() or f.dtype.kind not in "iu":
        raise Skip("unusable flow directions")
    return f.astype(int)


def pick_terminals(case, p=0.3):
    if case.rng.random() > p:
        return []
    k = int(case.rng.integers(1, 4))
    return [int(t) for t in case.rng.choice(case.g.n, min(k, case.g.n), replace=False)]


def terminal_arg(case, terms):
    """node numbers, or (row, column) pairs on structured grids"""
    if not terms:
        return {} if case.rng.random() < 0.5 else {"terminal_cells": None}
    if case.gtype == "structured" and case.rng.random() < 0.5:
        nc = case.shape[1]
        mk = tuple if case.rng.random() < 0.5 else list
        case.count("terminals_as_row_col")
        return {"terminal_cells": [mk((t // nc, t % nc)) for t in terms]}
    return {"terminal_cells": list(terms)}


def raw_dem(case, p_nan=0.25):
    """any elevation model: raw, flat, filled flat, with nodata"""
    g, rng = case.g, case.rng
    z, k = geo.random_dem(rng, g, case.pick(LARGE_KINDS) if case.is_large or case.is_long else None)
    z = np.asarray(z, float)
    r = rng.random()
    if (case.is_large or case.is_long) and r < 0.2:
        r = 0.3                              # no flats of thousands of cells
    form = "raw"
    if r < 0.2:
        z = M.spill(g.adj(), z, g.edges())
        form = "filled-flat"
    elif r < 0.45:
        z = M.eps_fill(g.adj(), z, g.edges(), float(case.pick([2e-6, 1e-3])))
        form = "eps-filled"
    elif r < 0.6:
        z = M.eps_fill(g.adj(), z, [int(np.argmin(z))], 2e-6)
        form = "single-outlet"
    z = np.where(np.isfinite(z), z, 5.0)
    z = unique_min(rng, z)
    if rng.random() < 0.12:
        # as resampled rasters often come
        t = np.float32 if rng.random() < 0.6 or np.abs(z).max() > 3e4 else np.int16
        q = z.astype(t).astype(float)
        if (q == q.min()).sum() == 1:
            z = q
    nan = np.zeros(g.n, bool)
    if rng.random() < p_nan:
        if rng.random() < 0.5:
            nan = rng.random(g.n) < rng.choice([0.05, 0.3, 0.7])
        else:
            c = int(rng.integers(g.n))
            nan[g.adj()[c]] = True            # a cell fenced in by nodata
        nan[int(np.argmin(z))] = False
        z = np.where(nan, np.nan, z)
        z = unique_min(rng, z)
    case.desc.update(dem=k, form=form, nodata=int(nan.sum()))
    case.count("dem:" + k)
    case.count("form:" + form)
    case.count("nodata_cells", nan.sum())
    return z, nan


def threshold(case):
    r = case.rng.random()
    if r < 0.6:
        return {}, 1e-6
    t = float(case.pick([0.0, 1e-9, 1e-4, 0.05]))
    return {"burn_threshold": t}, t


@prop("F01")
def routing_structure(case):
    g = case.geometry(large=True, kinds=geo.DISTANT)
    rng = case.rng
    z, nan = raw_dem(case)
    terms = pick_terminals(case)
    tkw, thr = threshold(case)
    kw = {}
    mins = np.flatnonzero(z == np.nanmin(z))
    if rng.random() < 0.1 and (~nan).sum() > 2:
        # several lowest cells: refused unless the check is switched off
        q = int(rng.choice(np.flatnonzero(~nan & (z > np.nanmin(z))))) if (z > np.nanmin(z)).any() else None
        if q is not None:
            z = z.copy()
            z[q] = np.nanmin(z)
            mins = np.flatnonzero(z == np.nanmin(z))
            try:
                import dany
                case.mon.call("FlowDirections", dany.FlowDirections, case.new_grid(), case.arr(z))
                case.check(False, "ambiguous-outlet-accepted", f"cells {mins[:4]} share the lowest elevation and were accepted")
            except Exception as e:
                case.check(isinstance(getattr(e, "exc", None), AssertionError), "ambiguous-outlet-error", f"several lowest cells: {e}")
            kw["check_elevations"] = False
            case.count("several_lowest_cells")
    fd = fd_object(case, z, **kw)
    if rng.random() < 0.3:
        directions(case, fd)                       # an earlier run on the same object
    f = directions(case, fd, **tkw, **terminal_arg(case, terms))
    case.check(f.dtype.kind in "iu", "dtype", f"flow directions of type {f.dtype}")
    adj = [set(a) for a in g.adj()]
    own = set(int(i) for i in mins) | set(terms) | set(int(i) for i in np.flatnonzero(nan))
    slopes = M.slope_table(g.adj(), z, g.wcenters, thr)
    nsink = 0
    for c in range(g.n):
        d = int(f[c])
        if c in own:
            ok = case.check(d == c, "outlet-not-self",
                            lambda: f"cell {c} (lowest={c in set(mins)}, terminal={c in terms}, nodata={bool(nan[c])}) flows to {d}")
        elif d == -2:
            nsink += 1
            s = slopes[c]
            lo = min(s.values()) if s else 0.0
            tied = sum(1 for v in s.values() if v <= lo + 1e-6 * abs(lo) + 1e-12)
            ok = case.check(not s or tied != 1 or _near_tie(s), "sink-without-flat",
                            lambda: f"cell {c} is marked as a sink although neighbour {min(s, key=s.get)} is uniquely steepest")
        else:
            ok = case.check(d in adj[c], "not-a-neighbour",
                            lambda: f"cell {c} flows to {d}, its neighbours are {sorted(adj[c])}") and \
                case.check(not nan[d], "into-nodata", lambda: f"cell {c} flows into nodata cell {d}")
        if not ok:
            break
    case.count("sinks", nsink)
    case.count("routed_cells", g.n - nsink - len(own))
    case.count("terminals", len(terms))
    case.nontrivial(z, terms, thr)


def _near_tie(s):
    v = sorted(s.values())
    return len(v) > 1 and v[1] - v[0] <= 1e-6 * abs(v[0]) + 1e-12


@prop("F02")
def steepest_neighbour(case):
    g = case.geometry(large=True, kinds=geo.DISTANT)
    z, nan = raw_dem(case, 0.15)
    terms = pick_terminals(case, 0.2)
    tkw, thr = threshold(case)
    fd = fd_object(case, z)
    f = usable_fdir(case, directions(case, fd, **tkw, **terminal_arg(case, terms)))
    own = set(np.flatnonzero(z == np.nanmin(z))) | set(terms) | set(np.flatnonzero(nan))
    slopes = M.slope_table(g.adj(), z, g.wcenters, thr)
    judged = down = 0
    for c in range(g.n):
        d = int(f[c])
        if c in own or d == -2 or not slopes[c]:
            continue
        if d not in slopes[c]:
            case.check(False, "not-a-neighbour", f"cell {c} flows to {d}")
            break
        lo = min(slopes[c].values())
        judged += 1
        down += lo < 0
        if not case.check(slopes[c][d] <= lo + 1e-6 * abs(lo) + 1e-11, "not-steepest",
                          lambda: f"cell {c} (z={z[c]!r}) flows to {d} with slope {slopes[c][d]!r}; "
                                  f"neighbour {min(slopes[c], key=slopes[c].get)} has slope {lo!r} (flatness threshold {thr})"):
            break
    case.count("cells_judged", judged)
    case.count("cells_with_downhill", down)
    if down:
        case.nontrivial(z, thr)


@prop("F03")
def drains_to_outlet(case):
    g = case.geometry(large=True)
    rng = case.rng
    terms = pick_terminals(case, 0.3)
    z, outlet, eps = conditioned(case, terms)
    end_to_end = rng.random() < 0.35 and not case.is_large
    case.count("conditioned_by:" + ("dany" if end_to_end else "model"))
    if end_to_end:
        import dany
        z0, k = geo.random_dem(rng, g)
        z0 = np.asarray(z0, float).copy()
        z0[outlet] = z0.min() - 0.5
        mask = np.zeros(g.n, int)
        mask[[outlet] + terms] = 1
        kw = {} if eps == 2e-6 else {"eps": eps}
        z = np.asarray(case.setup("fill_sinks", dany.fill_sinks, case.new_grid(), case.arr(z0),
                                  stream_mask=case.arr(mask), **kw)).ravel()
        low = [c for c in range(g.n) if c != outlet and c not in terms
               and not min(z[k] for k in g.adj()[c]) < z[c] - 1.0001e-6]
        if low or z.argmin() != outlet or (z == z.min()).sum() != 1:
            raise Skip("not conditioned")
    fd = fd_object(case, z)
    kw = {}
    if rng.random() < 0.3:
        kw["burn_threshold"] = float(case.pick([0.0, 1e-7, eps * 0.4]))
    f = directions(case, fd, **kw, **terminal_arg(case, terms))
    if f.shape != (g.n,):
        return
    case.check(not (f == -2).any(), "sink", lambda: f"cell {np.flatnonzero(f == -2)[0]} left undrained")
    end, loop = M.walk_state(f)
    ok = {outlet, *terms}
    bad = [c for c in range(g.n) if end[c] not in ok]
    case.check(not bad, "does-not-drain",
               lambda: f"water from cell {bad[0]} ends in {'a loop' if end[bad[0]] == -1 else 'a sink' if end[bad[0]] == -2 else 'cell %d' % end[bad[0]]}, outlets are {sorted(ok)}; path {_path(f, bad[0])}")
    if not bad:
        up = [c for c in range(g.n) if c not in ok and not z[f[c]] < z[c]]
        case.check(not up, "uphill", lambda: f"cell {up[0]} at {z[up[0]]!r} flows uphill to {f[up[0]]} at {z[f[up[0]]]!r}")
    case.count("paths_followed", g.n)
    case.count("outlets", len(ok))
    case.nontrivial(z, terms)


def _path(f, c, k=12):
    p = [int(c)]
    while len(p) < k and 0 <= f[p[-1]] < len(f) and f[p[-1]] != p[-1]:
        p.append(int(f[p[-1]]))
    return p


def flow_setup(case, p_raw=0.4, terminals=True):
    """flow direction object on a drained or on an arbitrary surface"""
    g, rng = case.g, case.rng
    if rng.random() < p_raw:
        terms = []
        z, nan = raw_dem(case, 0.25)
    else:
        terms = pick_terminals(case, 0.3) if terminals else []
        z, _, _ = conditioned(case, terms)
    fd = fd_object(case, z, judged=False)
    if rng.random() < 0.25:
        # the same object was used before with other terminal cells
        t2 = pick_terminals(case, 1.0)
        directions(case, fd, judged=False, terminal_cells=t2)
        case.setup("flow_accumulation", fd.flow_accumulation)
        case.setup("get_watershed_boundary", fd.get_watershed_boundary,
                   tuple(g.wcenters[int(rng.integers(g.n))]))
        case.count("object_reused")
    tkw = {}
    if rng.random() < 0.35:
        tkw["burn_threshold"] = float(case.pick([0.0, 1e-9, 1e-4, 0.05, 1.0]))
        case.count("other_flatness_threshold")
    f = usable_fdir(case, directions(case, fd, judged=False, **tkw, **terminal_arg(case, terms)))
    return fd, f, z, terms


@prop("F04")
def accumulation_conserves(case):
    g = case.geometry(large=True, kinds=geo.DISTANT)
    rng = case.rng
    fd, f, z, terms = flow_setup(case)
    idx = np.arange(g.n)
    # number of inflow paths, a cell draining to itself counts itself
    nid = np.asarray(case.call("get_nidp", fd.get_nidp)).ravel()
    ref = np.zeros(g.n, int)
    for d in f:
        if d >= 0:
            ref[d] += 1
    bad = np.flatnonzero(nid != ref)
    case.check(len(bad) == 0, "inflow-count", lambda: f"cell {bad[0]} reports {nid[bad[0]]} inflow paths, {ref[bad[0]]} cells drain to it")
    area = g.areas()
    mag = np.max(np.abs(g.wverts)) ** 2 * 1e-14 + 1e-9
    order = [True, False] if rng.random() < 0.5 else [False, True]
    for cells in order + ([order[0]] if rng.random() < 0.3 else []):
        w = np.ones(g.n) if cells else area
        a = np.asarray(case.call("flow_accumulation", fd.flow_accumulation, **({"as_cells": cells} if cells or rng.random() < 0.5 else {})))
        case.check(a.shape == case.shape, "shape", lambda: f"accumulation of shape {a.shape}")
        a = a.ravel().astype(float)
        r = M.upstream_sum(f, w)
        tol = 1e-9 * np.nansum(w) + (0 if cells else mag * g.n)
        b = np.flatnonzero(np.isfinite(r) & ~(np.abs(a - r) <= tol))
        case.check(len(b) == 0, "accumulation",
                   lambda: f"{'cells' if cells else 'area'}: cell {b[0]} accumulates {a[b[0]]!r}, its upstream total is {r[b[0]]!r}")
        end, loop = M.walk_state(f)
        if not loop.any():
            out = np.flatnonzero((f == idx) | (f < 0))
            case.check(abs(a[out].sum() - w.sum()) <= tol * 2, "not-conserved",
                       lambda: f"outlets and sinks collect {a[out].sum()!r} of {w.sum()!r}")
        st = np.asarray(fd.flow_accumulation_array).ravel()
        case.check(np.array_equal(st, a), "stored-accumulation", "flow_accumulation_array differs from the last result")
        case.count("loop_cells", loop.sum())
    case.count("confluences", (ref > 1).sum())
    if (ref > 1).any():
        case.nontrivial(z, f)


POINT_FORMS = ("tuple", "list", "array", "shapely", "flopy", "shapefile", "interior")


def pour_point(case, cell, forms=POINT_FORMS):
    """a point inside the cell, in one of the accepted forms"""
    g, rng = case.g, case.rng
    x, y = g.wcenters[cell]
    form = case.pick(list(forms))
    if g.inside and (form == "interior" or rng.random() < 0.3):
        # somewhere between the centre and a corner
        v = g.wverts[int(rng.choice(g.polys[cell]))]
        t = rng.uniform(0.05, 0.93)
        x, y = x + t * (v[0] - x), y + t * (v[1] - y)
    if form == "interior":
        form = "tuple"
    x, y = float(x), float(y)
    case.count("point:" + form)
    if form == "list":
        return [x, y]
    if form == "array":
        return np.array([x, y])
    if form == "shapely":
        from shapely.geometry import Point
        return Point(x, y)
    if form == "flopy":
        from flopy.utils.geometry import Point
        return Point(x, y)
    if form == "shapefile":
        import shapefile
        return shapefile.Shape(shapefile.POINT, points=[[x, y]])
    return (x, y)


COLLECTION_FORMS = ("tuple", "list", "array", "shapely", "flopy", "shapefile", "tuple", "list", "array", "shapely", "flopy",
                    "multipoint", "collection", "flopy-collection", "shapefile-path", "shapefile-reader", "series")


def pour_points(case, cells):
    """points in the given cells, in one of the accepted collection forms"""
    form = case.pick(COLLECTION_FORMS)
    if form in ("tuple", "list", "array", "shapely", "flopy", "shapefile"):
        pts = [pour_point(case, c, (form,)) for c in cells]
        if form == "array":
            return np.array(pts)
        return pts
    case.count("points:" + form)
    xy = [pour_point(case, c, ("tuple",)) for c in cells]
    if form == "multipoint":
        from shapely.geometry import MultiPoint
        return MultiPoint(xy)
    if form == "flopy-collection":
        from flopy.utils.geometry import Collection, Point
        return Collection([Point(*p) for p in xy])
    if form in ("collection", "series"):
        from shapely.geometry import GeometryCollection, Point
        pts = [Point(*p) for p in xy]
        if form == "collection":
            return GeometryCollection(pts)
        import geopandas
        return geopandas.GeoSeries(pts)
    import os
    import shapefile
    if case.tmp is None:
        import tempfile
        case.tmp = tempfile.TemporaryDirectory()
    p = os.path.join(case.tmp.name, f"points{len(os.listdir(case.tmp.name))}.shp")
    w = shapefile.Writer(p, shapeType=shapefile.POINT)
    w.field("id", "N")
    for i, q in enumerate(xy):
        w.point(*q)
        w.record(i)
    w.close()
    if form == "shapefile-path":
        if case.rng.random() < 0.5:
            import pathlib
            return pathlib.Path(p)
        return p
    return shapefile.Reader(p)


@prop("F05")
def watershed_is_upstream_set(case):
    g = case.geometry(large=True, kinds=geo.DISTANT)
    rng = case.rng
    fd, f, z, terms = flow_setup(case)
    acc = M.upstream_sum(f, np.ones(g.n))
    sizes = []
    for _ in range(3):
        r = rng.random()
        if r < 0.5:
            cell = int(rng.integers(g.n))
        else:
            p = np.nan_to_num(acc, nan=1.0)
            cell = int(rng.choice(g.n, p=p / p.sum()))
        pt = pour_point(case, cell)
        w = np.asarray(case.call("get_watershed_boundary", fd.get_watershed_boundary, pt))
        case.check(w.shape == case.shape, "shape", lambda: f"watershed of shape {w.shape}")
        w = w.ravel()
        ref = M.upstream_set(f, cell)
        got = set(np.flatnonzero(w))
        if not case.check(got == ref, "not-the-upstream-set",
                          lambda: f"pour point in cell {cell}: missing {sorted(ref - got)[:5]}, extra {sorted(got - ref)[:5]}"):
            break
        if not case.check(set(np.unique(w)) <= {0, 1}, "labels", lambda: f"watershed labels {np.unique(w)}"):
            break
        sizes.append(len(ref))
    case.count("watersheds", len(sizes))
    case.count("watershed_cells", sum(sizes))
    if max(sizes or [0]) > 1:
        case.nontrivial(f, sizes)
    if g.n <= 150 and rng.random() < 0.12:
        # a long session: the directions are calculated again and again
        cells = [int(c) for c in rng.integers(0, g.n, 2)] + [int(np.argmax(np.nan_to_num(acc)))]
        sets = [[], pick_terminals(case, 1.0), pick_terminals(case, 1.0), pick_terminals(case, 1.0)]
        for k in range(int(rng.integers(10, 45))):
            t = sets[int(rng.integers(4))]
            f = usable_fdir(case, directions(case, fd, judged=False, **terminal_arg(case, t)))
            cell = cells[int(rng.integers(3))]
            w = np.ravel(case.call("get_watershed_boundary", fd.get_watershed_boundary, tuple(float(v) for v in g.wcenters[cell])))
            ref = M.upstream_set(f, cell)
            got = set(np.flatnonzero(w))
            if not case.check(got == ref, "not-the-upstream-set",
                              lambda: f"recalculation {k + 1}, pour point in cell {cell}: missing {sorted(ref - got)[:5]}, extra {sorted(got - ref)[:5]}"):
                break
        case.count("recalculations", k + 1)


@prop("F06")
def subbasins_partition(case):
    many = case.idx % 250 == 3
    huge = case.idx % 1250 == 1103      # more outlets than three digits number
    if huge:
        r = case.rng
        size = r.integers(35, 50, 2)
        g = case.geometry(make=lambda: geo.structured(r.uniform(5, 20, size[0]), r.uniform(5, 20, size[1])))
        case.gtype, g.closed = "structured", False      # (flopy's point location is slow on the others)
        case.shape = geo.shape_of(g, case.gtype)
    elif many:
        g = case.geometry(size=400, kinds=("structured",))
    else:
        g = case.geometry(large=True, kinds=geo.DISTANT)
    rng = case.rng
    fd, f, z, terms = flow_setup(case)
    acc = np.nan_to_num(M.upstream_sum(f, np.ones(g.n)), nan=1.0)
    k = int(rng.integers(1, min(g.n, 9) + 1))
    r = rng.random()
    if r < 0.1:
        k = min(g.n, int(rng.integers(5, 40)))
    elif many:
        k = min(g.n, int(rng.integers(129, 300)))
    elif r < 0.12:
        k = g.n if case.gtype == "structured" or g.n < 500 else 150     # (flopy's point location is slow)
    elif case.gtype == "structured" and 1000 < g.n < 3000 and r < (0.9 if case.is_long else 0.3):
        k = int(rng.integers(g.n // 2, g.n))    # more outlets than three digits number
    if huge:
        k = int(rng.integers(1050, g.n))
    if rng.random() < 0.6:
        cells = rng.choice(g.n, k, replace=False, p=acc / acc.sum())
    else:
        cells = rng.choice(g.n, k, replace=False)
    cells = [int(c) for c in cells]
    if rng.random() < 0.25 and 0 not in cells:
        cells[int(rng.integers(k))] = 0
    if rng.random() < 0.2:
        c = int(np.argmax(acc))
        if c not in cells:
            cells[0] = c
    end, loop = M.walk_state(f)
    if huge:
        cells = [c for i, c in enumerate(cells) if not loop[c] or c == cells[0]]
    if loop[cells].sum() > 1:
        raise Skip("several outlets on one loop")
    twice = cells
    if rng.random() < 0.12:
        # gauges that fall into the same cell are one outlet
        twice = cells + [int(c) for c in rng.choice(cells, int(rng.integers(1, 3)))]
        twice = [twice[int(i)] for i in rng.permutation(len(twice))]
        case.count("outlet_cells_given_twice")
    pts = pour_points(case, twice)
    s = np.asarray(case.call("get_subbasins", fd.get_subbasins, pts))
    case.check(s.shape == case.shape, "shape", lambda: f"subbasins of shape {s.shape}")
    s = s.ravel()
    hit = np.zeros(g.n, bool)
    hit[cells] = True
    first = M.first_hit(f, hit)
    lab = {c: int(s[c]) for c in cells}
    case.check(sorted(lab.values()) == list(range(1, len(cells) + 1)), "outlet-labels",
               lambda: f"outlets carry labels {lab}")
    ref = np.array([0 if h < 0 else lab[h] for h in first])
    b = np.flatnonzero(s != ref)
    case.check(len(b) == 0, "wrong-subbasin",
               lambda: f"cell {b[0]} labelled {s[b[0]]}, the first outlet on its path is cell {first[b[0]]} (label {ref[b[0]]})")
    nested = 0
    for c in cells:
        d = int(f[c])
        if loop[c] or d < 0 or d == c:
            continue
        h = first[d]
        if h >= 0 and h != c:
            nested += 1
            case.check(lab[c] < lab[h], "label-order",
                       lambda: f"outlet cell {c} (label {lab[c]}) drains to outlet cell {h} (label {lab[h]})")
    case.count("outlets", len(cells))
    case.count("thousand_outlets", len(cells) > 1000)
    case.count("nested_outlets", nested)
    case.count("unlabelled_cells", (s == 0).sum())
    if nested:
        case.nontrivial(f, cells)


@prop("F07")
def slope_aspect_area(case):
    g = case.geometry(large=True, kinds=geo.DISTANT)
    fd, f, z, terms = flow_setup(case)
    cen = g.wcenters
    scale = float(np.max(np.abs(g.wverts)))
    a = np.asarray(case.call("area", lambda: fd.area)).ravel()
    ref = g.areas()
    b = np.flatnonzero(~(np.abs(a - ref) <= 1e-9 * ref + 4e-15 * scale ** 2))
    case.check(len(b) == 0, "area", lambda: f"cell {b[0]} has area {ref[b[0]]!r}, reported {a[b[0]]!r}")
    sl = np.asarray(case.call("slope", lambda: fd.slope))
    asp = np.asarray(case.call("aspect", lambda: fd.aspect))
    u, v = case.call("vectors", lambda: fd.vectors)
    case.check(sl.shape == case.shape and asp.shape == case.shape, "shape", lambda: f"slope {sl.shape} aspect {asp.shape}")
    sl, asp, u, v = (np.asarray(q, float).ravel() for q in (sl, asp, u, v))
    case.check(np.array_equal(np.asarray(fd.flow_direction_array).ravel(), f), "stored-directions", "flow_direction_array differs from the last result")
    case.check(np.array_equal(np.asarray(fd.dem).ravel(), z, equal_nan=True), "stored-dem", "dem differs from the input")
    idx = np.arange(g.n)
    to = np.where(f < 0, idx, f)
    n_away = 0
    for c in range(g.n):
        d = to[c]
        if d == c or np.isnan(z[c]) or np.isnan(z[d]):
            if d == c:
                case.check(sl[c] == 0, "outlet-slope", lambda: f"cell {c} drains to itself and has slope {sl[c]!r}")
            continue
        n_away += 1
        dx, dy = cen[d] - cen[c]
        dist = math.hypot(dx, dy)
        drop = z[c] - z[d]
        if abs(drop - 1e-6) < 1e-12:
            continue
        e = 0.0 if 0 < drop < 1e-6 else drop / dist
        rt = 1e-9 + 8e-16 * scale / dist
        if not case.check(abs(sl[c] - e) <= rt * abs(e) + 1e-300, "slope",
                          lambda: f"cell {c} drops {drop!r} over {dist!r} to cell {d}: slope {e!r}, reported {sl[c]!r}"):
            break
        t = math.degrees(math.atan2(dy, dx)) % 360
        dd = abs((asp[c] - t + 180) % 360 - 180)
        if not case.check(dd <= 1e-7 + 1e2 * rt and -1e-9 <= asp[c] <= 360 + 1e-9, "aspect",
                          lambda: f"cell {c} drains towards {t!r} degrees, reported {asp[c]!r}"):
            break
        if not case.check(math.hypot(u[c] - dx / dist, v[c] - dy / dist) <= 1e-8 + 10 * rt, "vectors",
                          lambda: f"cell {c} drains along {(dx / dist, dy / dist)}, reported {(u[c], v[c])}"):
            break
    case.check(np.all(np.abs(np.hypot(u, v) - 1) < 1e-9), "unit-vectors", "quiver vectors are not of unit length")
    case.count("cells_judged", n_away)
    if n_away:
        case.nontrivial(z, f)


@prop("F08")
def routed_length(case):
    g = case.geometry(large=True, kinds=geo.DISTANT)
    fd, f, z, terms = flow_setup(case)
    cen, ver = g.wcenters, g.wverts
    scale = float(np.max(np.abs(ver)))
    L = np.asarray(case.call("hru_len", lambda: fd.hru_len), float).ravel()
    if not case.check(L.shape == (g.n,), "shape", lambda: f"hru_len of shape {L.shape}"):
        return
    into = [[] for _ in range(g.n)]
    for c, d in enumerate(f):
        if d >= 0 and d != c:
            into[d].append(c)
    n = 0
    for c in range(g.n):
        d = int(f[c])
        if d < 0 or d == c:
            case.check(np.isfinite(L[c]) and L[c] >= 0, "outlet-length", lambda: f"cell {c}: length {L[c]!r}")
            continue
        pts = []
        for o in [d] + into[c]:
            sh = [i for i in g.polys[c] if i in set(g.polys[o])]
            pts.append(ver[sh].mean(axis=0))
        ref = 2 * np.mean(np.hypot(*(np.array(pts) - cen[c]).T))
        n += 1
        if not case.check(abs(L[c] - ref) <= 1e-9 * ref + 1e-14 * scale * 10, "length",
                          lambda: f"cell {c} -> {d}, inflow from {into[c]}: routed length {ref!r}, reported {L[c]!r}"):
            break
    case.count("cells_judged", n)
    if n:
        case.nontrivial(f)
