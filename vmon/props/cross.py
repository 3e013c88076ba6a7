"""G01, H01, H02: properties of whole pipelines - representation of the grid,
history of calls, termination and capacity."""
import copy
import math
import numpy as np
from . import prop, Skip, geo, M
from ..monitor import Monitor, CallFailed, digest, fresh_dany
from .flow import (conditioned, fd_object, directions, pick_terminals, unique_min,
                   raw_dem)


# -------------------------------------------------------------------- G01
def _tie_free(g, z, thr=1e-6):
    for s in M.slope_table(g.adj(), z, g.wcenters, thr):
        v = sorted(s.values())
        if len(v) > 1 and v[1] - v[0] <= 1e-7 * abs(v[0]) + 1e-10:
            return False
    return True


def _variant(case, g):
    """the same terrain described by another grid object: (geo, gtype, perm, turned)"""
    rng = case.rng
    h = copy.copy(g)
    h._adj = None
    perm = np.arange(g.n)
    what = []
    if rng.random() < 0.55:
        perm = rng.permutation(g.n)
        h = g.permute(perm)
        what.append("renumbered")
    if h.struct is None and rng.random() < 0.3:
        h = h.relabel(rng)
        what.append("vertices")
    if rng.random() < 0.4:
        h.xoff, h.yoff = float(rng.integers(-9000, 90000)), float(rng.integers(-9000, 90000))
        what.append("moved")
    turn = 0.0
    if rng.random() < 0.4:
        turn = float(case.pick([90.0, 33.0, -71.5, 180.0]))
        h.angrot = g.angrot + turn
        what.append("rotated")
    h.closed = bool(rng.random() < 0.5) if h.struct is None else False
    if rng.random() < 0.3:
        h.nlay = int(rng.integers(1, 4))
        what.append("layers")
    h.bare = bool(rng.random() < 0.1)
    gt = case.pick(geo.gtypes(h))
    if gt != case.gtype:
        what.append(case.gtype + "->" + gt)
    return h, gt, perm, turn, what


class _Side:
    """one grid object with the same call sequence run on it; results per cell in
    the numbering of the original grid"""

    def __init__(self, case, g, gtype, perm):
        self.case, self.g, self.gt, self.perm = case, g, gtype, np.asarray(perm)
        self.inv = np.argsort(self.perm)
        self.shape = geo.shape_of(g, gtype)

    def arr(self, a):
        return np.asarray(a)[self.perm].reshape(self.shape)

    def back(self, a):
        a = np.asarray(a)
        return a.reshape(-1)[self.inv]

    def ids(self, a):
        """per-cell cell numbers, in the original numbering"""
        a = self.back(a).astype(int)
        return np.where(a >= 0, self.perm[np.maximum(a, 0)], a)

    def point(self, cell):
        return tuple(float(v) for v in self.g.wcenters[self.inv[cell]])


@prop("G01")
def representation(case):
    import dany
    rng = case.rng
    g = case.geometry()
    g.closed = False
    kind = case.pick(["noise", "plane", "cone", "bowl", "valley", "ridges", "survey"])
    z, outlet, eps = conditioned(case, kind=kind)
    own_streams = rng.random(g.n) < rng.choice([0.2, 0.5]) if rng.random() < 0.35 else None
    z0, _ = geo.random_dem(rng, g)
    z0 = np.asarray(z0, float)
    nan = rng.random(g.n) < 0.15
    zn = np.where(nan, np.nan, z0)
    h, gt, perm, turn, what = _variant(case, g)
    case.desc.update(variant=what, other=gt)
    for w in what or ["same"]:
        case.count("variant:" + w)
    A, B = _Side(case, g, case.gtype, np.arange(g.n)), _Side(case, h, gt, perm)
    scale = float(max(np.abs(g.wverts).max(), np.abs(h.wverts).max()))

    def both(key, fn, tol=None, msg="", atol=0.0):
        a, b = (fn(s) for s in (A, B))
        if tol is None:
            ok = a == b if not isinstance(a, np.ndarray) else np.array_equal(a, b)
        else:
            ok = a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol * 1e-3 + 1e-300 + atol, equal_nan=True))
        where = ""
        if not ok and isinstance(a, np.ndarray) and a.shape == b.shape:
            q = np.flatnonzero(~np.isclose(a.astype(float), b.astype(float), rtol=tol or 0, atol=0, equal_nan=True))
            where = f"cell {q[0]}: {a[q[0]]!r} and {b[q[0]]!r}" if len(q) else ""
        case.count("comparisons")
        return case.check(ok, key, lambda: f"{key} differs between the {case.gtype} grid and its {what} {gt} twin {where} {msg}")

    # conditioning
    m = case.pick(["complete", "drain"])
    e = {"eps": float(case.pick([1e-5, 1e-3]))} if rng.random() < 0.5 else {}
    both("fill:" + m, lambda s: s.back(case.call("fill_sinks", dany.fill_sinks, s.g.grid(s.gt), s.arr(z0), method=m, **e)), 1e-12)
    mask = np.zeros(g.n, int)
    mask[int(rng.integers(g.n))] = 1
    both("fill:complete+streams", lambda s: s.back(case.call(
        "fill_sinks", dany.fill_sinks, s.g.grid(s.gt), s.arr(z0), method="complete", stream_mask=s.arr(mask))))
    if "renumbered" not in what and not nan.all():
        # the order in which missing cells are visited follows their numbers
        st = case.pick(["mean", "median", "min", "max"])
        both("fill_nan", lambda s: s.back(case.call("fill_nan_values", dany.fill_nan_values, s.g.grid(s.gt), s.arr(zn), method=st)), 1e-12)
    # routing
    if not _tie_free(g, z):
        raise Skip("ties")
    grids = {}

    def build(s):
        grids[s] = s.g.grid(s.gt)
        s.fd = case.call("FlowDirections", dany.FlowDirections, grids[s], s.arr(z))
        return s.ids(case.call("flow_directions", s.fd.flow_directions))
    if not both("flow_directions", build):
        return
    f = A.ids(A.fd.flow_direction_array)
    if (f < 0).any() or M.walk_state(f)[1].any():
        raise Skip("does not drain")
    atol = 1e-9 + 1e-14 * scale ** 2 / max(g.areas().min(), 1e-9)
    both("area", lambda s: s.back(case.call("area", lambda: s.fd.area)), atol)
    cells = bool(rng.random() < 0.5)
    if not both("accumulation", lambda s: s.back(case.call("flow_accumulation", s.fd.flow_accumulation, as_cells=cells)), None if cells else atol * 10):
        return
    lt = 1e-8 + 1e-13 * scale / max(math.sqrt(g.areas().min()), 1e-6)
    both("slope", lambda s: s.back(case.call("slope", lambda: s.fd.slope)), lt)
    both("routed length", lambda s: s.back(case.call("hru_len", lambda: s.fd.hru_len)), lt * 10, atol=1e-14 * scale)
    asp = [np.radians(s.back(case.call("aspect", lambda: s.fd.aspect))) for s in (A, B)]
    run = f != np.arange(g.n)
    d = asp[1] - asp[0] - math.radians(turn)
    off = np.abs(np.angle(np.exp(1j * d)))[run]
    case.check((off <= 1e-6 + lt * 10).all(), "aspect", lambda: f"aspect does not turn with the grid ({what}): off by {math.degrees(off.max())} degrees")
    # watersheds
    acc = M.upstream_sum(f, np.ones(g.n))
    cell = int(rng.choice(g.n, p=acc / acc.sum()))
    both("watershed", lambda s: s.back(case.call("get_watershed_boundary", s.fd.get_watershed_boundary, s.point(cell))) != 0)
    outs = [int(c) for c in rng.choice(g.n, min(g.n, int(rng.integers(1, 5))), replace=False, p=acc / acc.sum())]

    def basins(s):
        b = s.back(case.call("get_subbasins", s.fd.get_subbasins, [s.point(c) for c in outs]))
        lab = {int(b[c]): c for c in outs}
        return np.array([lab.get(int(v), -1) for v in b])
    both("subbasins", basins)
    # streams
    w = acc if cells else M.upstream_sum(f, g.areas())
    srt = np.unique(w)
    # a threshold well between two accumulation values, clear of rounding
    # (areas of rotated polygons far from the origin are off by up to atol each)
    off = 0.0 if cells else 4 * atol * g.n
    gaps = [0.5 * (p + q) for p, q in zip([0.0, *srt[:-1]], srt) if q - p > 1e-5 * q + off]
    if not gaps:
        raise Skip("areas within rounding of each other")
    thr = float(case.pick(gaps))
    cls = case.pick([dany.Sfr6, dany.Sfr2005, dany.PrmsStreams])

    def streams(s):
        s.obj = case.call(cls.__name__, cls, grids[s], s.fd)
        if own_streams is not None:
            case.call("set_stream_array", s.obj.set_stream_array, s.arr(own_streams.astype(int)))
            return s.back(s.obj.stream_array) != 0
        return s.back(case.call("delineate_streams", s.obj.delineate_streams, thr)) != 0
    if not both("streams", streams):
        return
    mask = A.back(A.obj.stream_array) != 0
    if not mask.any():
        raise Skip("no streams")

    def network(s):
        """downstream reach/segment of every stream cell, as sets of cells"""
        gr = case.call("get_stream_connectivity", s.obj.get_stream_connectivity)
        a = s.back(s.obj.stream_array)
        mem = {}
        for c in np.flatnonzero(a):
            mem.setdefault(int(a[c]), set()).add(int(c))
        own = {k: frozenset(v) for k, v in mem.items()}
        return {own[k]: (None if gr[k] in (0, k) else own[int(gr[k])]) for k in own}
    both("stream network", network)
    if cls is dany.Sfr2005:
        def runoff(s):
            r = s.back(case.call("irunbnd", s.obj.irunbnd))
            a = s.back(s.obj.stream_array)
            first = M.first_hit(f, a != 0)
            return np.array([(-1 if v == 0 else int(v == a[first[c]]) if first[c] >= 0 else -2) for c, v in enumerate(r)])
        both("runoff segments", runoff)
    elif cls is dany.PrmsStreams:
        m2m = bool(rng.random() < 0.6)
        both("cascades", lambda s: {(int(s.perm[u - 1]), int(s.perm[d - 1])) for u, d in
                                    zip(*case.call("get_cascades", s.obj.get_cascades, many2many=m2m)[:2])}
             if not (m2m and _near_one_percent(g, z)) else None)
    else:
        both("reach lengths", lambda s: _by_cell(case, s), 1e-7 + lt * 10)
    if not what:
        return
    case.nontrivial(z, what, gt)


def _near_one_percent(g, z):
    for s in M.slope_table(g.adj(), z, g.wcenters, 1e-6):
        v = [-q for q in s.values() if q < 0]
        if v and any(abs(q / sum(v) - 0.01) < 1e-7 for q in v):
            return True
    return False


def _by_cell(case, s):
    p = case.call("packagedata", s.obj.packagedata)
    a = s.back(s.obj.stream_array)
    out = np.zeros((len(a), 3))
    for c in np.flatnonzero(a):
        r = p[int(a[c]) - 1]
        out[c] = (r["rgrd"], r["rtp"], r["ncon"])
        d = s.ids(s.fd.flow_direction_array)[c]
        if d != c and a[d]:
            out[c, 0] += r["rlen"]
    return out.ravel()


# -------------------------------------------------------------------- H01
def values(x):
    """content digest that does not see the number type (1 and 1.0 are equal)"""
    def plain(x):
        if isinstance(x, np.ndarray):
            if x.dtype.names:
                return [[n, plain(np.asarray(x[n]))] for n in x.dtype.names]
            return x.astype(float) if x.dtype.kind in "biuf" else [plain(v) for v in x.tolist()]
        if isinstance(x, dict):
            return [[plain(k), plain(v)] for k, v in x.items()]
        if isinstance(x, (list, tuple)):
            return [plain(v) for v in x]
        if isinstance(x, (bool, int, float, np.number, np.bool_)):
            return float(x)
        return repr(x)
    return digest(plain(x))


class _Watch:
    """arrays handed to dany: their content must survive every call"""

    def __init__(self, case):
        self.case, self.items, self.results = case, [], []

    def add(self, name, x):
        self.items.append((name, x, digest(x)))
        return x

    def kept(self, name, x):
        if isinstance(x, (np.ndarray, dict, list, tuple)):
            self.results.append((name, x, digest(x)))

    def verify(self, after):
        for name, x, d in self.items:
            if not self.case.check(digest(x) == d, "input-modified", lambda: f"{name} handed in was modified by {after}"):
                return False
        for name, x, d in self.results:
            if not self.case.check(digest(x) == d, "earlier-result-modified", lambda: f"result of an earlier {name} was modified by {after}"):
                return False
        return True


def _grid_state(m):
    return digest([np.asarray(m.xcellcenters), np.asarray(m.ycellcenters), [list(i) for i in m.iverts],
                   np.asarray(m.verts), np.asarray(m.botm), np.asarray(m.idomain)])


def _neighbour_table(case, grid):
    """the table the caller's grid answers with is one of its own, whatever was done with the grid"""
    t = {k: [int(v) for v in w] for k, w in grid.neighbors().items()}
    own = [case.g.grid(case.gtype).neighbors(method=m, reset=True) for m in ("queen", "rook")]
    case.check(any(t.keys() == o.keys() and all(sorted(t[k]) == sorted(o[k]) for k in t) for o in own), "grid-modified",
               lambda: f"the neighbour table of the grid is neither its queen nor its rook table: cell 0 has {t.get(0)}")


class _OtherBasin:
    """work on another grid of the same kind and number of cells in the same session;
    whatever dany keeps of it must not show up in the results of the case"""

    def __init__(self, case, z):
        import dany
        self.case, self.z, self.fd, self.dany = case, np.asarray(z, float), None, dany
        g, rng = case.g, case.rng
        k = rng.uniform(0.4, 2.5, 2)
        if case.gtype == "structured":
            delr, delc = (np.asarray(v, float) for v in g.struct)
            if rng.random() < 0.3 and g.nlay == 1:
                self.geo = geo.structured(np.full(len(delc), 3.0), np.full(len(delr), 7.0))     # the other way round
            else:
                self.geo = geo.structured(rng.permutation(delr) * k[0], rng.permutation(delc) * k[1])
        else:
            self.geo = geo.Geo(g.verts * k, g.polys, g.centers * k, g.kind)
            if rng.random() < 0.5:
                self.geo = self.geo.permute(rng.permutation(g.n))
        self.geo.nlay = g.nlay
        self.grid = self.geo.grid(case.gtype)
        self.shape = geo.shape_of(self.geo, case.gtype)
        case.count("other_basins")

    def arr(self, a):
        return np.asarray(a).ravel().reshape(self.shape)

    def condition(self, fn, raw):
        try:
            self.case.mon.call("other basin", fn, self.grid, self.dany, self.arr(raw))
        except CallFailed:
            pass        # (a stream mask of the other shape, no way out ...)

    def route(self, configs, reads):
        rng = self.case.rng
        z = self.z if rng.random() < 0.5 else rng.permutation(self.z)
        try:
            self.fd = self.case.mon.call("other basin", self.dany.FlowDirections, self.grid, self.arr(z))
            t = configs[int(rng.integers(len(configs)))]
            flat = [c for c in t if not isinstance(c, (list, tuple))]
            self.case.mon.call("other basin", self.fd.flow_directions, **({"terminal_cells": flat} if flat else {}))
            for name in ("accumulation:cells", "accumulation:area", *rng.choice(sorted(reads), 3)):
                if "watershed" in name or name == "subbasins":
                    # at a point of its own
                    c = tuple(float(v) for v in self.geo.wcenters[int(rng.integers(self.geo.n))])
                    loops = M.walk_state(np.ravel(self.fd.flow_direction_array).astype(int))[1].any()
                    if name != "subbasins":
                        self.case.mon.call("other basin", self.fd.get_watershed_boundary, c)
                    elif not loops:
                        self.case.mon.call("other basin", self.fd.get_subbasins, [c])
                else:
                    self.case.mon.call("other basin", reads[str(name)], self.fd)
        except CallFailed:
            self.fd = None

    def streams(self, cls, ops):
        rng = self.case.rng
        if self.fd is None or not streams_ok(self.fd):
            return
        try:
            o = self.case.mon.call("other basin", cls, self.grid, self.fd)
            mask = (rng.random(self.geo.n) < 0.3).astype(int)
            mask[int(rng.integers(self.geo.n))] = 1
            self.case.mon.call("other basin", o.set_stream_array, self.arr(mask))
            for name in rng.choice(sorted(ops), 2):
                if not any(k in name for k in ("given", "elsewhere", "argument", "basin", "points")):
                    self.case.mon.call("other basin", ops[str(name)], o)
        except CallFailed:
            pass


@prop("H01")
def history(case):
    import dany
    rng = case.rng
    g = case.geometry(size=case.size(45, 120, 250))
    watch = _Watch(case)
    if rng.random() < 0.3:
        z, _ = raw_dem(case, 0.2)
        streams = False
    else:
        z, outlet, eps = conditioned(case)
        streams = True
    dem = watch.add("elevations", case.arr(z))
    grid = case.new_grid(np.where(np.isfinite(z), z, 0.0))
    g0 = _grid_state(grid)
    fresh_grid = lambda: g.grid(case.gtype)
    log = []

    def same(name, got, ref):
        log.append(name)
        case.count("histories_compared")
        ok = case.check(values(got) == values(ref), "history-dependent",
                        lambda: f"{name} after {log[:-1][-8:]} gives a result a fresh object does not give")
        watch.kept(name, got)
        return watch.verify(name) and ok

    # conditioning: twice on the same grid, and on a grid used for other things
    zz, _ = geo.random_dem(rng, g)
    raw = watch.add("raw elevations", case.arr(np.asarray(zz, case.pick([float, np.float32]))))
    nanz = np.asarray(zz, float).copy()
    nanz[rng.random(g.n) < 0.2] = np.nan
    nanz = watch.add("elevations with missing values", case.arr(nanz))
    mask = watch.add("stream mask", case.arr((rng.random(g.n) < 0.1).astype(int)))
    cond = {
        "fill_sinks:priority": lambda m, D=dany, raw=raw: D.fill_sinks(m, raw),
        "fill_sinks:complete": lambda m, D=dany, raw=raw: D.fill_sinks(m, raw, method="complete"),
        "fill_sinks:drain": lambda m, D=dany, raw=raw: D.fill_sinks(m, raw, method="drain"),
        "fill_nan_values": lambda m, D=dany, raw=nanz: D.fill_nan_values(m, raw, method="median"),
    }
    if np.any(mask):
        cond["fill_sinks:streams"] = lambda m, D=dany, raw=raw: D.fill_sinks(m, raw, stream_mask=mask)
    chosen = [str(k) for k in rng.choice(sorted(cond), 2)]
    # other work of the same session: another basin of the same size ...
    basin2 = _OtherBasin(case, z)
    if rng.random() < 0.5:
        for name in chosen:
            basin2.condition(cond[name], raw)
        log.append("other basin conditioned")
    for name in chosen:
        if rng.random() < 0.3:
            # ... or other elevations on the same grid
            r2 = np.asarray(nanz if name == "fill_nan_values" else raw).ravel()
            case.call(name, cond[name], grid, dany, case.arr(r2[rng.permutation(g.n)]))
            log.append(name + " of other elevations")
        # (the reference: a fresh grid in a session that has just started)
        if not same(name, case.call(name, cond[name], grid), case.call(name, cond[name], fresh_grid(), fresh_dany())):
            return

    # flow directions: a random sequence on one object against fresh objects
    configs = [[], pick_terminals(case, 1.0), pick_terminals(case, 1.0)]
    for t in configs:
        watch.add("terminal cells", t)
    watch.add("terminal cells", configs)
    # ... each with its own flatness threshold
    thrs = [None, case.pick([None, 1e-3, 0.7]), case.pick([None, 0.0, 1.5])]

    def route(fd, i):
        kw = {} if thrs[i] is None else {"burn_threshold": thrs[i]}
        if configs[i]:
            kw["terminal_cells"] = configs[i]
        return fd.flow_directions(**kw)
    pts = [tuple(float(v) for v in g.wcenters[int(c)]) for c in rng.integers(0, g.n, 3 if rng.random() < 0.7 else 9)]
    far = list(dict.fromkeys(pts))
    if rng.random() < 0.25:
        far = [list(p) for p in far]
    watch.add("points", far)

    def make(m, cfg, cells, D=dany):
        fd = D.FlowDirections(m, dem)
        route(fd, cfg)
        if cells is not None:
            fd.flow_accumulation(as_cells=cells)
        return fd
    reads = {
        "flow_direction_array": lambda fd: fd.flow_direction_array,
        "get_nidp": lambda fd: fd.get_nidp(),
        "watershed": lambda fd: fd.get_watershed_boundary(pts[0]),
        "watershed2": lambda fd: fd.get_watershed_boundary(pts[1]),
        "subbasins": lambda fd: fd.get_subbasins(far),
        "slope": lambda fd: fd.slope, "aspect": lambda fd: fd.aspect, "vectors": lambda fd: fd.vectors,
        "hru_len": lambda fd: fd.hru_len, "area": lambda fd: fd.area, "dem": lambda fd: fd.dem,
        "accumulation:cells": lambda fd: fd.flow_accumulation(as_cells=True),
        "accumulation:area": lambda fd: fd.flow_accumulation(),
    }
    if rng.random() < 0.5:
        basin2.route(configs, reads)
        log.append("other basin routed")
    fd = case.call("FlowDirections", dany.FlowDirections, grid, dem)
    cfg = None
    ref_fd = None
    loops = False
    session = rng.random() < 0.03       # a long session
    case.count("long_sessions", session)
    for _ in range(int(rng.integers(30, 60) if session else rng.integers(5, 10))):
        if cfg is None or rng.random() < 0.35 + 0.15 * session:
            cfg = int(rng.integers(3))
            got = case.call("flow_directions", route, fd, cfg)
            ref_fd = case.call("flow_directions", make, fresh_grid(), cfg, None, fresh_dany())
            loops = bool(M.walk_state(np.ravel(got).astype(int))[1].any())
            if not same("flow_directions", got, ref_fd.flow_direction_array):
                return
            continue
        name = str(case.pick(sorted(reads)))
        if loops and name == "subbasins":
            continue
        got = case.call(name, reads[name], fd)
        # a fresh object for the reference, so that it has no history either
        ref = case.call(name, lambda: reads[name](make(fresh_grid(), cfg, None, fresh_dany())))
        if not same(name, got, ref):
            return
        if name.startswith("accumulation"):
            case.check(np.array_equal(fd.flow_accumulation_array, got), "stored-accumulation", "flow_accumulation_array is not the last result")
    case.check(_grid_state(grid) == g0, "grid-modified", "the geometry of the grid object was modified")
    _neighbour_table(case, grid)
    case.count("history_length", len(log))
    if not streams or loops or not streams_ok(fd):
        case.nontrivial(z, log)
        return

    # streams: a random sequence on one object against fresh objects
    cells = bool(rng.random() < 0.5)
    acc = np.asarray(case.call("flow_accumulation", fd.flow_accumulation, as_cells=cells)).ravel().copy()
    cls = case.pick([dany.Sfr6, dany.Sfr2005, dany.PrmsStreams])
    basin = np.zeros(g.n, int)
    f = np.ravel(fd.flow_direction_array).astype(int)
    basin[sorted(M.upstream_set(f, int(rng.choice(g.n, p=np.maximum(acc, 1e-12) / np.maximum(acc, 1e-12).sum()))))] = 1
    basin = basin.astype(case.pick([int, int, bool, float]))
    if basin.dtype == float and rng.random() < 0.6:
        basin[rng.random(g.n) < 0.3] = np.nan       # (whatever that means, the array stays the caller's)
    elif basin.dtype == int and rng.random() < 0.3:
        basin *= rng.integers(1, 5, g.n)
    basin = watch.add("basin boundary", case.arr(basin))
    full = watch.add("basin boundary", case.arr(np.ones(g.n, int)))
    user = np.zeros(g.n, int)
    user[rng.random(g.n) < 0.3] = 1
    user[int(rng.integers(g.n))] = 1
    user = watch.add("stream array", case.arr(user.astype(case.pick([int, bool, float]))))
    # ... and as many stream cells elsewhere
    moved = np.ravel(user)[rng.permutation(g.n)] if rng.random() < 0.5 else np.roll(np.ravel(user), 1)
    moved = watch.add("stream array", case.arr(moved))
    blank = np.where(np.ravel(user) != 0, 1.0, np.where(rng.random(g.n) < 0.5, np.nan, 0.0))
    blank = watch.add("stream array with missing values", case.arr(blank))
    tarr = watch.add("threshold array", case.arr(rng.choice(acc, g.n)))
    lo, hi = float(np.quantile(acc, 0.5)), float(np.quantile(acc, 0.9))
    sources = {
        "delineate:low": lambda o: o.delineate_streams(lo),
        "delineate:high": lambda o: o.delineate_streams(hi),
        "delineate:basin": lambda o: o.delineate_streams(lo, basin_boundary=basin),
        "delineate:array": lambda o: o.delineate_streams(tarr),
        "set": lambda o: o.set_stream_array(user),
        "moved": lambda o: o.set_stream_array(moved),
    }

    def conn(o, gr):
        return o.get_stream_connectivity() if cls is dany.Sfr6 else o.get_stream_connectivity(group_segments=gr)

    def seq(*steps, numbered=True):
        def run(o):
            out = [s(o) for s in steps]
            if numbered:
                out.append(np.asarray(o.stream_array))
            return out
        return run
    ops = {}
    for gr in ((None,) if cls is dany.Sfr6 else (True, False)):
        ops[f"connectivity:{gr}"] = seq(lambda o, gr=gr: conn(o, gr))
        more = () if gr is None else (gr,)
        ops[f"connectivity:given:{gr}"] = seq(lambda o, more=more: o.get_stream_connectivity(user, *more))
        ops[f"connectivity:elsewhere:{gr}"] = seq(lambda o, more=more: o.get_stream_connectivity(moved, *more))
        if cls is dany.Sfr2005:
            ops[f"segment_data:{gr}"] = seq(lambda o, gr=gr: conn(o, gr), lambda o: o.segment_data())
            ops[f"irunbnd:{gr}"] = seq(lambda o, gr=gr: conn(o, gr), lambda o: o.irunbnd())
            ops[f"argument:{gr}"] = seq(lambda o, gr=gr: o.get_stream_connectivity(user, gr), lambda o: o.irunbnd(user))
            if case.gtype == "structured":
                ops[f"reach_data:{gr}"] = seq(lambda o, gr=gr: conn(o, gr), lambda o: o.reach_data())
        if cls is dany.PrmsStreams:
            ops[f"cascades:{gr}"] = seq(lambda o, gr=gr: conn(o, gr), lambda o: o.get_cascades())
            ops[f"cascades:basin:{gr}"] = seq(lambda o, gr=gr: conn(o, gr), lambda o: o.get_cascades(basin_boundary=basin))
            ops[f"cascades:many:{gr}"] = seq(lambda o, gr=gr: conn(o, gr), lambda o: o.get_cascades(many2many=True))
            ops[f"cascades:many:basin:{gr}"] = seq(lambda o, gr=gr: conn(o, gr), lambda o: o.get_cascades(many2many=True, basin_boundary=basin))
            ops[f"cascades:given:{gr}"] = seq(lambda o, gr=gr: o.get_stream_connectivity(user, gr), lambda o: o.get_cascades(user, full))
    for gr in (True, False):
        ops[f"vectors:given:{gr}"] = seq(lambda o, gr=gr: o.create_stream_vectors(blank, group_segments=gr))
        ops[f"vectors:{gr}"] = seq(lambda o, gr=gr: o.create_stream_vectors(group_segments=gr))
    if cls is dany.Sfr6:
        ops["packagedata"] = seq(lambda o: o.packagedata(), lambda o: o.connectiondata())
        ops["connectiondata"] = seq(lambda o: o.connectiondata(), lambda o: o.packagedata(detuple=True))
        ops["packagedata:given"] = seq(lambda o: o.packagedata(user), lambda o: o.connectiondata())
        pair = watch.add("graph", {1: 2, 2: 0})
        ops["connectiondata:given"] = seq(lambda o: o.connectiondata(pair), numbered=False)
    ops["control points"] = seq(lambda o: o.threshold_from_control_points(far, threshold=hi), numbered=False)
    ops["control points:2"] = seq(lambda o: o.threshold_from_control_points(far[:1], threshold=lo), numbered=False)
    ops["control points:default"] = seq(lambda o: o.threshold_from_control_points(far[-1:]), numbered=False)

    def other_user():
        """somebody else asks the shared grid object for neighbours of another kind"""
        if case.pick([True, False]):
            grid.neighbors(method="rook", reset=True)
        else:
            grid.neighbors(int(rng.integers(g.n)), method="rook", reset=True)
        log.append("rook neighbours of the grid")
        case.count("rook_neighbour_queries")
    if rng.random() < 0.15:
        other_user()
    if rng.random() < 0.5:
        basin2.streams(cls, ops)
        log.append("streams of another basin")
    obj = case.call(cls.__name__, cls, grid, fd)
    cur = None
    for _ in range(int(rng.integers(20, 40) if session else rng.integers(4, 9))):
        if rng.random() < 0.12:
            other_user()
        if cur is None or rng.random() < 0.3:
            src = str(case.pick(sorted(sources)))
            got = case.call(src, sources[src], obj)
            m = np.asarray(obj.stream_array) != 0
            cur = src
            log.append(src)
            watch.kept(src, np.asarray(got) if got is not None else None)
            if not watch.verify(src):
                return
            if not m.any():
                cur = None
            continue
        if rng.random() < 0.12:
            # another project on the same grid object: other elevations, other streams
            def project():
                z2 = z.copy()
                z2[rng.random(g.n) < 0.5] += 3.0
                z2[int(rng.integers(g.n))] = float(z.min()) - 2.0
                fd2 = dany.FlowDirections(grid, case.arr(z2))
                fd2.flow_directions()
                fd2.flow_accumulation(as_cells=True)
                o2 = case.pick([dany.Sfr6, dany.Sfr2005, dany.PrmsStreams])(grid, fd2)
                o2.delineate_streams(2)
                return o2.get_stream_connectivity()
            case.call("other project", project)
            log.append("other project")
            case.count("other_projects")
            continue
        if cls is not dany.PrmsStreams and rng.random() < 0.12:
            # the stream object stays with the directions it was made from
            case.call("flow_directions", route, fd, int(rng.integers(3)))
            if rng.random() < 0.6:
                case.call("flow_accumulation", fd.flow_accumulation, as_cells=bool(rng.random() < 0.5))
            log.append("other flow directions")
            case.count("directions_replaced")
            continue
        if rng.random() < 0.15:
            # reading the terrain in between must not disturb anything
            name = str(case.pick(["watershed", "slope", "hru_len", "get_nidp"]))
            case.call(name, reads[name], fd)
            log.append(name)
            continue
        name = str(case.pick(sorted(ops)))
        got = case.call(name, ops[name], obj)
        gives_own = ("given" in name or "argument" in name) and name != "connectiondata:given"

        def reference():
            m2 = fresh_grid()
            new = fresh_dany()
            o2 = getattr(new, cls.__name__)(m2, make(m2, cfg, cells, new))
            sources["set" if cur == "argument" else cur](o2)
            return ops[name](o2)
        ref = case.call(name, reference)
        if not same(name, got, ref):
            return
        if gives_own:
            cur = "set"     # the array that was passed is now the stream network
        elif "elsewhere" in name:
            cur = "moved"
    case.check(_grid_state(grid) == g0, "grid-modified", "the geometry of the grid object was modified")
    case.count("stream_histories")
    case.count("history_length", len(log))
    case.nontrivial(z, log)


def streams_ok(fd):
    f = np.ravel(fd.flow_direction_array).astype(int)
    return not (f < 0).any() and not M.walk_state(f)[1].any()


# -------------------------------------------------------------------- H02
def _hostile_dem(case, g):
    rng = case.rng
    k = case.pick(["flat", "two-level", "checker", "islands", "staircase", "plateau", "all-nan", "moat", "spiral", "sentinel", "raw", "raw"])
    n = g.n
    nan = np.zeros(n, bool)
    x = g.centers[:, 0]
    if k == "flat":
        z = np.full(n, 7.0)
    elif k == "two-level":
        z = (rng.random(n) < 0.5).astype(float)
    elif k == "checker":
        z = np.arange(n) % 2 * 1.0
    elif k == "islands":
        z = np.full(n, 3.0)
        nan = rng.random(n) < 0.5
    elif k == "staircase":
        z = np.floor(8 * (x - x.min()) / max(np.ptp(x), 1.0))
    elif k == "plateau":
        c = g.centers.mean(axis=0)
        d = np.hypot(*(g.centers - c).T)
        z = np.where(d < np.median(d), 10.0, 5.0)
    elif k == "all-nan":
        z = np.zeros(n)
        nan[:] = True
    elif k == "moat":
        z = np.full(n, 9.0)
        z[g.edges()] = 20.0
        z[rng.integers(0, n, max(1, n // 10))] = 1.0
    elif k == "raw":
        # pits and circular directions
        z = np.asarray(geo.random_dem(rng, g)[0], float)
        if rng.random() < 0.3:
            nan = rng.random(n) < 0.2
    elif k == "spiral":
        z = np.argsort(np.argsort(np.arctan2(*(g.centers - g.centers.mean(axis=0)).T))).astype(float)
    else:
        z = np.round(rng.random(n) * 4)
        z[rng.random(n) < 0.3] = -9999.0
    return np.where(nan, np.nan, z), nan, k


@prop("H02")
def finishes(case):
    import dany
    rng = case.rng
    long_ = case.idx % (60 if case.tier == "quick" else 40) == 0
    if long_:
        return _long(case)
    g = case.geometry(size=case.size(50, 110, 220), kinds=geo.DISTANT)
    z, nan, k = _hostile_dem(case, g)
    case.desc.update(dem=k)
    case.count("hostile:" + k)
    case.sig = digest([z, case.gtype])
    a = case.arr(z)
    case.call("fill_nan_values", dany.fill_nan_values, case.new_grid(), a, method=str(case.pick(["mean", "median", "min", "max"])))
    if nan.all():
        return
    solid = case.arr(np.where(nan, 50.0, z))
    for m in ("priority", "complete", "drain"):
        case.call("fill_sinks", dany.fill_sinks, case.new_grid(), solid, method=m)
    mask = rng.random(g.n) < 0.2
    mask[int(rng.integers(g.n))] = True
    case.call("fill_sinks:streams", dany.fill_sinks, case.new_grid(), solid, stream_mask=case.arr(mask))
    grid = case.new_grid()
    zz = unique_min(rng, z)
    one = bool(rng.random() < 0.6)
    fd = case.call("FlowDirections", dany.FlowDirections, grid, case.arr(zz if one else z), check_elevations=one)
    t = pick_terminals(case, 0.3)
    for _ in range(2):
        f = np.ravel(case.call("flow_directions", fd.flow_directions, terminal_cells=t or None)).astype(int)
    end, loop = M.walk_state(f)
    case.count("cells_on_loops", loop.sum())
    case.count("sinks", (f < 0).sum())
    case.call("flow_accumulation", fd.flow_accumulation)
    case.call("flow_accumulation", fd.flow_accumulation, as_cells=True)
    pts = [tuple(float(v) for v in g.wcenters[int(c)]) for c in rng.choice(g.n, min(g.n, 4), replace=False)]
    for p in pts[:2]:
        case.call("get_watershed_boundary", fd.get_watershed_boundary, p)
    case.call("get_subbasins", fd.get_subbasins, pts)
    for name in ("slope", "aspect", "vectors", "hru_len"):
        case.call(name, lambda: getattr(fd, name))
    arr = case.arr(mask.astype(int))
    for cls in (dany.Sfr6, dany.Sfr2005, dany.PrmsStreams):
        o = case.call(cls.__name__, cls, grid, fd)
        case.call("threshold_from_control_points", o.threshold_from_control_points, pts)
        case.call("delineate_streams", o.delineate_streams, float(rng.integers(1, 6)))
        case.call("get_stream_connectivity", o.get_stream_connectivity)
        case.call("create_stream_vectors", o.create_stream_vectors, arr, group_segments=bool(rng.random() < 0.5))
        if cls is dany.Sfr6:
            case.call("connectiondata", o.connectiondata)
            case.call("packagedata", o.packagedata)
        elif cls is dany.Sfr2005:
            case.call("irunbnd", o.irunbnd)
            case.call("segment_data", o.segment_data)
            case.call("get_stream_connectivity:cells", o.get_stream_connectivity, group_segments=False)
            if case.gtype == "structured" and np.any(o.stream_array):
                case.call("reach_data", o.reach_data)
                case.call("builder", o.get_pygsflow_builder_object)
        else:
            case.call("get_cascades", o.get_cascades)
            case.call("get_cascades:many", o.get_cascades, many2many=True)
            case.call("get_stream_connectivity:segments", o.get_stream_connectivity, group_segments=True)
            case.call("builder", o.get_pygsflow_builder_object)
    case.count("full_pipelines")


def _long(case):
    """a stream of more reaches than any recursion or buffer limit should matter for"""
    import dany
    rng = case.rng
    n = int(rng.integers(1100, 2500 if case.tier == "quick" else 3500))
    if case.idx % 480 == 0:
        n = int(rng.integers(5500, 6000))
    if rng.random() < 0.5:
        delr, delc = np.full(n, 10.0), np.full(1, 10.0)
    else:
        delr, delc = np.full(1, 10.0), np.full(n, 10.0)
    g = geo.structured(delr, delc)
    case.g, case.gtype = g, case.pick(["structured", "structured", "vertex", "unstructured"])
    case.shape = geo.shape_of(g, case.gtype)
    case.mon = Monitor(n)
    z = np.arange(n)[::-1] + 5.0 if rng.random() < 0.5 else np.arange(n) + 5.0
    if rng.random() < 0.3:
        z = np.abs(np.arange(n) - n // 2) + 5.0
    case.desc.update(grid="long stream", gtype=case.gtype, cells=n)
    case.sig = digest([z, case.gtype])
    case.count("long_streams")
    case.count("cells", n)
    grid = g.grid(case.gtype)
    a = case.arr(z)
    case.call("fill_sinks", dany.fill_sinks, grid, a)
    fd = case.call("FlowDirections", dany.FlowDirections, grid, a)
    f = np.ravel(case.call("flow_directions", fd.flow_directions)).astype(int)
    acc = case.call("flow_accumulation", fd.flow_accumulation, as_cells=True)
    case.check(np.max(acc) == n, "accumulation", lambda: f"{np.max(acc)} of {n} cells reach the outlet")
    low = int(np.argmin(z))
    w = case.call("get_watershed_boundary", fd.get_watershed_boundary, tuple(g.wcenters[low]))
    case.check(np.count_nonzero(w) == n, "watershed", lambda: f"watershed of {np.count_nonzero(w)} of {n} cells")
    pts = [tuple(p) for p in g.wcenters]
    if rng.random() < 0.5:
        # (locating a point on the other grids takes flopy time proportional to the cells)
        pts = pts[: (1200 if case.tier == "quick" else 2000) if case.gtype == "structured" else 150]
        s = np.ravel(case.call("get_subbasins", fd.get_subbasins, pts))
        case.check(len(set(s[: len(pts)])) == len(pts), "subbasins", "nested outlets do not have their own subbasins")
        case.count("outlets", len(pts))
    cls = case.pick([dany.Sfr6, dany.Sfr6, dany.Sfr2005, dany.PrmsStreams])
    o = case.call(cls.__name__, cls, grid, fd)
    case.call("delineate_streams", o.delineate_streams, 1)
    kw = {} if cls is dany.Sfr6 else {"group_segments": False}
    gr = case.call("get_stream_connectivity", o.get_stream_connectivity, **kw)
    case.check(len(gr) == n, "reaches", lambda: f"{len(gr)} reaches for {n} stream cells")
    case.check(all(v in (0, k) or v > k for k, v in gr.items()), "not-downstream-ordered", "reach numbers do not increase downstream")
    if cls is dany.Sfr6:
        con = case.call("connectiondata", o.connectiondata)
        case.check(len(con) == n, "connections", "rows missing from the connection table")
    elif cls is dany.Sfr2005:
        case.call("irunbnd", o.irunbnd)
