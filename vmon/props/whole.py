"""S12, S13, P01, E01: stream tables in model files, agreement of the stream classes,
default workflow from raw terrain to one outlet, refusal of unusable requests."""
import contextlib
import io
import math
import os
import sys
import tempfile
from collections import Counter, defaultdict
import numpy as np
from . import prop, Skip, geo, M
from .stream import network, _segments, _numbering, signature
from ..monitor import CallFailed as CallFailed_, NoEnd as NoEnd_


@contextlib.contextmanager
def _quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


class Refused(Exception):
    """flopy did not accept the tables"""


def _flopy(what, fn, *a, **kw):
    limit = sys.getrecursionlimit()
    # (flopy walks the segments recursively)
    sys.setrecursionlimit(50000)
    try:
        with _quiet():
            return fn(*a, **kw)
    except Exception as e:
        raise Refused(f"{what}: {type(e).__name__}: {str(e)[:300]}") from e
    finally:
        sys.setrecursionlimit(limit)


# -------------------------------------------------------------------- S12
@prop("S12")
def tables_in_model_files(case):
    try:
        if case.rng.random() < 0.5 or case.idx % 1300 == 7 and case.idx > 1300:
            _mf6_files(case)
        else:
            _mf2005_files(case)
    except Refused as e:
        case.fail("not-accepted", f"the model package does not take the tables: {e}")


def _discretisation(flopy, gwf, g, gt, shape):
    z = np.zeros(g.n)
    if gt == "structured":
        flopy.mf6.ModflowGwfdis(gwf, nlay=1, nrow=shape[0], ncol=shape[1], delr=g.struct[0], delc=g.struct[1],
                                top=z.reshape(shape), botm=z.reshape((1,) + shape) - 10)
        return
    verts = [[i, *v] for i, v in enumerate(g.verts.tolist())]
    c2d = [[i, *g.centers[i].tolist(), len(p), *[int(v) for v in p]] for i, p in enumerate(g.polys)]
    if gt == "vertex":
        flopy.mf6.ModflowGwfdisv(gwf, nlay=1, ncpl=g.n, nvert=len(verts), top=z, botm=z[None] - 10, vertices=verts, cell2d=c2d)
        return
    adj = g.adj()
    iac = [len(a) + 1 for a in adj]
    ja = [x for i, a in enumerate(adj) for x in [i] + list(a)]
    one = [1.0] * len(ja)
    flopy.mf6.ModflowGwfdisu(gwf, nodes=g.n, nja=len(ja), nvert=len(verts), top=z, bot=z - 10, area=g.areas(), iac=iac,
                             ja=ja, ihc=[1] * len(ja), cl12=one, hwva=one, vertices=verts, cell2d=c2d)


def _mf6_files(case):
    import dany
    import flopy
    net = network(case, dany.Sfr6, forms=("delineate", "set"))
    g, obj = case.g, net.obj
    if case.rng.random() < 0.5:
        pak = case.call("packagedata", obj.packagedata)
        con = case.call("connectiondata", obj.connectiondata)
    else:
        con = case.call("connectiondata", obj.connectiondata)
        pak = case.call("packagedata", obj.packagedata)
    arr, on = _numbering(case, net, None)
    if arr is None:
        return
    n = len(on)
    node = {int(arr[c]): int(c) for c in on}
    if not case.check(sorted(node) == list(range(1, n + 1)), "numbering", "reach numbers are not 1..n"):
        return
    with tempfile.TemporaryDirectory() as d:
        sim = flopy.mf6.MFSimulation(sim_ws=d, sim_name="s")
        flopy.mf6.ModflowTdis(sim)
        flopy.mf6.ModflowIms(sim)
        gwf = flopy.mf6.ModflowGwf(sim, modelname="m")
        _discretisation(flopy, gwf, g, case.gtype, case.shape)
        _flopy("ModflowGwfsfr", flopy.mf6.ModflowGwfsfr, gwf, nreaches=len(pak), packagedata=pak, connectiondata=con)
        _flopy("write", sim.write_simulation, silent=True)
        blocks, cur = defaultdict(list), None
        for line in open(os.path.join(d, "m.sfr")):
            t = line.split()
            if not t or t[0].startswith("#"):
                continue
            if t[0].upper() == "BEGIN":
                cur = t[1].lower()
            elif t[0].upper() == "END":
                cur = None
            else:
                blocks[cur].append(t)
        back = _flopy("load", flopy.mf6.MFSimulation.load, sim_ws=d, verbosity_level=0)
        sfr = back.get_model("m").sfr
        lp = _flopy("packagedata", sfr.packagedata.get_data)
        lc = _flopy("connectiondata", sfr.connectiondata.get_data)
    # the text a model reads: numbers start at one
    nc = case.shape[-1]
    k = {"structured": 3, "vertex": 2, "unstructured": 1}[case.gtype]
    rows = blocks["packagedata"]
    if not case.check(len(rows) == n and len(lp) == n, "package-rows", lambda: f"{len(rows)} package lines in the file for {n} reaches"):
        return
    cen = g.wcenters
    for t in rows:
        r = int(t[0])
        c = node.get(r, -1)
        cid = {3: (1, c // nc + 1, c % nc + 1), 2: (1, c + 1), 1: (c + 1,)}[k]
        if not case.check(c >= 0 and tuple(int(v) for v in t[1:1 + k]) == cid, "file-cellid", lambda: f"reach {r} lies in cell {t[1:1 + k]} of the file, expected {cid}"):
            return
        v = t[1 + k:]
        if not case.check(len(v) == 10, "file-fields", lambda: f"line of reach {r} has {len(v)} values after the cell"):
            return
        rlen, rgrd, rtp = float(v[0]), float(v[2]), float(v[3])
        to = net.links[c]
        if to is not None and to != c:
            ref = 1.5 * math.hypot(*(cen[to] - cen[c]))
            case.check(abs(rlen - ref) <= 1e-6 * ref + 1e-8, "file-length", lambda: f"reach {r}: length {rlen!r} in the file, expected {ref!r}")
        case.check(abs(rtp - net.z[c]) <= 1e-6 * abs(net.z[c]) + 1e-6, "file-top", lambda: f"reach {r}: top {rtp!r} in the file, cell elevation {net.z[c]!r}")
        case.check(math.isfinite(rlen) and rlen > 0 and math.isfinite(rgrd), "file-values", lambda: f"reach {r}: length {rlen!r}, gradient {rgrd!r}")
        ups = {u for u, q in net.links.items() if q == c and u != c}
        ncon = len(ups) + (to is not None and to != c)
        if not case.check(int(v[7]) == ncon, "file-ncon", lambda: f"reach {r} announces {v[7]} connections, it has {ncon}"):
            return
        case.check(float(v[8]) == 1 and int(v[9]) == 0, "file-diversions", lambda: f"reach {r}: {v[8:10]}")
    case.check([int(t[0]) for t in rows] == list(range(1, n + 1)), "file-order", "package lines are not in reach order")
    lines = {int(t[0]): [int(v) for v in t[1:]] for t in blocks["connectiondata"]}
    case.check(len(blocks["connectiondata"]) == n, "connection-lines", lambda: f"{len(blocks['connectiondata'])} connection lines for {n} reaches")
    got = set()
    for r, vs in lines.items():
        for v in vs:
            if not case.check(v != 0 and abs(v) in lines and (-r if v > 0 else r) in lines[abs(v)], "one-sided-connection",
                              lambda: f"file connects reach {r} to {v}, but the line of {abs(v)} reads {lines.get(abs(v))}"):
                return
            if v < 0:
                got.add((r, -v))
    exp = {(int(arr[c]), int(arr[d])) for c, d in net.links.items() if d is not None and d != c}
    if not case.check(got == exp, "file-network", lambda: f"the file routes {sorted(got - exp)[:4]}, expected {sorted(exp - got)[:4]}"):
        return
    # what flopy gives back
    mine = [tuple(int(v) for v in r["cellid"]) for r in pak]
    read = [tuple(int(v) for v in (q if isinstance(q, (tuple, list)) else (q,))) for q in lp["cellid"]]
    case.check(mine == read, "reload-cellid", lambda: f"cells {mine[:3]} read back as {read[:3]}")
    neg = {(int(r[0]), abs(int(v))) for r in lc for v in tuple(r)[1:] if v is not None and math.copysign(1, v) < 0}
    zero = [r for r in lc if any(v is not None and v == 0 for v in tuple(r)[1:])]
    if not zero:
        case.check(neg == {(a - 1, b - 1) for a, b in exp}, "reload-network", lambda: f"network read back as {sorted(neg)[:5]}")
    case.count("mf6_files")
    case.count("reaches", n)
    if exp:
        signature(case, net, case.gtype)


def _mf2005_files(case):
    import dany
    import flopy
    rng = case.rng
    net = network(case, dany.Sfr2005, structured=True, forms=("delineate", "set"), min_cells=2)
    g, obj = case.g, net.obj
    group = bool(rng.random() < 0.7)
    if rng.random() < 0.3:
        o = case.call("get_pygsflow_builder_object", obj.get_pygsflow_builder_object, group_segments=group)
        rd, sd = o.reach_data, o.segment_data
        case.count("builder_tables")
    else:
        case.call("get_stream_connectivity", obj.get_stream_connectivity, group_segments=group)
        rd = case.call("reach_data", obj.reach_data)
        sd = case.call("segment_data", obj.segment_data)
    own = [int(a) for a, b in zip(sd["nseg"], sd["outseg"]) if a == b]
    if own and group:
        starts = {int(np.ravel(obj.stream_array)[c]) for c, d in net.links.items() if d == c}
        if all(k in starts for k in own):
            case.fail("outlet-segment-to-itself", f"segment {own[0]} holds an outlet cell and lists itself as its downstream segment")
            case.count("outlet_to_itself", len(own))
            sd = sd.copy()
            sd["outseg"][sd["outseg"] == sd["nseg"]] = 0
    n, ns = len(rd), len(sd)
    on = np.flatnonzero(net.mask)
    nr, nc = case.shape
    with tempfile.TemporaryDirectory() as d:
        def build():
            m = flopy.modflow.Modflow("m", model_ws=d)
            flopy.modflow.ModflowDis(m, nrow=nr, ncol=nc, delr=g.struct[0], delc=g.struct[1], top=0.0, botm=-10.0)
            flopy.modflow.ModflowBas(m)
            s = flopy.modflow.ModflowSfr2(m, nstrm=n, nss=ns, isfropt=1, reachinput=True, reach_data=rd.copy(),
                                          segment_data={0: sd.copy()}, dataset_5={0: [ns, 0, 0]})
            s.write_file()
            s.set_outreaches()       # flopy does so itself unless no segment has a downstream one
            return m, s
        m, s = _flopy("ModflowSfr2", build)
        from flopy.modflow.mfsfr2 import check as checker
        def judge():
            c = checker(s, verbose=False, level=1)
            c.for_nans()
            c.numbering()
            c.routing()
            return c
        ck = _flopy("check", judge)
        b = _flopy("load", flopy.modflow.ModflowSfr2.load, os.path.join(d, "m.sfr"), m)
        _flopy("set_outreaches", b.set_outreaches)
    # flopy's proximity test fails for every network (it counts a tuple); the cells
    # are compared one by one below
    bad = [w for w in ck.errors + ck.warnings if w != "reach connections"]
    case.check(not bad, "model-check", lambda: f"flopy's stream checker reports {bad}: {ck.txt[:300]}")
    brd = b.reach_data
    if not case.check(len(brd) == len(on) == n, "reach-lines", lambda: f"{len(brd)} reaches read back for {len(on)} stream cells"):
        return
    at = {int(r["reachID"]): int(r["i"]) * nc + int(r["j"]) for r in brd}
    if not case.check(sorted(at.values()) == sorted(on.tolist()), "cells", "the cells read back are not the stream cells"):
        return
    for r in brd:
        c = at[int(r["reachID"])]
        d_ = net.links[c]
        exp = None if d_ is None or d_ == c else d_
        got = at.get(int(r["outreach"]))
        if not case.check(got == exp, "reload-network", lambda: f"the model routes cell {c} to {got}, water flows to {exp}"):
            return
        case.check(int(r["k"]) == 0 and abs(float(r["strtop"]) - net.z[c]) <= 1e-5 * abs(net.z[c]) + 1e-5, "reload-top",
                   lambda: f"cell {c}: top {r['strtop']!r} read back, elevation {net.z[c]!r}")
        if exp is not None:
            ref = 1.5 * math.hypot(*(g.wcenters[exp] - g.wcenters[c]))
            case.check(abs(float(r["rchlen"]) - ref) <= 1e-5 * ref, "reload-length", lambda: f"cell {c}: reach length {r['rchlen']!r} read back, expected {ref!r}")
    case.count("mf2005_files")
    case.count("reaches", n)
    case.count("segments", ns)
    if any(d is not None and d != c for c, d in net.links.items()):
        signature(case, net, group)


# -------------------------------------------------------------------- S13
@prop("S13")
def classes_agree(case):
    """the same streams through every stream class"""
    import dany
    rng = case.rng
    net = network(case, dany.PrmsStreams, structured=bool(rng.random() < 0.4))
    g = case.g
    # the classes share the grid object or have their own
    own = bool(rng.random() < 0.5)

    def make(cls):
        o = case.setup(cls.__name__, cls, case.new_grid() if own else net.grid, net.fd)
        if net.form == "delineate":
            kw = {} if net.basin is None else {"basin_boundary": case.arr(net.basin)}
            case.call("delineate_streams", o.delineate_streams, net.thr, **kw)
        elif net.form == "set":
            case.call("set_stream_array", o.set_stream_array, net.array.copy())
        return o

    def given(again=0.3):
        """the stream cells where a class gets them with each request"""
        if net.form != "argument" or rng.random() >= again:
            return {}
        return {"stream_array": net.array.copy()}

    objs = [make(c) for c in (dany.Sfr6, dany.Sfr2005)]
    s6, s5 = objs
    pr = net.obj
    a = net.mask if net.form == "argument" else np.nan_to_num(np.asarray(pr.stream_array)).ravel() != 0
    for o in objs if net.form != "argument" else ():
        b = np.nan_to_num(np.asarray(o.stream_array)).ravel() != 0
        if not case.check(np.array_equal(a, b), "stream-cells", lambda: f"{type(o).__name__} and PrmsStreams disagree on cells {np.flatnonzero(a != b)[:5]}"):
            return

    def same(x, y, key, msg):
        return case.check({int(k): int(v) for k, v in x.items()} == {int(k): int(v) for k, v in y.items()}, key, msg)

    def arr(o):
        return np.asarray(o.stream_array).ravel().astype(int)

    steps = rng.permutation(["reach", "segment"])
    for st in steps:
        if st == "reach":
            x = case.call("get_stream_connectivity", s6.get_stream_connectivity, **given(1))
            y = case.call("get_stream_connectivity", pr.get_stream_connectivity, group_segments=False, **given(1))
            if not same(x, y, "reach-graph", "reach graphs of Sfr6 and PrmsStreams differ"):
                return
            if not case.check(np.array_equal(arr(s6), arr(pr)), "reach-numbers", "reach numbers of Sfr6 and PrmsStreams differ"):
                return
            # one reach per cell in every class: the same links between cells
            z = case.call("get_stream_connectivity", s5.get_stream_connectivity, group_segments=False, **given(1))
            n5, n6 = arr(s5), arr(s6)
            c5 = {int(n5[c]): int(c) for c in np.flatnonzero(n5)}
            c6 = {int(n6[c]): int(c) for c in np.flatnonzero(n6)}
            l5 = {c5[int(k)]: c5.get(int(v)) for k, v in z.items() if int(k) in c5}
            l6 = {c6[int(k)]: c6.get(int(v)) for k, v in x.items()}
            l5, l6 = ({k: (None if v == k else v) for k, v in q.items()} for q in (l5, l6))
            if not case.check(l5 == l6, "ungrouped-links", lambda: f"ungrouped MODFLOW-2005 segments and MODFLOW 6 reaches link differently: {sorted(set(l5.items()) ^ set(l6.items()), key=str)[:4]}"):
                return
        else:
            x = case.call("get_stream_connectivity", s5.get_stream_connectivity, **given(1))
            y = case.call("get_stream_connectivity", pr.get_stream_connectivity, group_segments=True, **given(1))
            if not same(x, y, "segment-graph", "segment graphs of Sfr2005 and PrmsStreams differ"):
                return
            if not case.check(np.array_equal(arr(s5), arr(pr)), "segment-numbers", "segment numbers of Sfr2005 and PrmsStreams differ"):
                return
            nseg = len(x)
            # cascades: following the links to the first stream tag = the runoff array
            irb = np.ravel(case.call("irunbnd", s5.irunbnd, **given())).astype(int)
            up, dn, pct, tag = (np.asarray(v) for v in case.call("get_cascades", pr.get_cascades, **given()))
            if not case.check(len(up) == len(dn) == len(tag), "ragged", "cascade arrays differ in length"):
                return
            to = {}
            for u, d, t in zip(up.tolist(), dn.tolist(), tag.tolist()):
                to[u - 1] = (d - 1, t)
            num = arr(pr)
            for c in range(g.n):
                k, seen = c, set()
                t = int(num[c])
                while not t and k in to and k not in seen:
                    seen.add(k)
                    k, t = to[k]
                if not case.check(int(t) == int(irb[c]), "runoff", lambda: f"runoff of cell {c} reaches segment {t} over the cascades, {irb[c]} by the runoff array"):
                    return
            lines = [case.call("create_stream_vectors", o.create_stream_vectors, **given()) for o in (s5, pr)]
            ok = set(lines[0]) == set(lines[1]) and all(
                np.array_equal(np.asarray(lines[0][k], float), np.asarray(lines[1][k], float)) for k in lines[0])
            case.check(ok, "lines", "stream lines of Sfr2005 and PrmsStreams differ")
            if case.gtype == "structured":
                rd = case.call("reach_data", s5.reach_data, **given())
                sd = case.call("segment_data", s5.segment_data, **given())
                case.check(len(rd) == int(a.sum()) and len(sd) == nseg, "table-rows", lambda: f"{len(rd)} reaches, {len(sd)} segments in the tables; {int(a.sum())} cells, {nseg} segments")
                i = np.asarray(rd["i"]).astype(int) * case.shape[1] + np.asarray(rd["j"]).astype(int)
                case.check(np.array_equal(num[i], np.asarray(rd["iseg"]).astype(int)), "table-segments", "reach table and cascade segments disagree")
                t = case.call("get_pygsflow_builder_object", s5.get_pygsflow_builder_object)
                case.check(np.array_equal(np.ravel(t.irunbnd), irb), "builder-runoff", "builder object and runoff array differ")
                case.check(len(t.segment_data) == nseg, "builder-segments", "builder object and connectivity differ")
            o = case.call("get_pygsflow_builder_object", pr.get_pygsflow_builder_object, **given())
            case.check(o.nsegments == nseg and o.nreaches == int(a.sum()), "builder-counts",
                       lambda: f"builder counts {o.nsegments} segments, {o.nreaches} reaches; {nseg} segments, {int(a.sum())} stream cells")
            case.check(set(np.unique(o.hru_strmseg_down_id).tolist()) <= set(range(nseg + 1)), "builder-tags", "cascade tags name segments that do not exist")
            case.count("segments", nseg)
    case.count("stream_cells_compared", a.sum())
    if any(d is not None and d != c for c, d in net.links.items()):
        signature(case, net)


# -------------------------------------------------------------------- P01
@prop("P01")
def whole_workflow(case):
    """raw terrain -> missing cells -> sinks -> directions -> accumulation -> streams"""
    import dany
    rng = case.rng
    g = case.geometry(large=True)
    z, kind = geo.random_dem(rng, g, case.pick(("noise", "plane", "cone", "valley")) if case.is_large else None)
    z = np.asarray(z, float)
    z = np.where(np.isfinite(z), z, 5.0)
    case.count("dem:" + kind)
    adj = g.adj()
    nan = np.zeros(g.n, bool)
    if rng.random() < 0.5:
        nan = rng.random(g.n) < rng.choice([0.03, 0.2, 0.6, 0.995])
        nan[int(rng.integers(g.n))] = False
    dem = case.arr(np.where(nan, np.nan, z))
    grid = case.new_grid()
    if nan.any() or rng.random() < 0.3:
        kw = {"method": case.pick(["mean", "median", "min", "max"])} if rng.random() < 0.5 else {}
        dem = case.call("fill_nan_values", dany.fill_nan_values, grid, dem, **kw)
        if not case.check(np.isfinite(np.ravel(dem)).all(), "missing-left", "cells without elevation are left on a connected grid"):
            return
    way = case.pick(["outline", "outline", "outlet"])
    eps = float(case.pick([2e-6, 2e-6, 1e-5, 1e-3]))
    kw = {} if eps == 2e-6 and rng.random() < 0.5 else {"eps": eps}
    edges = set(g.edges())
    if way == "outlet":
        # everything to one cell
        out = int(rng.choice(sorted(edges))) if rng.random() < 0.7 else int(rng.integers(g.n))
        e0 = np.ravel(dem).astype(float).copy()
        e0[out] = min(e0[out], e0.min() - float(rng.choice([0.01, 1.0])))
        dem = e0.reshape(np.shape(dem))
        mask = np.zeros(g.n, int)
        mask[out] = 1
        w = case.call("fill_sinks", dany.fill_sinks, grid, dem, stream_mask=case.arr(mask), **kw)
    else:
        if rng.random() < 0.35 and not case.is_large:
            kw["method"] = "drain"
        w = case.call("fill_sinks", dany.fill_sinks, grid, dem, **kw)
    w = np.asarray(w)
    if not case.check(w.shape == case.shape, "shape", lambda: f"conditioned elevations of shape {w.shape}"):
        return
    h = w.ravel().astype(float)
    if way == "outlet":
        ends = {out}
        terms = []
        # the outlet may have been raised to the level of a tied cell
        if (h == h.min()).sum() > 1 or h.argmin() != out:
            case.check(False, "outlet-not-lowest", "the outlet is not the lowest cell of the conditioned surface")
            return
        fd = case.call("FlowDirections", dany.FlowDirections, grid, w)
    else:
        low = {c for c in edges if not any(h[m] < h[c] for m in adj[c])}
        terms = sorted(low)
        if not case.check(len(terms) > 0, "no-outlet", "no cell of the outline is without lower neighbour"):
            return
        ends = set(terms)
        fd = case.call("FlowDirections", dany.FlowDirections, grid, w, check_elevations=False)
    f = case.call("flow_directions", fd.flow_directions, **({"terminal_cells": terms} if terms else {}))
    f = np.ravel(f)
    if not case.check(f.shape == (g.n,) and ((f >= 0) & (f < g.n)).all(), "undrained",
                      lambda: f"cell {np.flatnonzero((f < 0) | (f >= g.n))[:3]} of the conditioned surface has no cell to drain to"):
        return
    f = f.astype(int)
    for c in range(g.n):
        d = f[c]
        if c in ends:
            ok = d == c
        else:
            ok = d in adj[c] and h[d] < h[c]
        if not case.check(ok, "not-downhill", lambda: f"cell {c} (elevation {h[c]!r}, outlet={c in ends}) drains to {d} (elevation {h[d]!r})"):
            return
    # conservation
    cells = bool(rng.random() < 0.5)
    acc = np.ravel(case.call("flow_accumulation", fd.flow_accumulation, **({"as_cells": True} if cells else {}))).astype(float)
    own = np.ones(g.n) if cells else g.areas()
    tot, s = own.sum(), acc[sorted(ends)].sum()
    tol = 1e-9 * tot + 4e-15 * g.n * np.max(np.abs(g.wverts)) ** 2
    if not case.check(abs(tot - s) <= tol, "not-conserved", lambda: f"{s!r} arrives at the outlets, the grid holds {tot!r}"):
        return
    # the catchments of the outlets cover the grid, each cell once
    end, _ = M.walk_state(f)
    few = sorted(ends, key=lambda c: -acc[c])[:3]
    for c in few:
        wb = np.ravel(case.call("get_watershed_boundary", fd.get_watershed_boundary, tuple(float(v) for v in g.wcenters[c])))
        if not case.check(np.array_equal(wb != 0, end == c), "catchment", lambda: f"catchment of outlet {c} has {int((wb != 0).sum())} cells, {int((end == c).sum())} drain to it"):
            return
    # streams above a threshold: continuous down to the outlets
    thr = float(np.quantile(acc, 0.985 if case.is_large else rng.choice([0.4, 0.7, 0.9])))
    cls = case.pick([dany.Sfr6, dany.Sfr2005, dany.PrmsStreams])
    o = case.call(cls.__name__, cls, grid, fd)
    st = np.ravel(case.call("delineate_streams", o.delineate_streams, thr)) != 0
    near = np.abs(acc - thr) <= 1e-9 * abs(thr)
    if (near & (acc != thr)).any():
        return
    case.check(st.any(), "no-stream", "no stream above a threshold that cells reach")
    dry = [c for c in np.flatnonzero(st) if f[c] != c and not st[f[c]]]
    if not case.check(not dry, "broken-stream", lambda: f"stream ends in cell {dry[0]} although water goes on to {f[dry[0]]}"):
        return
    graph = case.call("get_stream_connectivity", o.get_stream_connectivity)
    num = np.ravel(o.stream_array).astype(int)
    stops = {int(k) for k, v in graph.items() if int(v) in (0, int(k))}
    mouths = {int(num[c]) for c in ends if st[c]}
    if not case.check(stops == mouths, "stream-ends", lambda: f"streams end in {sorted(stops)[:6]}, the outlets carry {sorted(mouths)[:6]}"):
        return
    for k in graph:
        q, n = int(k), 0
        while q not in stops and n <= len(graph):
            q, n = int(graph[q]), n + 1
        if not case.check(q in stops and n <= len(graph), "stream-without-end", lambda: f"stream {k} never reaches an outlet"):
            return
    if cls is dany.Sfr2005:
        irb = np.ravel(case.call("irunbnd", o.irunbnd))
        wet = st[end]
        if not case.check(np.array_equal(irb != 0, wet), "runoff-lost", lambda: f"cell {np.flatnonzero((irb != 0) != wet)[:3]}: runoff array {irb[(irb != 0) != wet][:3]}"):
            return
    case.count("outlets", len(ends))
    case.count("streams", len(graph))
    case.count("way:" + way)
    case.count("missing_filled", nan.sum())
    case.nontrivial(z, nan, way, eps, cells)


# -------------------------------------------------------------------- E01
def _bad_points(case):
    """requests for places that are not points of the grid"""
    g, rng = case.g, case.rng
    lo, hi = g.wverts.min(axis=0), g.wverts.max(axis=0)
    ext = float((hi - lo).max())
    far = [float(hi[0] + ext * rng.uniform(0.3, 50)), float(lo[1] - ext * rng.uniform(0.3, 50))]
    inside = [float(v) for v in g.wcenters[int(rng.integers(g.n))]]
    r = case.pick(["outside", "outside", "three", "one", "nested"])
    return {"outside": tuple(far), "three": (*inside, 0.0), "one": (inside[0],), "nested": [inside]}[r], inside, r


def _refusals(case, fd, o, streams):
    """requests that can not be met: (name, call)"""
    import dany
    g, rng = case.g, case.rng
    out = []
    pt, ok, what = _bad_points(case)
    def among(good, bad):
        """the request among others that could be met"""
        l = [good] + [[float(v) for v in g.wcenters[int(c)]] for c in rng.integers(0, g.n, int(rng.integers(0, 4)))]
        l.insert(int(rng.integers(len(l) + 1)), bad)
        return l
    pts = among(ok, pt)
    out.append((f"watershed of a point ({what})", lambda: fd.get_watershed_boundary(pt)))
    out.append((f"subbasins of points ({what})", lambda: fd.get_subbasins(pts)))
    cell = int(g.n + rng.integers(0, 5))
    good = int(rng.integers(g.n))
    out.append(("terminal cell outside of the grid", lambda: fd.flow_directions(terminal_cells=[good, cell])))
    if case.gtype != "structured":
        out.append(("row/column of a grid without rows", lambda: fd.flow_directions(terminal_cells=[(0, 1)])))
    else:
        nr, nc = case.shape
        bad = case.pick([(nr, 0), (0, nc), (nr + 3, nc + 2)])
        out.append(("row/column outside of the grid", lambda: fd.flow_directions(terminal_cells=[(0, 0), bad])))
    hole = np.array(np.ravel(fd.dem), float)
    hole[good] = np.nan
    out.append(("unknown statistic", lambda: dany.fill_nan_values(case.new_grid(), case.arr(hole), method=case.pick(["mode", "average", ""]))))
    if o is None:
        return out
    pt2, ok2, what2 = _bad_points(case)
    pts2 = among(ok2, pt2)
    out.append((f"control points ({what2})", lambda: o.threshold_from_control_points(pts2)))
    n = int(g.n + case.pick([-3, -1, 1, 2, 7, g.n]))
    wrong = (rng.random(max(n, 1)) < 0.5).astype(case.pick([int, bool, float]))
    wrong[0] = 1
    if rng.random() < 0.5 and n > g.n:
        wrong[g.n:] = 0
    out.append(("stream array of the wrong size", lambda: o.set_stream_array(wrong)))
    out.append(("threshold array of the wrong size", lambda: o.delineate_streams(wrong.astype(float))))
    out.append(("basin of the wrong size", lambda: o.delineate_streams(1.0, basin_boundary=wrong)))
    ops = ["get_stream_connectivity", "packagedata", "segment_data", "irunbnd", "create_stream_vectors", "get_cascades",
           "get_pygsflow_builder_object"]
    if case.gtype == "structured":
        ops.append("reach_data")
    table = type(o).__name__ == "Sfr2005"
    for op in ops:
        if hasattr(o, op) and not (op == "get_pygsflow_builder_object" and table):
            out.append((f"{op} of an array of the wrong size", lambda op=op: getattr(o, op)(wrong.astype(float) if op == "create_stream_vectors" else wrong)))
    if hasattr(o, "get_cascades") and streams == "numbered":
        out.append(("cascades in a basin of the wrong size", lambda: o.get_cascades(basin_boundary=wrong, many2many=bool(rng.random() < 0.5))))
    if table and streams:
        out.append(("unknown parameter", lambda: o.get_pygsflow_builder_object(**{case.pick(["width3", "slope", "strhc"]): 1.0})))
    if not streams:
        for op in ops + ["connectiondata"]:
            if hasattr(o, op):
                out.append((f"{op} before any streams", lambda op=op: getattr(o, op)()))
        out.append(("stream array before any streams", lambda: o.stream_array))
    return out


@prop("E01")
def refusals_leave_no_trace(case):
    import dany
    from .cross import values
    from .flow import raw_dem, conditioned
    rng = case.rng
    g = case.geometry(size=case.size(45, 120, 200))
    z, outlet, _ = conditioned(case)
    tw = []
    cls = case.pick([dany.Sfr6, dany.Sfr2005, dany.PrmsStreams])
    cells = bool(rng.random() < 0.5)
    for _ in range(2):
        grid = g.grid(case.gtype)
        fd = case.setup("FlowDirections", dany.FlowDirections, grid, case.arr(z))
        tw.append([fd, None, grid])
    a, b = tw
    done = []

    def refuse(name, fn):
        case.count("refusals")
        try:
            case.mon.call("refused", fn)
        except NoEnd_ as e:
            case.fail("no-end", f"{name}: {e}")
            return False
        except CallFailed_:
            case.count("refused:" + name.split(" (")[0])
            done.append(name)
            return True
        return case.check(False, "accepted", f"{name}: the request was not refused")

    def compare(what, fn):
        y = fn(b)
        try:
            x = fn(a)
        except (CallFailed_, NoEnd_):
            raise
        except Exception as e:
            return case.check(False, "trace-left", lambda: f"{what} raises {type(e).__name__} after the refused requests {done[-4:]}")
        return case.check(values(x) == values(y), "trace-left", lambda: f"{what} differs from that of an object that did not get the refused requests {done[-4:]}")

    # nothing computed yet
    if rng.random() < 0.4:
        early = [("accumulation before directions", lambda: a[0].flow_accumulation()),
                 ("inflow count before directions", lambda: a[0].get_nidp()),
                 ("watershed before directions", lambda: a[0].get_watershed_boundary(tuple(float(v) for v in g.wcenters[0]))),
                 ("subbasins before directions", lambda: a[0].get_subbasins([tuple(float(v) for v in g.wcenters[0])])),
                 ("slope before directions", lambda: a[0].slope), ("length before directions", lambda: a[0].hru_len),
                 ("aspect before directions", lambda: a[0].aspect), ("directions before directions", lambda: a[0].flow_direction_array),
                 ("stored accumulation before any", lambda: a[0].flow_accumulation_array)]
        for k in rng.choice(len(early), 3, replace=False):
            if not refuse(*early[int(k)]):
                return
    terms = [int(t) for t in rng.choice(g.n, 2)] if rng.random() < 0.3 else None
    thr = {} if rng.random() < 0.6 else {"burn_threshold": 1e-3}
    for t in tw:
        case.setup("flow_directions", t[0].flow_directions, terminal_cells=terms, **thr)
        case.setup("flow_accumulation", t[0].flow_accumulation, as_cells=cells)
    if M.walk_state(np.ravel(a[0].flow_direction_array).astype(int))[1].any():
        raise Skip("circular directions")

    def some(o, streams, k):
        opts = _refusals(case, a[0], o, streams)
        for i in rng.choice(len(opts), min(k, len(opts)), replace=False):
            if not refuse(*opts[int(i)]):
                return False
        return True

    p = tuple(float(v) for v in g.wcenters[int(rng.integers(g.n))])

    def flows():
        return all((
            compare("flow directions", lambda t: t[0].flow_direction_array),
            compare("accumulation", lambda t: t[0].flow_accumulation_array),
            compare("watershed", lambda t: t[0].get_watershed_boundary(p)),
            compare("subbasins", lambda t: t[0].get_subbasins([p])),
            compare("slope", lambda t: t[0].slope), compare("lengths", lambda t: t[0].hru_len),
            compare("inflows", lambda t: t[0].get_nidp())))
    if not some(None, False, 3) or not flows():
        return
    for t in tw:
        t[1] = case.setup(cls.__name__, cls, t[2], t[0])
    if not some(a[1], False, 4):
        return
    acc = np.ravel(b[0].flow_accumulation_array)
    level = float(np.quantile(acc, rng.choice([0.3, 0.6, 0.9])))
    user = (rng.random(g.n) < 0.4).astype(int)
    user[int(rng.integers(g.n))] = 1
    how = bool(rng.random() < 0.5)
    for t in tw:
        if how:
            case.setup("delineate_streams", t[1].delineate_streams, level)
        else:
            case.setup("set_stream_array", t[1].set_stream_array, case.arr(user))
    if not some(a[1], True, 3):
        return
    if not compare("stream array", lambda t: t[1].stream_array):
        return
    grp = {} if cls is dany.Sfr6 else {"group_segments": bool(rng.random() < 0.5)}
    if not compare("connectivity", lambda t: case.call("get_stream_connectivity", t[1].get_stream_connectivity, **grp)):
        return
    if not some(a[1], "numbered", 4):
        return
    ok = compare("numbered stream array", lambda t: t[1].stream_array)
    if cls is dany.Sfr6:
        ok = ok and compare("connection table", lambda t: case.call("connectiondata", t[1].connectiondata)) \
            and compare("package table", lambda t: case.call("packagedata", t[1].packagedata))
    elif cls is dany.Sfr2005:
        ok = ok and compare("segment table", lambda t: case.call("segment_data", t[1].segment_data)) \
            and compare("runoff array", lambda t: case.call("irunbnd", t[1].irunbnd))
        if case.gtype == "structured":
            ok = ok and compare("reach table", lambda t: case.call("reach_data", t[1].reach_data))
    else:
        m2m = bool(rng.random() < 0.5)
        ok = ok and compare("cascades", lambda t: case.call("get_cascades", t[1].get_cascades, many2many=m2m))
    if not ok or not flows():
        return
    for t in tw:
        case.call("flow_directions", t[0].flow_directions)
    if compare("flow directions calculated again", lambda t: t[0].flow_direction_array):
        case.nontrivial(z, sorted(done))
