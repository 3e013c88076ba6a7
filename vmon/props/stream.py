"""S01-S11: stream delineation and model input generation."""
import copy
import math
import os
import tempfile
from collections import Counter, defaultdict
import numpy as np
from . import prop, Skip, geo, M
from .flow import (conditioned, fd_object, directions, usable_fdir, pick_terminals,
                   terminal_arg, pour_points)


class Net:
    """flow directions, accumulation and a stream network to build on"""


def pitted(case, net):
    """lower a few cells slightly below all their neighbours (stream tops are often
    taken from other data than the conditioned surface), keeping surfaces from which
    everything still drains"""
    g, rng = case.g, case.rng
    z = net.z.copy()
    adj = g.adj()
    k = 0
    for c in rng.permutation(g.n)[:int(rng.integers(1, 6))]:
        c = int(c)
        if c == net.outlet or c in net.terms or c not in adj[int(net.f[c])]:
            continue
        lo = min(z[m] for m in adj[c])
        v = lo - float(rng.choice([1e-3, 0.05, 1.0])) * rng.random()
        if v > z[net.outlet]:
            z[c] = v
            k += 1
    if not k:
        return
    grid = case.new_grid()
    fd = fd_object(case, z, grid=grid, judged=False)
    f = np.asarray(case.setup("flow_directions", fd.flow_directions, **terminal_arg(case, net.terms))).ravel()
    if f.shape != (g.n,) or (f < 0).any() or (f >= g.n).any() or M.walk_state(f)[1].any():
        return
    own = {net.outlet, *net.terms}
    if any((f[c] == c) != (c in own) for c in range(g.n)):
        return
    net.z, net.grid, net.fd, net.f = z, grid, fd, f.astype(int)
    case.count("surfaces_with_uphill_steps")
    case.desc["uphill_steps"] = int(sum(z[f[c]] > z[c] for c in range(g.n)))


def dented(case, net):
    """press flat bottomed hollows into a drained surface, leaving undrained sinks"""
    g, rng = case.g, case.rng
    z = net.z.copy()
    adj = g.adj()
    keep = {net.outlet, *net.terms}
    used = set()
    for c in rng.permutation(g.n)[:int(rng.integers(2, 9))]:
        patch = {int(c), *adj[int(c)]}
        if rng.random() < 0.3:
            patch |= {m for q in patch for m in adj[q]}
        rim = {m for q in patch for m in adj[q]} - patch
        if patch & keep or (patch | rim) & used or not rim:
            continue
        v = min(z[m] for m in rim) - float(rng.choice([1e-3, 0.5])) * rng.random()
        if v > z[net.outlet]:
            z[list(patch)] = v
            used |= patch | rim
    return z


LABELS = (256, 512, 1000, 65536, 2**31)


def basin_labels(case, basin):
    """the same area under other non-zero labels, and in another number type"""
    rng = case.rng
    basin = np.asarray(basin).astype(np.int64)
    if rng.random() < 0.3:
        lab = rng.choice(LABELS, int(basin.max(initial=0)) + 1)
        basin = np.where(basin != 0, lab[basin], 0)
        dt = case.pick([np.int64, np.float64])
        case.count("unusual_basin_labels")
    else:
        dt = case.pick([int, int, float, bool, np.int8, np.uint8, np.float32])
    return basin.astype(dt)


def parts(adj):
    """the connected parts of the grid"""
    seen, out = set(), []
    for s in range(len(adj)):
        if s in seen:
            continue
        st, comp = [s], []
        seen.add(s)
        while st:
            c = st.pop()
            comp.append(c)
            for m in adj[c]:
                if m not in seen:
                    seen.add(m)
                    st.append(m)
        out.append(comp)
    return out


def network(case, cls, structured=False, terminals=True, min_cells=1, forms=("delineate", "set", "argument"), pits=0.25, sinks=0.15):
    """a drained surface (sometimes an unconditioned one with undrained sinks) with a
    delineated / user supplied stream network"""
    import dany
    rng = case.rng
    kw = {}
    if structured:
        kw = dict(kinds=("structured", "structured", "structured", "thin"))
    want = bool(rng.random() < sinks)
    if want and not structured and rng.random() < 0.3:
        kw = dict(kinds=("islands",))
    case.only_structured = structured
    g = case.geometry(large=True, **kw)
    if structured and case.gtype != "structured":
        case.gtype = "structured"
        g.closed = False
        case.shape = geo.shape_of(g, "structured")
        case.desc["gtype"] = "structured"
    net = Net()
    net.terms = pick_terminals(case, 0.25) if terminals and not case.is_long else []
    net.sinks = want and not case.is_large and not case.is_long
    if g.kind.startswith("islands"):
        # every part but the first and single cells gets its own terminal cell
        net.terms += [int(rng.choice(p)) for p in parts(g.adj()) if len(p) > 1]
    net.z, net.outlet, net.eps = conditioned(case, net.terms, lone=True)
    if net.sinks:
        net.z = dented(case, net)
    net.grid = case.new_grid()
    net.fd = fd_object(case, net.z, grid=net.grid, judged=False)
    tkw = terminal_arg(case, net.terms)
    if rng.random() < 0.12:
        tkw["burn_threshold"] = float(case.pick([0.0, 1e-8, net.eps * 0.4]))
    net.f = usable_fdir(case, directions(case, net.fd, judged=False, **tkw))
    if pits and rng.random() < pits and not case.is_large and not case.is_long and not net.sinks:
        pitted(case, net)
    net.end, loop = M.walk_state(net.f)
    if loop.any() or (net.f < 0).any() and not net.sinks:
        raise Skip("directions do not drain")
    case.count("undrained_sinks", (net.f < 0).sum())
    case.desc["sinks"] = int((net.f < 0).sum())
    net.cells = bool(rng.random() < 0.6)
    net.acc = np.asarray(case.setup("flow_accumulation", net.fd.flow_accumulation, as_cells=net.cells)).ravel().astype(float)
    net.obj = case.setup(cls.__name__, cls, net.grid, net.fd)
    net.basin = None
    r = rng.random()
    q = rng.choice([0.3, 0.5, 0.7, 0.85, 0.95])
    net.thr = float(np.quantile(net.acc, q)) if rng.random() < 0.8 else float(rng.choice(net.acc))
    if case.is_large:
        net.thr = float(np.quantile(net.acc, case.pick([0.93, 0.985])))
    if case.is_long:
        net.thr = float(np.quantile(net.acc, case.pick([0.0, 0.1])))
    if rng.random() < 0.3 and not case.is_long:
        cell = int(rng.choice(g.n, p=net.acc / net.acc.sum()))
        ws = sorted(M.upstream_set(net.f, cell))
        net.basin = np.zeros(g.n, int)
        net.basin[ws] = rng.integers(1, 4, len(ws)) if rng.random() < 0.5 else 1
    net.mask = net.acc >= net.thr
    if net.basin is not None:
        net.mask = net.mask & (net.basin != 0)
    net.form = case.pick(list(forms))
    net.arg = {}
    style = "threshold"
    if net.form == "delineate":
        kw = {} if net.basin is None else {"basin_boundary": case.arr(basin_labels(case, net.basin))}
        case.setup("delineate_streams", net.obj.delineate_streams, net.thr, **kw)
    else:
        if rng.random() < 0.5 and not case.is_large and not case.is_long:
            style = "arbitrary"
            net.mask = rng.random(g.n) < rng.choice([0.15, 0.4, 0.8])
            if rng.random() < 0.1:
                net.mask[:] = True
        dt = case.pick([int, int, bool, np.int8, np.int32, float])
        case.count("stream_dtype:" + np.dtype(dt).name)
        a = net.mask.astype(dt)
        if rng.random() < 0.2 and dt in (int, np.int32, float):
            a = a * rng.integers(1, 50, g.n).astype(dt)
        elif dt is float and rng.random() < 0.5:
            # fractions, e.g. the share of a cell's area that is water
            a = a * rng.uniform(0.02, 1.5, g.n)
            case.count("fractional_stream_array")
        if a.dtype == float and case.rng.random() < 0.3:
            # cells without a value (a masked array) are not streams
            a[~net.mask] = np.where(case.rng.random(int((~net.mask).sum())) < case.pick([0.1, 1.0]), np.nan, 0.0)
            case.count("nan_background")
        a = case.arr(a)
        net.array = a
        if net.form == "set":
            case.setup("set_stream_array", net.obj.set_stream_array, a)
        else:
            net.arg = {"stream_array": a}
    if net.mask.sum() < min_cells:
        raise Skip("no streams")
    case.desc.update(stream_cells=int(net.mask.sum()), stream_from=net.form, style=style,
                     basin=net.basin is not None, terminals=len(net.terms))
    case.count("network:" + net.form + ":" + style)
    case.count("stream_cells", net.mask.sum())
    net.links = M.stream_links(net.f, net.mask)
    net.n_in = Counter(d for c, d in net.links.items() if d is not None and d != c)
    case.count("confluences", sum(1 for v in net.n_in.values() if v > 1))
    return net


def signature(case, net, *more):
    case.nontrivial(net.f, net.mask, *more)


# -------------------------------------------------------------------- S01
@prop("S01")
def delineation_is_threshold(case):
    import dany
    cls = case.pick([dany.Sfr6, dany.Sfr2005, dany.PrmsStreams])
    rng = case.rng
    g = case.geometry(large=True)
    terms = pick_terminals(case, 0.2)
    z, outlet, _ = conditioned(case, terms)
    grid = case.new_grid()
    fd = fd_object(case, z, grid=grid, judged=False)
    f = usable_fdir(case, directions(case, fd, judged=False, **terminal_arg(case, terms)))
    cells = bool(rng.random() < (0.5 if g.n < 1000 else 0.2))
    acc = np.asarray(case.setup("flow_accumulation", fd.flow_accumulation, as_cells=cells)).ravel()
    obj = case.setup(cls.__name__, cls, grid, fd)
    for rep in range(int(rng.integers(1, 4))):
        r = rng.random() if g.n < 1000 else rng.uniform(0.3, 1.0)
        if r < 0.45:
            thr = float(rng.choice(acc))                    # lands exactly on a cell's value
            arg = thr
        elif r < 0.6:
            thr = int(np.quantile(acc, rng.uniform(0.2, 0.9)))
            arg = thr
        else:
            thr = rng.choice(acc, g.n) * rng.choice([1.0, 0.5, 2.0], g.n)
            if rng.random() < 0.5:
                thr = np.where(rng.random(g.n) < 0.5, acc, thr)
            arg = case.arr(thr)
        kw = {}
        basin = None
        if rng.random() < 0.5:
            k = rng.random()
            if k < 0.4:
                basin = (rng.random(g.n) < 0.6).astype(int)
            elif k < 0.7:
                basin = rng.integers(0, 4, g.n)
            else:
                c = int(rng.integers(g.n))
                basin = np.zeros(g.n, int)
                basin[sorted(M.upstream_set(f, c))] = 1
            kw["basin_boundary"] = case.arr(basin_labels(case, basin))
        s = np.asarray(case.call("delineate_streams", obj.delineate_streams, arg, **kw))
        if not case.check(s.shape == case.shape, "shape", lambda: f"stream array of shape {s.shape}"):
            return
        ref = acc >= thr
        if basin is not None:
            ref = ref & (basin != 0)
        b = np.flatnonzero((s.ravel() != 0) != ref)
        case.check(len(b) == 0, "threshold",
                   lambda: f"cell {b[0]}: accumulation {acc[b[0]]!r}, threshold {np.broadcast_to(thr, g.n)[b[0]]!r}, inside={None if basin is None else int(basin[b[0]])}, stream={s.ravel()[b[0]]}")
        case.check(set(np.unique(s)) <= {0, 1}, "not-binary", lambda: f"values {np.unique(s)[:5]}")
        st = np.asarray(obj.stream_array)
        case.check(st.shape == case.shape and np.array_equal(st, s), "stored-streams", "stream_array differs from the delineated streams")
        st[...] = 7
        case.check(np.array_equal(obj.stream_array.ravel() != 0, ref), "stream-array-not-a-copy", "editing the returned stream_array changed the stored streams")
        case.count("stream_cells", ref.sum())
        case.count("cells_on_threshold", (acc == thr).sum())
        case.count("array_thresholds", np.ndim(thr) > 0)
        case.count("basin_masks", basin is not None)
        if 0 < ref.sum() < g.n:
            case.nontrivial(acc, np.asarray(thr), basin)
    a = (rng.random(g.n) < 0.4).astype(case.pick([int, bool, float, np.int8]))
    if a.dtype == float and rng.random() < 0.5:
        a *= rng.random(g.n)
    case.call("set_stream_array", obj.set_stream_array, case.arr(a))
    st = np.asarray(obj.stream_array)
    case.check(st.shape == case.shape and np.array_equal(st.ravel(), a), "custom-streams", "stream_array differs from the array that was set")
    if rng.random() < 0.3:
        for what, fn in (("stream array", lambda: obj.set_stream_array(np.ones(g.n + 1, int))),
                         ("threshold array", lambda: obj.delineate_streams(np.ones(g.n + 3)))):
            try:
                case.mon.call("wrong_size", fn)
                case.check(False, "wrong-size-accepted", f"{what} of the wrong size was accepted")
            except Exception as e:
                if not hasattr(e, "exc"):
                    raise
        case.check(np.array_equal(np.asarray(obj.stream_array).ravel(), a), "custom-streams", "a refused array changed the stored streams")


# -------------------------------------------------------------------- S02
def _numbering(case, net, graph):
    """stream_array after numbering -> node -> reach, checked to be a bijection"""
    arr = np.asarray(net.obj.stream_array)
    case.check(arr.shape == case.shape, "shape", lambda: f"numbered stream array of shape {arr.shape}")
    arr = arr.ravel()
    on = np.flatnonzero(net.mask)
    ok = case.check(np.array_equal(np.flatnonzero(arr != 0), on), "stream-cells-changed",
                    lambda: f"cells {sorted(set(np.flatnonzero(arr != 0)) ^ set(on))[:5]} gained or lost their stream")
    return (arr if ok else None), on


@prop("S02")
def reach_graph_follows_flow(case):
    import dany
    cls = case.pick([dany.Sfr6, dany.PrmsStreams])
    net = network(case, cls)
    kw = dict(net.arg)
    if cls is dany.PrmsStreams and case.rng.random() < 0.5:
        kw["group_segments"] = False
    for rep in range(1 + (case.rng.random() < 0.25)):
        graph = case.call("get_stream_connectivity", net.obj.get_stream_connectivity, **kw)
        arr, on = _numbering(case, net, graph)
        if arr is None:
            return
        n = len(on)
        if not case.check(sorted(int(v) for v in arr[on]) == list(range(1, n + 1)), "numbering",
                          lambda: f"reach numbers {sorted(set(arr[on]))[:8]} for {n} stream cells"):
            return
        case.check(sorted(int(k) for k in graph) == list(range(1, n + 1)), "graph-keys",
                   lambda: f"graph of {len(graph)} reaches for {n} stream cells")
        for c in on:
            d = net.links[c]
            ref = 0 if d is None else int(arr[d])
            got = int(graph[int(arr[c])])
            if not case.check(got == ref, "wrong-downstream-reach",
                              lambda: f"stream cell {c} (reach {arr[c]}) flows to cell {net.f[c]}: downstream reach should be {ref}, is {got}"):
                return
            if not case.check(d is None or d == c or arr[c] < arr[d], "not-downstream-ordered",
                              lambda: f"reach {arr[c]} drains to the lower numbered reach {ref}"):
                return
    case.count("reaches", n)
    if any(d is not None and d != c for c, d in net.links.items()):
        signature(case, net)


# -------------------------------------------------------------------- S03
@prop("S03")
def mf6_tables(case):
    import dany
    rng = case.rng
    net = network(case, dany.Sfr6)
    obj, g = net.obj, case.g
    pre = rng.random()
    kw = {}
    if net.form == "argument":
        if pre < 0.5:
            kw = dict(net.arg)
        else:
            case.call("get_stream_connectivity", obj.get_stream_connectivity, **net.arg)
    elif pre < 0.2:
        case.call("get_stream_connectivity", obj.get_stream_connectivity)
    elif pre < 0.35:
        case.call("create_stream_vectors", obj.create_stream_vectors)
        case.count("after_stream_vectors")
    if rng.random() < 0.5 and not kw:
        con = case.call("connectiondata", obj.connectiondata)
        pak = case.call("packagedata", obj.packagedata)
    else:
        pak = case.call("packagedata", obj.packagedata, **kw)
        con = case.call("connectiondata", obj.connectiondata)
    flat = case.call("packagedata_detuple", obj.packagedata, detuple=True)
    arr, on = _numbering(case, net, None)
    if arr is None:
        return
    n = len(on)
    if not case.check(sorted(int(v) for v in arr[on]) == list(range(1, n + 1)), "numbering", "reach numbers are not 1..n"):
        return
    node = {int(arr[c]) - 1: int(c) for c in on}
    # connection table
    case.check([int(r[0]) for r in con] == list(range(n)), "connection-rows", lambda: f"connection rows {[r[0] for r in con][:6]} for {n} reaches")
    up, dn = defaultdict(list), defaultdict(list)
    for r in con:
        for v in r[1:]:
            # reach 0 can only ever be upstream: numbers increase downstream
            (dn if v < 0 else up)[int(r[0])].append(abs(int(v)))
    for r in range(n):
        c = node[r]
        d = net.links[c]
        rd = [] if d is None or d == c else [int(arr[d]) - 1]
        ru = sorted(int(arr[u]) - 1 for u, t in net.links.items() if t == c and u != c)
        if not case.check(dn[r] == rd and sorted(up[r]) == ru, "connections",
                          lambda: f"reach {r} (cell {c}): downstream {dn[r]} expected {rd}, upstream {sorted(up[r])} expected {ru}"):
            return
    # package table
    if not case.check(len(pak) == n and len(flat) == n, "package-rows", lambda: f"{len(pak)}/{len(flat)} package rows for {n} reaches"):
        return
    cen = g.wcenters
    idx = np.arange(g.n)
    case.check(np.array_equal(np.asarray(pak["ifno"], int), np.arange(n)), "package-order", lambda: f"reach numbers {pak['ifno'][:6]}")
    nc = case.shape[-1]
    for i in range(n):
        c = node[i]
        d = net.links[c]
        if case.gtype == "structured":
            cid = (0, c // nc, c % nc)
        elif case.gtype == "vertex":
            cid = (0, c)
        else:
            cid = (c,)
        rec, fl = pak[i], flat[i]
        if not case.check(tuple(int(q) for q in rec["cellid"]) == cid, "cellid", lambda: f"reach {i} in cell {rec['cellid']}, expected {cid}"):
            return
        names = {3: ("k", "i", "j"), 2: ("k", "node"), 1: ("node",)}[len(cid)]
        case.check(tuple(int(fl[q]) for q in names) == cid and all(fl[q] == rec[q] for q in pak.dtype.names if q != "cellid"),
                   "flattened-table", lambda: f"flattened row {fl} differs from {rec}")
        # length: 1.5 x distance to the next reach, or 1.5 x a side length at the end of a stream
        if d is not None and d != c:
            ref = 1.5 * math.hypot(*(cen[d] - cen[c]))
            case.check(abs(rec["rlen"] - ref) <= 1e-7 * ref + 1e-9, "reach-length", lambda: f"reach {i}: length {rec['rlen']!r}, expected {ref!r}")
        else:
            p = g.wverts[g.polys[c]]
            s = np.hypot(*(p - np.roll(p, 1, axis=0)).T)
            case.check(1.5 * s.min() * (1 - 1e-6) - 1e-9 <= rec["rlen"] <= 1.5 * s.max() * (1 + 1e-6), "end-reach-length",
                       lambda: f"end reach {i}: length {rec['rlen']!r}, sides {s}")
        to = int(net.f[c])
        if to == c or to < 0:
            grad = 0.0
        else:
            drop = net.z[c] - net.z[to]
            grad = 0.0 if 0 < drop < 1e-6 else drop / math.hypot(*(cen[to] - cen[c])) / 1.5
        case.check(abs(rec["rgrd"] - grad) <= 1e-7 * abs(grad) + 1e-15, "gradient", lambda: f"reach {i}: gradient {rec['rgrd']!r}, expected {grad!r}")
        case.check(rec["rtp"] == net.z[c], "reach-top", lambda: f"reach {i}: top {rec['rtp']!r}, cell elevation {net.z[c]!r}")
        case.check(rec["ustrf"] == 1 and rec["ndv"] == 0, "diversions", lambda: f"reach {i}: upstream fraction {rec['ustrf']!r}, {rec['ndv']!r} diversions")
        if not case.check(int(rec["ncon"]) == len(up[i]) + len(dn[i]) == len(con[i]) - 1, "ncon", lambda: f"reach {i}: ncon {rec['ncon']}, connections {con[i][1:]}"):
            return
        if case.violations:
            return
    case.count("reaches", n)
    case.count("connections", sum(len(r) - 1 for r in con))
    signature(case, net)


# -------------------------------------------------------------------- S04
def _segments(case, net, graph, group):
    """seg number per cell, verified against the reference segmentation;
    returns {seg: ordered cells} or None"""
    arr, on = _numbering(case, net, graph)
    if arr is None:
        return None
    starts = M.segment_starts(net.links) if group else set(net.links)
    ref = {}
    for s in sorted(starts):
        cells, c = [s], s
        while True:
            d = net.links[c]
            if d is None or d in starts:
                break
            cells.append(d)
            c = d
        ref[s] = (cells, d)
    nseg = len(ref)
    if not case.check(sorted(set(int(v) for v in arr[on])) == list(range(1, nseg + 1)), "segment-numbers",
                      lambda: f"segment numbers {sorted(set(int(v) for v in arr[on]))[:8]}, expected 1..{nseg}"):
        return None
    segs = {}
    for s, (cells, d) in ref.items():
        k = int(arr[s])
        if not case.check(all(arr[c] == k for c in cells) and k not in segs, "segment-cells",
                          lambda: f"segment {k} should hold exactly cells {cells[:8]}, they carry {[int(arr[c]) for c in cells][:8]}"):
            return None
        segs[k] = cells
    if not case.check(sorted(int(k) for k in graph) == list(range(1, nseg + 1)), "graph-keys",
                      lambda: f"graph keys {sorted(graph)[:8]} for {nseg} segments"):
        return None
    for s, (cells, d) in ref.items():
        k = int(arr[s])
        got = int(graph[k])
        if d is None:
            ok, exp = got == 0, "0"
        elif d == s and cells == [s]:
            ok, exp = got in (0, k), f"0 or {k}"
        else:
            ok, exp = got == int(arr[d]), str(int(arr[d]))
        if not case.check(ok, "wrong-downstream-segment",
                          lambda: f"segment {k} (cells {cells[:6]}) continues in cell {d}: downstream segment should be {exp}, is {got}"):
            return None
        if not case.check(got in (0, k) or k < got, "not-downstream-ordered", lambda: f"segment {k} drains to the lower numbered {got}"):
            return None
    case.count("segments", nseg)
    case.count("multi_cell_segments", sum(len(c) > 1 for c in segs.values()))
    return segs


@prop("S04")
def segmentation(case):
    import dany
    cls = case.pick([dany.Sfr2005, dany.Sfr2005, dany.PrmsStreams])
    net = network(case, cls)
    group = bool(cls is dany.PrmsStreams or case.rng.random() < 0.75)
    kw = dict(net.arg)
    if cls is dany.PrmsStreams or not group or case.rng.random() < 0.5:
        kw["group_segments"] = group
    case.desc.update(group=group)
    graph = case.call("get_stream_connectivity", net.obj.get_stream_connectivity, **kw)
    segs = _segments(case, net, graph, group)
    if segs and len(segs) > 1:
        signature(case, net, group)


# -------------------------------------------------------------------- S05
@prop("S05")
def mf2005_tables(case):
    import dany
    rng = case.rng
    net = network(case, dany.Sfr2005, structured=True)
    g, obj = case.g, net.obj
    group = bool(rng.random() < 0.75)
    kw = {} if group and rng.random() < 0.5 else {"group_segments": group}
    order = rng.random()
    if order < 0.4:
        graph = case.call("get_stream_connectivity", obj.get_stream_connectivity, **net.arg, **kw)
        rd = case.call("reach_data", obj.reach_data)
        sd = case.call("segment_data", obj.segment_data)
    elif order < 0.7:
        rd = case.call("reach_data", obj.reach_data, **net.arg, **kw)
        sd = case.call("segment_data", obj.segment_data)
    else:
        sd = case.call("segment_data", obj.segment_data, **net.arg, **kw)
        rd = case.call("reach_data", obj.reach_data)
    graph = {int(a): int(b) for a, b in zip(sd["nseg"], sd["outseg"])}
    if not case.check([int(v) for v in sd["nseg"]] == list(range(1, len(sd) + 1)), "segment-rows", lambda: f"nseg {list(sd['nseg'])[:8]}"):
        return
    segs = _segments(case, net, graph, group)
    if segs is None:
        return
    exp = [(k, i + 1, c) for k in sorted(segs) for i, c in enumerate(segs[k])]
    got = [(int(r["iseg"]), int(r["ireach"]), int(r["node"])) for r in rd]
    if not case.check(got == exp, "reach-rows",
                      lambda: f"rows (segment, reach, cell) start {[a for a, b in zip(got, exp) if a != b][:3]}, expected {[b for a, b in zip(got, exp) if a != b][:3]}; {len(got)} rows for {len(exp)} stream cells"):
        return
    nc = case.shape[1]
    cen = g.wcenters
    delr, delc = g.struct
    for r, (k, ir, c) in zip(rd, exp):
        i, j = divmod(c, nc)
        if not case.check((int(r["k"]), int(r["i"]), int(r["j"])) == (0, i, j), "reach-cell", lambda: f"reach {k}/{ir} placed in {(r['k'], r['i'], r['j'])}, expected {(0, i, j)}"):
            return
        if ir < len(segs[k]):
            d = segs[k][ir]
        else:
            d = net.links[c]
        if d is None or d == c:
            ln, sl = 1.5 * (delr[j] + delc[i]) / 2, 0.0001
        else:
            ln = 1.5 * math.hypot(*(cen[d] - cen[c]))
            sl = (net.z[c] - net.z[d]) / ln
        ok = case.check(abs(r["rchlen"] - ln) <= 2e-6 * ln, "reach-length", lambda: f"reach {k}/{ir}: length {r['rchlen']!r}, expected {ln!r}")
        ok &= case.check(abs(r["slope"] - sl) <= 3e-6 * abs(sl) + 1e-12, "reach-slope", lambda: f"reach {k}/{ir}: slope {r['slope']!r}, expected {sl!r}")
        ok &= case.check(abs(r["strtop"] - net.z[c]) <= 1e-6 * abs(net.z[c]) + 1e-6, "reach-top", lambda: f"reach {k}/{ir}: top {r['strtop']!r}, expected {net.z[c]!r}")
        if not ok:
            return
    case.check([int(v) for v in rd["reachID"]] == list(range(1, len(rd) + 1)), "reach-ids", "reach ids are not 1..n in row order")
    case.count("reach_rows", len(rd))
    if len(segs) > 1:
        signature(case, net, group)


# -------------------------------------------------------------------- S06
@prop("S06")
def runoff_to_first_segment(case):
    import dany
    rng = case.rng
    net = network(case, dany.Sfr2005)
    g, obj = case.g, net.obj
    group = bool(rng.random() < 0.75)
    kw = {} if group and rng.random() < 0.5 else {"group_segments": group}
    r = rng.random()
    if r < 0.35:
        case.call("get_stream_connectivity", obj.get_stream_connectivity, **net.arg, **kw)
        irb = case.call("irunbnd", obj.irunbnd, **(net.arg if rng.random() < 0.5 else {}))
    elif r < 0.5:
        graph = case.call("get_stream_connectivity", obj.get_stream_connectivity, **net.arg, **kw)
        own = np.asarray(obj.stream_array)
        if rng.random() < 0.5:
            # the numbered streams on a background without value
            own = own.astype(case.pick([float, np.float32]))
            own[own == 0] = np.where(rng.random(int((own == 0).sum())) < 0.7, np.nan, 0.0)
            case.count("nan_background")
        irb = case.call("irunbnd", obj.irunbnd, stream_array=own, segment_graph=graph)
    else:
        irb = case.call("irunbnd", obj.irunbnd, **net.arg, **kw)
    irb = np.asarray(irb)
    if not case.check(irb.shape == case.shape, "shape", lambda: f"irunbnd of shape {irb.shape}"):
        return
    irb = irb.ravel()
    arr, on = _numbering(case, net, None)
    if arr is None:
        return
    first = M.first_hit(net.f, net.mask)
    ref = np.array([0 if h < 0 else int(arr[h]) for h in first])
    b = np.flatnonzero(irb != ref)
    case.check(len(b) == 0, "wrong-segment",
               lambda: f"cell {b[0]} runs off to segment {irb[b[0]]}, the first stream cell on its path is {first[b[0]]} (segment {ref[b[0]]})")
    # the numbering itself has to be one where equal numbers mean equal segments
    starts = M.segment_starts(net.links) if group else set(net.links)
    case.check(len(set(int(v) for v in arr[on])) == len(starts), "segment-count", lambda: f"{len(set(arr[on]))} segments, expected {len(starts)}")
    case.count("land_cells_with_segment", (ref[~net.mask] > 0).sum())
    case.count("cells_without_stream", (ref == 0).sum())
    if (~net.mask).any():
        signature(case, net, group)
    if rng.random() < 0.2:
        # another numbered network with its graph, whatever was calculated before
        own = np.where(rng.random(g.n) < rng.choice([0.1, 0.4]), rng.integers(1, 2 * g.n + 2, g.n), 0)
        own[int(rng.integers(g.n))] = int(rng.integers(1, 99))
        graph = {int(k): 0 for k in np.unique(own) if k}
        irb = np.asarray(case.call("irunbnd", obj.irunbnd, case.arr(own), segment_graph=graph)).ravel()
        first = M.first_hit(net.f, own > 0)
        ref = np.array([0 if h < 0 else int(own[h]) for h in first])
        case.check(np.array_equal(irb, ref), "wrong-segment", lambda: f"numbers given with their graph: cell {np.flatnonzero(irb != ref)[0]} runs off to "
                   f"segment {irb[irb != ref][0]}, not to {ref[irb != ref][0]}")
        case.count("given_numberings")


# -------------------------------------------------------------------- S07
@prop("S07")
def stream_lines(case):
    import dany
    rng = case.rng
    cls = case.pick([dany.Sfr6, dany.Sfr2005, dany.PrmsStreams])
    net = network(case, cls)
    g, obj = case.g, net.obj
    group = bool(rng.random() < 0.75)
    kw = {} if group and rng.random() < 0.5 else {"group_segments": group}
    arg = dict(net.arg)
    if arg and rng.random() < 0.3:
        a = np.asarray(arg["stream_array"], float).copy()
        a[a == 0] = np.where(rng.random((a == 0).sum()) < 0.5, np.nan, 0.0)
        arg["stream_array"] = a
        case.count("nan_background")
    vec = case.call("create_stream_vectors", obj.create_stream_vectors, **arg, **kw)
    arr, on = _numbering(case, net, None)
    if arr is None:
        return
    cen = g.wcenters
    starts = M.segment_starts(net.links) if group else set(net.links)
    tol = 1e-9 * float(np.max(np.abs(cen))) + 1e-6
    expected = 0
    for s in starts:
        k = int(arr[s])
        cells, c = [s], s
        while True:
            d = net.links[c]
            if d is None or d in starts:
                break
            cells.append(d)
            c = d
        if d is not None and d != c:
            cells.append(d)
        if len(cells) < 2:
            # nothing to draw; a line of no length may stand for an outlet cell
            if k in vec:
                p = np.asarray(vec[k], float)
                case.check(len(p) > 1, "no-line", lambda: f"segment {k}: the single point {vec[k]} is no line")
                case.check(np.abs(p - cen[s]).max() <= tol, "line", lambda: f"segment {k}: line {vec[k]} leaves its only cell {s}")
            continue
        expected += 1
        if not case.check(k in vec, "missing-line", lambda: f"segment {k} (cells {cells[:6]}) has no line"):
            return
        p = np.asarray([list(map(float, q)) for q in vec[k]], float)
        if not case.check(p.shape == (len(cells), 2) and np.abs(p - cen[cells]).max() <= tol, "line",
                          lambda: f"segment {k}: line {p.tolist()[:5]}, expected the centres of cells {cells[:6]}: {cen[cells][:5].tolist()}"):
            return
    extra = set(int(k) for k in vec) - set(int(v) for v in arr[on])
    case.check(not extra, "unknown-segment", lambda: f"lines for unknown segments {sorted(extra)[:5]}")
    case.count("lines", expected)
    if expected > 1:
        signature(case, net, group)


# -------------------------------------------------------------------- S08
@prop("S08")
def control_points(case):
    import dany
    rng = case.rng
    cls = case.pick([dany.Sfr6, dany.Sfr2005, dany.PrmsStreams])
    net = network(case, cls, forms=("delineate",))
    g = case.g
    k = int(rng.integers(1, 5))
    cells = [int(c) for c in rng.choice(g.n, min(k, g.n), replace=False, p=net.acc / net.acc.sum() if rng.random() < 0.6 else None)]
    pts = pour_points(case, cells)
    thr = float(net.acc.max() * rng.choice([0.1, 0.5, 2.0]) + 11.5)
    if rng.random() < 0.12:
        # nothing given: every other cell keeps the documented threshold of 0
        thr = 0.0
        a = case.call("threshold_from_control_points", net.obj.threshold_from_control_points, pts)
        case.count("default_threshold")
    else:
        a = case.call("threshold_from_control_points", net.obj.threshold_from_control_points, pts, threshold=thr)
    a = np.asarray(a)
    if not case.check(a.shape == case.shape, "shape", lambda: f"threshold array of shape {a.shape}"):
        return
    a = a.ravel()
    into = defaultdict(list)
    for c, d in enumerate(net.f):
        if d != c:
            into[int(d)].append(c)
    # every cell on the main stem above a control point, following the inflow that
    # accumulates most (any of them when several tie)
    must, may = set(), set()
    for c in cells:
        front = [(c, True)]
        seen = set()
        while front:
            c, sure = front.pop()
            if (c, sure) in seen:
                continue
            seen.add((c, sure))
            may.add(c)
            if sure:
                must.add(c)
            if into[c]:
                hi = max(net.acc[u] for u in into[c])
                best = [u for u in into[c] if net.acc[u] >= hi * (1 - 1e-12)]
                front += [(u, sure and len(best) == 1) for u in best]
    for c in range(g.n):
        if c in must:
            ok = case.check(a[c] < net.acc[c], "stem-not-stream", lambda: f"cell {c} on the stem above {cells} keeps threshold {a[c]!r} with accumulation {net.acc[c]!r}")
        elif c not in may:
            ok = case.check(a[c] == thr, "off-stem-changed", lambda: f"cell {c} is not on a stem above {cells}, its threshold is {a[c]!r} instead of {thr!r}")
        else:
            ok = case.check(a[c] == thr or a[c] < net.acc[c], "tied-stem", lambda: f"cell {c}: threshold {a[c]!r}")
        if not ok:
            return
    s = np.asarray(case.call("delineate_streams", net.obj.delineate_streams, a.reshape(case.shape))).ravel()
    case.check(all(s[c] for c in must), "stem-not-delineated", lambda: f"stem cells {[c for c in must if not s[c]][:5]} are not streams")
    case.count("control_points", len(cells))
    case.count("stem_cells", len(must))
    if len(must) > len(cells):
        case.nontrivial(net.f, cells)


# -------------------------------------------------------------------- S09 / S10
def _cascade_setup(case):
    import dany
    rng = case.rng
    net = network(case, dany.PrmsStreams, terminals=False)
    g = case.g
    # the active area: everything or the catchment of a cell (any labels)
    net.active = np.ones(g.n, bool)
    kw = {}
    if rng.random() < 0.6:
        if rng.random() < 0.3:
            # any area, also one water leaves and enters again
            net.basin = (rng.random(g.n) < rng.choice([0.4, 0.8])).astype(int)
            net.basin[int(rng.integers(g.n))] = 1
            case.count("arbitrary_active_area")
        elif net.basin is None:
            cell = int(rng.choice(g.n, p=net.acc / net.acc.sum()))
            ws = sorted(M.upstream_set(net.f, cell))
            net.basin = np.zeros(g.n, int)
            net.basin[ws] = rng.integers(1, 5, len(ws)) if rng.random() < 0.5 else 1
        net.active = net.basin != 0
        kw["basin_boundary"] = case.arr(basin_labels(case, net.basin))
    net.group = bool(rng.random() < 0.5)
    net.kw = kw
    r = rng.random()
    if r < 0.5:
        net.ckw = dict(net.arg)
        if net.group or rng.random() < 0.5:
            net.ckw["group_segments"] = net.group
    else:
        case.call("get_stream_connectivity", net.obj.get_stream_connectivity, **net.arg, group_segments=net.group)
        net.ckw = dict(net.arg) if rng.random() < 0.5 else {}
        case.count("connectivity_first")
    case.count("with_basin_boundary", net.basin is not None and "basin_boundary" in kw)
    return net


def _strm_tags(case, net, down, seg):
    arr, on = _numbering(case, net, None)
    if arr is None:
        return False
    starts = M.segment_starts(net.links) if net.group else set(net.links)
    nn = len(set(int(v) for v in arr[on]))
    if not case.check(nn == len(starts), "segment-count", lambda: f"{nn} numbered segments, expected {len(starts)}"):
        return False
    ref = np.array([int(arr[d]) for d in down])
    b = np.flatnonzero(ref != seg)
    return case.check(len(b) == 0, "stream-segment-tag",
                      lambda: f"link to cell {down[b[0]]} is tagged with stream segment {seg[b[0]]}, that cell carries {ref[b[0]]}")


def _receiver(net, c):
    """the active cell that ``c`` flows to; itself at outlets, sinks and divides"""
    d = int(net.f[c])
    return d if d >= 0 and net.active[d] else c


def _arrays(case, out):
    case.check(all(isinstance(a, np.ndarray) for a in out), "cascade-arrays", lambda: f"cascade tables of types {[type(a).__name__ for a in out]}")
    up, dn, pct, seg = (np.asarray(a) for a in out)
    ok = case.check(len(up) == len(dn) == len(pct) == len(seg), "ragged", lambda: f"lengths {[len(a) for a in (up, dn, pct, seg)]}")
    return up.astype(int) - 1, dn.astype(int) - 1, pct.astype(float), seg.astype(int), ok


@prop("S09")
def many_to_one_cascades(case):
    net = _cascade_setup(case)
    g = case.g
    for rep in range(1 + (case.rng.random() < 0.3)):
        out = case.call("get_cascades", net.obj.get_cascades, **net.ckw, **net.kw)
        up, dn, pct, seg, ok = _arrays(case, out)
        if not ok or not _strm_tags(case, net, dn, seg):
            return
        links = Counter(zip(up.tolist(), dn.tolist()))
        act = np.flatnonzero(net.active)
        ref = {int(c): _receiver(net, int(c)) for c in act}
        exp = set(ref.items())
        if not case.check(set(links) == exp, "links",
                          lambda: f"missing links (cell, to) {sorted(exp - set(links))[:4]}, wrong links {sorted(set(links) - exp)[:4]}"):
            return
        case.check((pct == 1).all(), "fraction", lambda: f"fractions {np.unique(pct)[:5]}")
        # each link once; the repetition present in the tree is a recorded finding
        to = np.where(net.f < 0, np.arange(g.n), net.f)
        sib = Counter(int(to[c]) for c in act)
        rep_ = {l: k for l, k in links.items() if k > 1}
        if rep_:
            same = all(k == sib[int(to[l[0]])] for l, k in links.items())
            case.fail("sibling-repetition" if same else "repeated-links",
                      f"links listed several times, e.g. {list(rep_.items())[:3]} ({len(up)} rows for {len(links)} links)")
            case.count("repeated_rows", len(up) - len(links))
    case.count("links", len(links))
    case.count("links_into_streams", (seg > 0).sum())
    case.count("active_outlets", sum(1 for c, d in ref.items() if c == d))
    signature(case, net, net.active)


@prop("S10")
def many_to_many_cascades(case):
    net = _cascade_setup(case)
    g = case.g
    out = case.call("get_cascades", net.obj.get_cascades, many2many=True, **net.ckw, **net.kw)
    up, dn, pct, seg, ok = _arrays(case, out)
    if not ok or not _strm_tags(case, net, dn, seg):
        return
    slopes = M.slope_table(g.adj(), net.z, g.wcenters, 1e-6)
    got = defaultdict(dict)
    for u, d, p in zip(up.tolist(), dn.tolist(), pct.tolist()):
        if not case.check(d not in got[u], "repeated-links", lambda: f"link {u}->{d} is listed twice"):
            return
        got[u][d] = p
    act = set(np.flatnonzero(net.active).tolist())
    if not case.check(set(got) == act, "hrus", lambda: f"active cells without link {sorted(act - set(got))[:5]}, links from inactive cells {sorted(set(got) - act)[:5]}"):
        return
    shared = 0
    for c in sorted(act):
        own = {_receiver(net, c): 1.0}
        if net.mask[c]:
            exp = own
        else:
            s = {k: -v for k, v in slopes[c].items() if v < 0 and net.active[k]}
            if not s:
                exp = own
            else:
                tot = sum(s.values())
                fr = {k: v / tot for k, v in s.items()}
                if any(abs(v - 0.01) < 1e-8 for v in fr.values()):
                    continue
                s = {k: s[k] for k, v in fr.items() if v > 0.01}
                tot = sum(s.values())
                exp = {k: v / tot for k, v in s.items()}
        q = got[c]
        if not case.check(set(q) == set(exp), "targets", lambda: f"cell {c} (stream={bool(net.mask[c])}) cascades to {q}, expected {exp}"):
            return
        if not case.check(all(abs(q[k] - exp[k]) <= 1e-6 for k in exp) and abs(sum(q.values()) - 1) <= 1e-9, "fractions",
                          lambda: f"cell {c} (stream={bool(net.mask[c])}) splits {q}, expected {exp}"):
            return
        shared += len(exp) > 1
    case.count("links", len(up))
    case.count("hrus_with_several_targets", shared)
    if shared:
        signature(case, net, net.active)


# -------------------------------------------------------------------- S11
REACH_DEF = {"strhc1": 1.0, "strthick": 1.0}
SEG_DEF = {"etsw": 0.0, "flow": 1.0, "icalc": 1, "iprior": 0, "pptsw": 0.0, "roughch": 0.025,
           "runoff": 0.0, "width1": 10, "width2": 10}
SLOPE_DEF = {"default_slope": 0.001, "min_slope": 0.0001, "max_slope": 1.0}


def _roundtrip(case, obj, fields):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "obj.bin")
        if case.rng.random() < 0.4:
            # a file of an earlier run with other values is in the way
            old = copy.copy(obj)
            for k in fields:
                setattr(old, k, None)
            case.call("write", old.write, p)
            case.count("files_overwritten")
            if case.rng.random() < 0.5:
                case.call("read", type(obj).read, p)
        case.call("write", obj.write, p)
        back = case.call("read", type(obj).read, p)
    case.check(type(back) is type(obj), "roundtrip-type", f"read back a {type(back).__name__}")
    for k in fields:
        a, b = getattr(obj, k), getattr(back, k, None)
        same = (np.array_equal(a, b) if not isinstance(a, np.ndarray) or a.dtype.names is None
                else a.dtype == b.dtype and all(np.array_equal(a[n], b[n], equal_nan=a[n].dtype.kind == "f") for n in a.dtype.names))
        if not case.check(same, "roundtrip", lambda: f"{k} changed by writing and reading the object"):
            return


@prop("S11")
def builder_objects(case):
    import dany
    # (the very large and long cases take turns)
    turn = case.idx // 1300 % 2 if case.idx % 1300 in (7, 657) else None
    if case.rng.random() < 0.5 if turn is None else turn:
        _builder_cascades(case)
    else:
        _builder_streams(case)


def _builder_cascades(case):
    net = _cascade_setup(case)
    rng, g = case.rng, case.g
    m2m = bool(rng.random() < 0.5)
    group = bool(rng.random() < 0.6)
    kw = dict(net.arg if net.form == "argument" else {}, **net.kw)
    if net.form == "delineate" and rng.random() < 0.4:
        kw["stream_array"] = case.arr(net.mask.astype(int))
    if not (group and rng.random() < 0.4):
        kw["group_segments"] = group
    o = case.call("get_pygsflow_builder_object", net.obj.get_pygsflow_builder_object, many2many=m2m, **kw)
    case.count("cascade_objects")
    ref = case.call("get_cascades", net.obj.get_cascades, many2many=m2m, **net.kw)
    for k, a in zip(("hru_up_id", "hru_down_id", "hru_pct_up", "hru_strmseg_down_id"), ref):
        case.check(np.array_equal(getattr(o, k), a), "object-links", lambda: f"{k} differs from get_cascades")
    net.group = group
    up, dn, pct, seg, ok = _arrays(case, (o.hru_up_id, o.hru_down_id, o.hru_pct_up, o.hru_strmseg_down_id))
    if not _strm_tags(case, net, dn, seg):
        return
    case.check(o.ncascade == len(up), "ncascade", lambda: f"ncascade {o.ncascade} for {len(up)} links")
    case.check(o.cascade_flag == (0 if m2m else 1), "cascade-flag", lambda: f"cascade_flag {o.cascade_flag} with many-to-many={m2m}")
    case.check(o.nreaches == net.mask.sum(), "nreaches", lambda: f"nreaches {o.nreaches} for {net.mask.sum()} stream cells")
    starts = M.segment_starts(net.links) if group else set(net.links)
    case.check(o.nsegments == len(starts), "nsegments", lambda: f"nsegments {o.nsegments}, expected {len(starts)}")
    case.check(bool(o.dany_flag), "flag", "dany_flag is not set")
    for k, a in (("hru_slope", net.fd.slope), ("hru_aspect", net.fd.aspect), ("hru_area", net.fd.area)):
        case.check(np.array_equal(np.ravel(getattr(o, k)), np.ravel(a)), "hru-attribute", lambda: f"{k} differs from the flow direction object")
    case.check(np.allclose(np.ravel(o.hru_area), g.areas(), rtol=1e-6, atol=4e-15 * np.max(np.abs(g.wverts)) ** 2), "hru-attribute", "hru_area differs from the cell areas")
    _roundtrip(case, o, ("hru_up_id", "hru_down_id", "hru_pct_up", "hru_strmseg_down_id", "hru_slope", "hru_aspect", "hru_area", "ncascade", "nsegments", "nreaches", "cascade_flag"))
    signature(case, net, m2m, group)


def _builder_streams(case):
    import dany
    rng = case.rng
    net = network(case, dany.Sfr2005, structured=True, forms=("delineate", "set"))
    g, obj = case.g, net.obj
    group = bool(rng.random() < 0.75)
    over, kw = {}, {}
    apply_ = bool(rng.random() < 0.85)
    if rng.random() < 0.7:
        pool = {"strhc1": 0.25, "strthick": 3.5, "flow": 7.0, "roughch": 0.04, "width1": 4.5, "width2": 6.5,
                "etsw": 0.5, "pptsw": 0.125, "runoff": 2.0, "icalc": 2, "iprior": 1,
                "default_slope": 0.0625, "min_slope": 0.002, "max_slope": 0.05}
        for k in rng.choice(sorted(pool), int(rng.integers(1, 5)), replace=False):
            # (zero is a value like any other)
            over[str(k)] = 0 if k != "max_slope" and rng.random() < 0.25 else pool[k]
    kw.update(over)
    if not group or rng.random() < 0.5:
        kw["group_segments"] = group
    if not apply_:
        kw["apply_defaults"] = False
    given = rng.random() < 0.4
    rd0 = sd0 = None
    if given:
        rd0 = case.call("reach_data", obj.reach_data, group_segments=group)
        sd0 = case.call("segment_data", obj.segment_data, group_segments=group)
        # tables a user has completed: lengths, roughness, widths
        rd0["rchlen"] *= 2.5
        rd0["strthick"] = 7.25
        sd0["roughbk"] = 0.375
        sd0["width1"] = 12.5
        if rng.random() < 0.5:
            kw["reach_data"] = rd0.copy()
            case.count("tables_handed_in")
        if rng.random() < 0.5:
            kw["segment_data"] = sd0.copy()
            case.count("tables_handed_in")
        if rng.random() < 0.5:
            kw["irunbnd"] = np.full(case.shape, 3)
    if rng.random() < 0.15:
        bad = dict(kw, not_a_parameter=1.0)
        try:
            case.mon.call("unknown_parameter", obj.get_pygsflow_builder_object, **bad)
            case.check(False, "unknown-parameter-accepted", "an unsupported parameter name was accepted")
        except Exception as e:
            case.check(isinstance(getattr(e, "exc", None), KeyError), "unknown-parameter-error", f"unsupported parameter name: {e}")
    o = case.call("get_pygsflow_builder_object", obj.get_pygsflow_builder_object, **kw)
    case.count("stream_objects")
    rd, sd = o.reach_data, o.segment_data
    graph = {int(a): int(b) for a, b in zip(sd["nseg"], sd["outseg"])}
    segs = _segments(case, net, graph, group)
    if segs is None:
        return
    exp = [(k, i + 1, c) for k in sorted(segs) for i, c in enumerate(segs[k])]
    if not case.check([(int(r["iseg"]), int(r["ireach"]), int(r["node"])) for r in rd] == exp, "reach-rows", "reach rows do not follow the stream network"):
        return
    case.check(bool(o.dany_flag), "flag", "dany_flag is not set")
    same_group = {"group_segments": group}
    for name, t, own, made in (("reach_data", rd, rd0 if "reach_data" in kw else None, ("strtop", "slope", *REACH_DEF)),
                               ("segment_data", sd, sd0 if "segment_data" in kw else None, tuple(SEG_DEF))):
        if own is None:
            own = case.call(name, getattr(obj, name), **same_group)
        for k in own.dtype.names:
            if apply_ and k in made:
                continue
            eq = np.array_equal(t[k], own[k], equal_nan=own[k].dtype.kind == "f")
            if not case.check(eq, "object-table", lambda: f"{name}: {k} of the object is {t[k][:3]}, of the table {own[k][:3]} (defaults applied: {apply_})"):
                return
    irb = np.ravel(o.irunbnd)
    if "irunbnd" in kw:
        case.check((irb == 3).all(), "given-irunbnd", "the irunbnd array handed in was not used")
    else:
        arr = np.asarray(obj.stream_array).ravel()
        first = M.first_hit(net.f, net.mask)
        ref = np.array([0 if h < 0 else int(arr[h]) for h in first])
        case.check(np.array_equal(irb, ref), "object-irunbnd", lambda: f"cell {np.flatnonzero(irb != ref)[0]} runs off to the wrong segment")
    if apply_:
        rdef = {k: over.get(k, v) for k, v in REACH_DEF.items()}
        sdef = {k: over.get(k, v) for k, v in SEG_DEF.items()}
        sl = {k: over.get(k, v) for k, v in SLOPE_DEF.items()}
        for k, v in rdef.items():
            case.check(np.allclose(rd[k].astype(float), v, rtol=1e-6), "reach-default", lambda: f"{k} is {np.unique(rd[k])[:3]}, expected {v}")
        for k, v in sdef.items():
            case.check(np.allclose(sd[k].astype(float), v, rtol=1e-6), "segment-default", lambda: f"{k} is {np.unique(sd[k])[:3]}, expected {v}")
        cen = g.wcenters
        for r, (k, ir, c) in zip(rd, exp):
            d = segs[k][ir] if ir < len(segs[k]) else net.links[c]
            if d is None or d == c:
                s = sl["default_slope"]
            else:
                s = (net.z[c] - net.z[d]) / math.hypot(*(cen[d] - cen[c]))
            s = min(max(s, sl["min_slope"]), sl["max_slope"]) if s <= sl["max_slope"] else sl["max_slope"]
            if not case.check(abs(r["slope"] - s) <= 3e-6 * abs(s) + 1e-12, "object-slope",
                              lambda: f"reach {k}/{ir} (cell {c} to {d}): slope {r['slope']!r}, expected {s!r} within limits {sl}"):
                return
            if not case.check(abs(r["strtop"] - net.z[c]) <= 1e-6 * abs(net.z[c]) + 1e-6, "object-top", lambda: f"reach {k}/{ir}: top {r['strtop']!r}, expected {net.z[c]!r}"):
                return
    _roundtrip(case, o, ("reach_data", "segment_data", "irunbnd", "dany_flag"))
    signature(case, net, group, sorted(over))
