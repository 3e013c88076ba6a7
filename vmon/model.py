"""Reference models.  Everything here is computed from the scene (polygons,
elevations) or from values the code under test *returned*; nothing imports dany.
"""
import heapq
import numpy as np


# ------------------------------------------------------------ conditioning
def spill(adj, z, seeds):
    """lowest possible 'highest point' on a path from every cell to a seed"""
    lev = np.full(len(z), np.inf)
    heap = []
    for s in seeds:
        lev[s] = z[s]
        heap.append((z[s], s))
    heapq.heapify(heap)
    done = np.zeros(len(z), bool)
    while heap:
        e, c = heapq.heappop(heap)
        if done[c]:
            continue
        done[c] = True
        for m in adj[c]:
            v = max(z[m], e)
            if v < lev[m]:
                lev[m] = v
                heapq.heappush(heap, (v, m))
    return lev


def eps_fill(adj, z, seeds, eps):
    """smallest surface W >= z with W[c] >= W[some neighbour] + eps off the seeds"""
    lev = np.full(len(z), np.inf)
    heap = []
    for s in seeds:
        lev[s] = z[s]
        heap.append((z[s], s))
    heapq.heapify(heap)
    done = np.zeros(len(z), bool)
    seeds = set(seeds)
    while heap:
        e, c = heapq.heappop(heap)
        if done[c]:
            continue
        done[c] = True
        for m in adj[c]:
            if m in seeds:
                continue
            v = max(z[m], e + eps)
            if v < lev[m]:
                lev[m] = v
                heapq.heappush(heap, (v, m))
    return lev


# ----------------------------------------------------------------- routing
def slope_table(adj, z, cen, threshold):
    """per cell: dict neighbour -> slope (rise over distance), nodata skipped"""
    out = []
    for c, nb in enumerate(adj):
        d = {}
        if not np.isnan(z[c]):
            for m in nb:
                if np.isnan(z[m]):
                    continue
                drop = z[m] - z[c]
                if 0 < drop < threshold:
                    drop = 0.0
                d[m] = drop / float(np.hypot(*(cen[m] - cen[c])))
        out.append(d)
    return out


def walk_state(fdir):
    """per cell: 'out' index of the terminal cell reached, -2 (sink) or -1 (loop);
    plus boolean array of cells lying on a loop of length >= 2"""
    n = len(fdir)
    end = np.full(n, -9)
    loop = np.zeros(n, bool)
    mark = np.zeros(n, int)
    for s in range(n):
        if end[s] != -9:
            continue
        path = []
        c = s
        while True:
            if c < 0 or c >= n:
                res = -2
                break
            if end[c] != -9:
                res = end[c]
                break
            if mark[c] == s + 1:
                res = -1
                k = path.index(c)      # only on loops
                for q in path[k:]:
                    loop[q] = True
                break
            mark[c] = s + 1
            path.append(c)
            if fdir[c] == c:
                res = c
                break
            c = int(fdir[c])
        for q in path:
            end[q] = res
    return end, loop


def upstream_sum(fdir, w):
    """w summed over the cell and everything upstream; NaN on loop cells"""
    n = len(fdir)
    end, loop = walk_state(fdir)
    acc = np.array(w, float)
    indeg = np.zeros(n, int)
    for c in range(n):
        d = fdir[c]
        if 0 <= d < n and d != c:
            indeg[d] += 1
    q = [c for c in range(n) if indeg[c] == 0]
    while q:
        c = q.pop()
        d = int(fdir[c])
        if 0 <= d < n and d != c:
            acc[d] += acc[c]
            indeg[d] -= 1
            if indeg[d] == 0:
                q.append(d)
    acc[loop] = np.nan
    return acc


def upstream_set(fdir, cell):
    rev = {}
    for c, d in enumerate(fdir):
        rev.setdefault(int(d), []).append(c)
    seen = {int(cell)}
    st = [int(cell)]
    while st:
        c = st.pop()
        for u in rev.get(c, ()):
            if u not in seen:
                seen.add(u)
                st.append(u)
    return seen


def first_hit(fdir, hit):
    """first cell of the mask ``hit`` met on the downstream path (inclusive),
    -1 when the path never meets it"""
    n = len(fdir)
    out = np.full(n, -2)
    for s in range(n):
        path, c = [], s
        seen = set()
        while True:
            if out[c] != -2:
                r = out[c]
                break
            if hit[c]:
                r = out[c] = c
                break
            path.append(c)
            seen.add(c)
            d = int(fdir[c])
            if d < 0 or d >= n or d in seen:
                r = -1
                break
            c = d
        for q in path:
            out[q] = r
    return out


# ----------------------------------------------------------------- streams
def stream_links(fdir, mask):
    """stream cell -> downstream stream cell | None"""
    return {int(c): (int(fdir[c]) if 0 <= fdir[c] < len(fdir) and mask[fdir[c]] else None)
            for c in np.flatnonzero(mask)}


def segment_starts(links):
    """cells at which a grouped segment starts"""
    n_in = {c: 0 for c in links}
    for c, d in links.items():
        if d is not None and d != c:
            n_in[d] += 1
    return {c for c in links if n_in[c] != 1 or links[c] == c}
