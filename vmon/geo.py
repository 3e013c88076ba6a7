"""Workload generators: grids (with an independent description of their
geometry) and digital elevation models.

Nothing in here looks at dany.  A ``Geo`` holds the polygons, the cell centres
and - computed from the polygons alone - the queen adjacency, the edge (outline)
cells and the areas, so that the oracles do not depend on any neighbour cache of
the flopy grid handed to the code under test.
"""
import math
import numpy as np
from collections import defaultdict


class Geo:
    def __init__(self, verts, polys, centers, kind, struct=None):
        self.verts = np.asarray(verts, float)       # model coords (no rotation)
        self.polys = [list(p) for p in polys]
        self.centers = np.asarray(centers, float)
        self.kind = kind
        self.struct = struct                        # (delr, delc) or None
        self.xoff = self.yoff = 0.0
        self.angrot = 0.0
        self.nlay = 1
        self.closed = False
        self.inactive = None    # idomain zeros (numbers of cells), no meaning for dany
        self.bare = False       # flopy grid of the cells only: no layers, top or idomain
        self.inside = True      # segments from the centre to the corners stay inside
        self._adj = None

    @property
    def n(self):
        return len(self.polys)

    def _world(self, xy):
        a = math.radians(self.angrot)
        x = xy[:, 0] * math.cos(a) - xy[:, 1] * math.sin(a) + self.xoff
        y = xy[:, 0] * math.sin(a) + xy[:, 1] * math.cos(a) + self.yoff
        return np.column_stack([x, y])

    @property
    def wverts(self):
        return self._world(self.verts)

    @property
    def wcenters(self):
        return self._world(self.centers)

    def adj(self):
        """queen adjacency: list of sorted lists"""
        if self._adj is None:
            byv = defaultdict(set)
            for c, p in enumerate(self.polys):
                for v in p:
                    byv[v].add(c)
            nb = [set() for _ in self.polys]
            for cells in byv.values():
                for c in cells:
                    nb[c] |= cells
            for c in range(self.n):
                nb[c].discard(c)
            self._adj = [sorted(s) for s in nb]
        return self._adj

    def edges(self):
        """sorted list of outline cells (owning a polygon side nobody shares)"""
        cnt = defaultdict(set)
        for c, p in enumerate(self.polys):
            for i in range(len(p)):
                cnt[frozenset((p[i - 1], p[i]))].add(c)
        return sorted({next(iter(s)) for s in cnt.values() if len(s) == 1})

    def areas(self):
        out = []
        for p in self.polys:
            xy = self.verts[p]
            x, y = xy[:, 0] - xy[0, 0], xy[:, 1] - xy[0, 1]
            out.append(abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))) / 2)
        return np.array(out)

    def components(self):
        adj = self.adj()
        comp = np.full(self.n, -1)
        k = 0
        for s in range(self.n):
            if comp[s] >= 0:
                continue
            st = [s]
            comp[s] = k
            while st:
                c = st.pop()
                for m in adj[c]:
                    if comp[m] < 0:
                        comp[m] = k
                        st.append(m)
            k += 1
        return comp, k

    def permute(self, perm):
        """new Geo whose cell i is the old cell perm[i]"""
        g = Geo(self.verts, [self.polys[p] for p in perm],
                self.centers[perm], self.kind + "+perm")
        g.inside = self.inside
        g.xoff, g.yoff, g.angrot, g.nlay = self.xoff, self.yoff, self.angrot, self.nlay
        return g

    def subset(self, keep):
        keep = list(keep)
        g = Geo(self.verts, [self.polys[p] for p in keep],
                self.centers[keep], self.kind + "+sub")
        g.inside = self.inside
        g.xoff, g.yoff, g.angrot, g.nlay = self.xoff, self.yoff, self.angrot, self.nlay
        return g.compact()

    def compact(self):
        used = sorted({v for p in self.polys for v in p})
        m = {v: i for i, v in enumerate(used)}
        self.verts = self.verts[used]
        self.polys = [[m[v] for v in p] for p in self.polys]
        return self

    def scaled(self, k):
        """the same grid in other length units"""
        s = self.struct and (np.asarray(self.struct[0], float) * k, np.asarray(self.struct[1], float) * k)
        if s:
            h = structured(*s)
            h.kind = self.kind
        else:
            h = Geo(self.verts * k, self.polys, self.centers * k, self.kind)
        h.inside = self.inside
        return h

    def relabel(self, rng):
        """same cells: polygons start at another corner or run the other way round,
        vertices are numbered differently and some vertices belong to no cell"""
        polys = []
        for p in self.polys:
            k = int(rng.integers(len(p)))
            p = p[k:] + p[:k]
            polys.append(p[::-1] if rng.random() < 0.5 else p)
        n = len(self.verts)
        extra = int(rng.integers(0, 4))
        new = rng.permutation(n + extra)
        verts = np.full((n + extra, 2), 0.0)
        verts[new[:n]] = self.verts
        for q in new[n:]:
            verts[q] = self.verts[int(rng.integers(n))] + rng.random(2)
        g = Geo(verts, [[int(new[v]) for v in p] for p in polys], self.centers, self.kind)
        for a in ("xoff", "yoff", "angrot", "nlay", "closed", "inside", "inactive", "bare"):
            setattr(g, a, getattr(self, a))
        return g

    # ---- flopy grids -----------------------------------------------------
    def grid(self, gtype, top=None):
        """fresh flopy grid ('structured' | 'vertex' | 'unstructured')"""
        from flopy.discretization import (
            StructuredGrid, VertexGrid, UnstructuredGrid,
        )
        kw = dict(xoff=self.xoff, yoff=self.yoff, angrot=self.angrot)
        n = self.n
        active = np.ones(n, int)
        if self.inactive is not None:
            active[self.inactive] = 0
        bare = self.bare and self.nlay == 1 and self.inactive is None
        if gtype == "structured":
            delr, delc = self.struct
            nr, nc = len(delc), len(delr)
            if bare:
                return StructuredGrid(delr=np.array(delr, float), delc=np.array(delc, float), **kw)
            top_ = np.full((nr, nc), 1e3) if top is None else top.reshape(nr, nc)
            botm = np.stack([top_ - 10.0 * (k + 1) for k in range(self.nlay)])
            return StructuredGrid(
                delr=np.array(delr, float), delc=np.array(delc, float),
                top=top_.copy(), botm=botm,
                idomain=np.stack([active.reshape(nr, nc)] * self.nlay), nlay=self.nlay,
                nrow=nr, ncol=nc, **kw)
        polys = [p + [p[0]] for p in self.polys] if self.closed else self.polys
        top_ = np.full(n, 1e3) if top is None else top.ravel()
        verts = [[i, float(x), float(y)] for i, (x, y) in enumerate(self.verts)]
        if gtype == "vertex":
            cell2d = [[i, float(self.centers[i, 0]), float(self.centers[i, 1]),
                       len(p)] + list(p) for i, p in enumerate(polys)]
            if bare:
                return VertexGrid(vertices=verts, cell2d=cell2d, **kw)
            botm = np.stack([top_ - 10.0 * (k + 1) for k in range(self.nlay)])
            return VertexGrid(vertices=verts, cell2d=cell2d, top=top_.copy(),
                              botm=botm, idomain=np.stack([active] * self.nlay),
                              nlay=self.nlay, ncpl=n, **kw)
        if bare:
            return UnstructuredGrid(
                vertices=verts, iverts=[list(p) for p in polys],
                xcenters=self.centers[:, 0].copy(), ycenters=self.centers[:, 1].copy(), ncpl=[n], **kw)
        return UnstructuredGrid(
            vertices=verts, iverts=[list(p) for p in polys],
            xcenters=self.centers[:, 0].copy(), ycenters=self.centers[:, 1].copy(),
            top=top_.copy(), botm=top_ - 10.0, idomain=active,
            ncpl=[n], **kw)


# ---------------------------------------------------------------- builders
def structured(delr, delc):
    delr, delc = np.asarray(delr, float), np.asarray(delc, float)
    xe = np.concatenate([[0], np.cumsum(delr)])
    ye = np.sum(delc) - np.concatenate([[0], np.cumsum(delc)])
    nr, nc = len(delc), len(delr)
    verts = [(xe[j], ye[i]) for i in range(nr + 1) for j in range(nc + 1)]
    polys, cen = [], []
    for i in range(nr):
        for j in range(nc):
            a = i * (nc + 1) + j
            polys.append([a, a + 1, a + nc + 2, a + nc + 1])
            cen.append(((xe[j] + xe[j + 1]) / 2, (ye[i] + ye[i + 1]) / 2))
    return Geo(verts, polys, cen, "structured", (delr, delc))


def _from_coords(cells, centers, kind, tol):
    ids, verts, polys = {}, [], []
    for cell in cells:
        p = []
        for x, y in cell:
            k = (round(x / tol), round(y / tol))
            if k not in ids:
                ids[k] = len(verts)
                verts.append((x, y))
            if not p or p[-1] != ids[k]:
                p.append(ids[k])
        if p[0] == p[-1]:
            p.pop()
        polys.append(p)
    return Geo(verts, polys, centers, kind)


def voronoi(rng, n, w=1000.0, h=800.0):
    from scipy.spatial import Voronoi
    # one Lloyd-ish relaxation keeps slivers away without making it regular
    pts = rng.random((n, 2)) * [w, h]
    for it in range(2):
        al = [pts]
        for a, b in ((0, 0.0), (0, w), (1, 0.0), (1, h)):
            q = pts.copy()
            q[:, a] = 2 * b - q[:, a]
            al.append(q)
        vor = Voronoi(np.concatenate(al))
        cells = []
        for i in range(n):
            reg = vor.regions[vor.point_region[i]]
            xy = vor.vertices[reg]
            c = xy.mean(axis=0)
            o = np.argsort(np.arctan2(xy[:, 1] - c[1], xy[:, 0] - c[0]))[::-1]
            cells.append(np.clip(xy[o], 0, [w, h]))
        if it == 0:
            pts = np.array([c.mean(axis=0) for c in cells])
    g = _from_coords(cells, pts, "voronoi", 1e-4)
    if any(len(p) < 3 for p in g.polys):
        return voronoi(rng, n, w, h)
    return g


def triangles(rng, n, w=1000.0, h=800.0):
    from scipy.spatial import Delaunay
    k = max(2, int(math.sqrt(n / 2)))
    gx, gy = np.meshgrid(np.linspace(0, w, k + 1), np.linspace(0, h, k + 1))
    pts = np.column_stack([gx.ravel(), gy.ravel()])
    inner = ((pts[:, 0] > 0) & (pts[:, 0] < w) & (pts[:, 1] > 0) & (pts[:, 1] < h))
    pts[inner] += (rng.random((inner.sum(), 2)) - 0.5) * 0.6 * min(w, h) / k
    tri = Delaunay(pts)
    simp = []
    for s in tri.simplices:
        (x0, y0), (x1, y1), (x2, y2) = pts[s]
        if abs((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)) > 1e-6:
            simp.append(list(map(int, s)))
    cen = [pts[s].mean(axis=0) for s in simp]
    return Geo(pts, simp, cen, "triangle").compact()


def hexes(nr, nc, s=50.0):
    cells, cen = [], []
    for r in range(nr):
        for c in range(nc):
            cx = math.sqrt(3) * s * (c + 0.5 * (r % 2))
            cy = 1.5 * s * (nr - r)
            cen.append((cx, cy))
            cells.append([(cx + s * math.sin(math.pi / 3 * k),
                           cy + s * math.cos(math.pi / 3 * k)) for k in range(6)])
    return _from_coords(cells, cen, "hex", 1e-4)


def merged(rng, base):
    """irregular response units: neighbouring cells of ``base`` merged into larger,
    simply connected polygons that keep every vertex of their outline.  The centre
    of a unit is the centre of one of its cells, so it lies inside the polygon but
    not at the mean of its corners."""
    n = base.n
    polys = []
    for p in base.polys:
        xy = base.verts[p]
        a = np.sum(xy[:, 0] * np.roll(xy[:, 1], -1) - xy[:, 1] * np.roll(xy[:, 0], -1))
        polys.append(p[::-1] if a > 0 else p)             # all clockwise
    rook = defaultdict(set)
    side = {}
    for c, p in enumerate(polys):
        for i in range(len(p)):
            e = frozenset((p[i - 1], p[i]))
            if e in side:
                rook[c].add(side[e])
                rook[side[e]].add(c)
            side[e] = c

    def ring(cells):
        nxt = {}
        sides = set()
        for c in cells:
            p = polys[c]
            for i in range(len(p)):
                sides.add((p[i - 1], p[i]))
        for a, b in sides:
            if (b, a) not in sides:
                if a in nxt:
                    return None                            # pinched
                nxt[a] = b
        start = min(nxt)
        out, v = [start], nxt[start]
        while v != start:
            out.append(v)
            v = nxt[v]
        return out if len(out) == len(nxt) else None       # a hole

    unit = np.full(n, -1)
    rings, cen = [], []
    for c in rng.permutation(n):
        if unit[c] >= 0:
            continue
        cells = [int(c)]
        best = ring(cells)
        k = len(rings)
        unit[c] = k
        for _ in range(int(rng.integers(0, 7))):
            front = sorted({m for q in cells for m in rook[q] if unit[m] < 0})
            if not front:
                break
            m = int(rng.choice(front))
            r = ring(cells + [m])
            if r is None:
                continue
            cells.append(m)
            unit[m] = k
            best = r
        rings.append(best)
        cen.append(base.centers[int(rng.choice(cells))])
    g = Geo(base.verts, rings, np.array(cen), "merged").compact()
    g.inside = False
    return g


def quadtree(rng, nr, nc, d=64.0, levels=2):
    boxes = [(j * d, i * d, d) for i in range(nr) for j in range(nc)]
    for lev in range(levels):
        out = []
        for (x, y, s) in boxes:
            if s == d / 2 ** lev and rng.random() < 0.3:
                q = s / 2
                out += [(x, y + q, q), (x + q, y + q, q), (x, y, q), (x + q, y, q)]
            else:
                out.append((x, y, s))
        boxes = out
    corners = set()
    for x, y, s in boxes:
        corners |= {(x, y), (x + s, y), (x, y + s), (x + s, y + s)}
    byx, byy = defaultdict(list), defaultdict(list)
    for x, y in sorted(corners):
        byx[x].append(y)
        byy[y].append(x)
    cells, cen = [], []
    for x, y, s in boxes:
        top = [(xx, y + s) for xx in byy[y + s] if x <= xx <= x + s]
        right = [(x + s, yy) for yy in reversed(byx[x + s]) if y <= yy <= y + s]
        bot = [(xx, y) for xx in reversed(byy[y]) if x <= xx <= x + s]
        left = [(x, yy) for yy in byx[x] if y <= yy <= y + s]
        ring = top[:-1] + right[:-1] + bot[:-1] + left[:-1]
        cells.append(ring)
        cen.append((x + s / 2, y + s / 2))
    return _from_coords(cells, cen, "quadtree", 1e-4)


KINDS = ("structured", "thin", "voronoi", "triangle", "hex", "quadtree", "subset", "merged")
DISTANT = KINDS + ("islands",)


def random_geo(rng, size=60, kinds=KINDS, transform=True, connected=True):
    """draw a geometry of roughly ``size`` cells"""
    kind = kinds[rng.integers(len(kinds))]
    if kind == "thin" and rng.random() < 0.6:
        kind = "structured"
    if kind in ("structured", "thin"):
        if kind == "thin":
            dims = [int(rng.integers(1, 3)), int(rng.integers(4, max(5, size // 2)))]
            rng.shuffle(dims)
            nr, nc = dims
        else:
            nr = int(rng.integers(3, max(4, int(math.sqrt(size) * 1.6))))
            nc = max(3, int(size / nr * rng.uniform(0.6, 1.2)))
        if rng.random() < 0.5:
            dr = dc = float(rng.choice([1.0, 10.0, 250.0, 33.3]))
            g = structured(np.full(nc, dr), np.full(nr, dc if rng.random() < 0.7 else dc * float(rng.choice([2.0, 2.0, 0.5, 0.02, 40.0]))))
        elif rng.random() < 0.8:
            g = structured(rng.uniform(5, 60, nc), rng.uniform(5, 60, nr))
        else:
            # nearly, not quite, regular spacing
            dr, e = float(rng.choice([1.0, 10.0, 250.0])), 10.0 ** -rng.uniform(2, 7)
            g = structured(dr * (1 + e * rng.uniform(-1, 1, nc)), dr * (1 + e * rng.uniform(-1, 1, nr)))
        if nr * nc < 2:
            return random_geo(rng, size, kinds, transform, connected)
    elif kind == "voronoi":
        g = voronoi(rng, int(rng.integers(8, max(9, size))))
    elif kind == "triangle":
        g = triangles(rng, int(rng.integers(12, max(13, size))))
    elif kind == "hex":
        a = max(3, int(math.sqrt(size)))
        g = hexes(int(rng.integers(2, a + 1)), int(rng.integers(2, a + 1)))
    elif kind == "quadtree":
        a = max(2, int(math.sqrt(size / 2)))
        lev = int(rng.choice([1, 2, 2, 3, 4]))
        if lev > 2:
            a = min(a, 4 if size < 150 else 7)
        g = quadtree(rng, int(rng.integers(2, a + 1)), int(rng.integers(2, a + 1)), levels=lev)
    elif kind == "islands":
        # parts that do not touch each other, down to single cells
        parts = [random_geo(rng, max(4, size // 2), ("structured", "voronoi", "hex", "quadtree"), transform=False),
                 random_geo(rng, max(4, size // 3), ("structured", "thin", "triangle"), transform=False)]
        if rng.random() < 0.6:
            parts.append(structured([20.0], [30.0]))
        verts, polys, cen, x0 = [], [], [], 0.0
        for q in parts:
            k = len(verts)
            v = q.verts - q.verts.min(axis=0) + [x0, 0.0]
            verts += v.tolist()
            polys += [[i + k for i in p] for p in q.polys]
            cen += (q.centers - q.verts.min(axis=0) + [x0, 0.0]).tolist()
            x0 = v[:, 0].max() + 25.0
        g = Geo(verts, polys, cen, "islands")
    elif kind == "merged":
        for _ in range(20):
            g = merged(rng, random_geo(rng, int(size * 2.5), ("structured", "voronoi", "hex", "quadtree"), transform=False))
            if g.n > 3:
                break
    else:
        base = random_geo(rng, int(size * 1.4), ("structured", "voronoi", "hex", "quadtree"),
                          transform=False)
        # grow a random connected blob covering most of it (leaves bays/holes)
        adj = base.adj()
        start = int(rng.integers(base.n))
        blob, front = {start}, list(adj[start])
        target = max(4, int(base.n * rng.uniform(0.55, 0.9)))
        while len(blob) < target and front:
            c = front.pop(int(rng.integers(len(front))))
            if c in blob:
                continue
            blob.add(c)
            front += [m for m in adj[c] if m not in blob]
        g = base.subset(sorted(blob))
    if g.struct is None and rng.random() < 0.4:
        g = g.permute(rng.permutation(g.n))
    if g.struct is None and transform and rng.random() < 0.3:
        g = g.relabel(rng)
    if transform:
        if rng.random() < 0.15:
            g.inactive = np.flatnonzero(rng.random(g.n) < 0.3)
        if rng.random() < 0.06:
            # millimetres to megametres; degrees
            k = int(rng.choice([-5, -4, -3, -2, 2, 3]))
            inactive, g = g.inactive, g.scaled(10.0 ** k)
            g.inactive = inactive
            if k < 0 and rng.random() < 0.5:
                g.xoff, g.yoff = float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90))
        elif rng.random() < 0.4:
            g.xoff, g.yoff = float(rng.integers(-5000, 700000)), float(rng.integers(-5000, 4000000))
        if rng.random() < 0.3:
            g.angrot = float(rng.choice([90.0, 15.0, 30.5, 200.0]))
        if rng.random() < 0.25:
            g.nlay = int(rng.integers(2, 4))
        elif rng.random() < 0.08:
            g.bare = True
    return g


def gtypes(g):
    return ["structured", "vertex", "unstructured"] if g.struct is not None else ["vertex", "unstructured"]


def pick_gtype(rng, g):
    t = gtypes(g)
    if g.struct is not None and rng.random() < 0.6:
        return "structured"
    return t[rng.integers(len(t))]


def shape_of(g, gtype):
    if gtype == "structured":
        return (len(g.struct[1]), len(g.struct[0]))
    return (g.n,)


# ---------------------------------------------------------------- terrain
DEM_KINDS = ("noise", "plane", "cone", "bowl", "integer", "flat", "terrace",
             "valley", "ridges", "micro", "survey")

_TERRAIN = None


def survey(rng, x, y):
    """a random, randomly turned window of a surveyed mountain catchment (50 m raster),
    sometimes in the whole or tenth metres rasters are often delivered in"""
    global _TERRAIN
    if _TERRAIN is None:
        import os
        _TERRAIN = np.load(os.path.join(os.path.dirname(__file__), "data", "terrain.npy")).astype(float)
    t = _TERRAIN
    if rng.random() < 0.5:
        t = t.T
    t = t[::int(rng.choice([-1, 1])), ::int(rng.choice([-1, 1]))]
    w = int(rng.integers(6, min(t.shape) - 1))
    i0, j0 = int(rng.integers(t.shape[0] - w)), int(rng.integers(t.shape[1] - w))
    u = np.clip(x, 0, 1) * (w - 1)
    v = np.clip(y, 0, 1) * (w - 1)
    i, j = np.minimum(u.astype(int), w - 2), np.minimum(v.astype(int), w - 2)
    fu, fv = u - i, v - j
    i, j = i + i0, j + j0
    z = (t[i, j] * (1 - fu) * (1 - fv) + t[i + 1, j] * fu * (1 - fv)
         + t[i, j + 1] * (1 - fu) * fv + t[i + 1, j + 1] * fu * fv)
    r = rng.random()
    return np.round(z) if r < 0.25 else np.round(z, 1) if r < 0.4 else z



def random_dem(rng, g, kind=None):
    """elevations (1-D float array); real valued kinds have distinct values"""
    kind = kind or DEM_KINDS[rng.integers(len(DEM_KINDS))]
    xy = g.centers - g.centers.min(axis=0)
    ext = max(float(np.ptp(xy)), 1.0)
    x, y = xy[:, 0] / ext, xy[:, 1] / ext
    n = g.n
    relief = float(rng.choice([1.0, 50.0, 1500.0]))
    base = float(rng.choice([0.0, 100.0, 2000.0, -50.0]))
    if rng.random() < 0.04:
        base = float(rng.choice([29000.0, 350000.0]))        # feet, centimetres
    if rng.random() < 0.05:
        relief = float(rng.choice([1e-3, 0.03, 3e4]))
    a, b = rng.normal(size=2)
    if kind == "survey":
        return survey(rng, x, y), kind
    if kind == "noise":
        z = rng.random(n)
    elif kind == "plane":
        z = a * x + b * y + rng.random(n) * 1e-3
    elif kind == "cone":
        z = 1 - np.hypot(x - x.mean(), y - y.mean()) + rng.random(n) * 1e-3
    elif kind == "bowl":
        z = np.hypot(x - x.mean(), y - y.mean()) + rng.random(n) * 0.02
    elif kind == "integer":
        return base + rng.integers(0, int(rng.choice([3, 8, 30])), n).astype(float), kind
    elif kind == "flat":
        z = np.zeros(n)
    elif kind == "terrace":
        z = np.floor(6 * (a * x + b * y + 0.1 * rng.random(n))) / 6
    elif kind == "valley":
        z = np.abs(y - y.mean() - 0.1 * np.sin(6 * x)) + 0.4 * x + rng.random(n) * 0.01
    elif kind == "ridges":
        z = np.sin(9 * x + 3 * a) * np.cos(7 * y + 3 * b) + rng.random(n) * 0.2
    else:  # micro: relief of the order of the conditioning epsilon
        return base + rng.integers(0, 9, n) * 5e-7 + rng.integers(0, 2, n), kind
    return base + relief * z, kind
