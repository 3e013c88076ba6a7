"""Registry of the property monitors and the helpers they share."""
import numpy as np
from .. import geo
from .. import model as M
from ..monitor import Monitor, CallFailed, NoEnd, digest  # noqa: F401

PROPS = {}


class Skip(Exception):
    """the case does not exercise the property (never a verdict)"""


class Prop:
    def __init__(self, id, fn):
        self.id, self.fn = id, fn


def prop(pid):
    def deco(fn):
        PROPS[pid] = Prop(pid, fn)
        return fn
    return deco


class Case:
    def __init__(self, rng, idx, tier):
        self.rng, self.idx, self.tier = rng, idx, tier
        self.violations = []
        self.counts = {}
        self.desc = {}
        self.sig = None
        self.mon = None
        self.in_setup = False
        self.is_large = self.is_long = self.only_structured = False
        self.tmp = None
        self.thousands = 130        # how often a grid has more than a thousand cells

    # -- verdicts ---------------------------------------------------------
    def fail(self, key, msg):
        self.violations.append({"key": key, "msg": str(msg)[:600]})

    def check(self, cond, key, msg):
        self.count("assertions")
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def count(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + int(k)

    def nontrivial(self, *parts):
        self.sig = digest(list(parts))

    # -- monitored calls --------------------------------------------------
    def call(self, name, fn, *a, **kw):
        """the operation under judgement: an exception is a violation"""
        return self.mon.call(name, fn, *a, **kw)

    def setup(self, name, fn, *a, **kw):
        """an operation another property judges: an exception is no verdict here"""
        self.in_setup = True
        r = self.mon.call(name, fn, *a, **kw)
        self.in_setup = False
        return r

    # -- scenes -----------------------------------------------------------
    def size(self, small=60, mid=200, big=700):
        if self.idx % self.thousands == 123:
            self.count("thousands_of_cells")
            return int(self.rng.integers(1000, 2600))
        r = self.rng.random()
        if r < 0.68:
            return int(self.rng.integers(10, small + 1))
        if r < 0.96 or self.tier == "quick" and r < 0.985:
            return int(self.rng.integers(small, mid + 1))
        return int(self.rng.integers(mid, big + 1))

    def large(self, every=1300):
        """once per ``every`` cases: a grid whose cell numbers and counts leave
        the range of small integer types, in each kind of container in turn"""
        if self.idx % every != 7:
            return None
        nr = int(self.rng.integers(130, 260))
        # (beyond the range of 16 bit numbers, signed or - thorough tier - unsigned)
        nc = (66000 if self.tier == "thorough" and self.idx // every % 2 else 33800) // nr + 1
        d = float(self.rng.choice([10.0, 33.3]))
        g = geo.structured(np.full(nc, d), np.full(nr, d))
        k = 0 if self.only_structured else self.idx // every % 3
        self.large_type = ("structured", "vertex", "unstructured")[k]
        if k and self.rng.random() < 0.5:
            g = g.permute(self.rng.permutation(g.n))
        g.large = True
        self.count("large_grids")
        return g

    def long(self):
        """once per 1300 cases: a chain of cells, so that a stream has thousands of reaches in a row"""
        if self.idx % 1300 != 657:
            return None
        n = int(self.rng.integers(1500, 2600))
        w = self.rng.uniform(5, 20, n) if self.rng.random() < 0.5 else np.full(n, 10.0)
        g = geo.structured(w, [10.0]) if self.rng.random() < 0.5 else geo.structured([10.0], w)
        k = 0 if self.only_structured else int(self.rng.integers(3))
        self.large_type = ("structured", "vertex", "unstructured")[k]
        if k:
            g = g.permute(self.rng.permutation(g.n))
        self.count("long_chains")
        return g

    def geometry(self, size=None, large=False, make=None, **kw):
        g = make() if make else self.large() if large else None
        self.is_large = g is not None and not make
        if large and g is None:
            g = self.long()
            self.is_long = g is not None
        g = g or geo.random_geo(self.rng, size or self.size(), **kw)
        if g.struct is None and self.rng.random() < 0.3:
            g.closed = True
        self.gtype = self.large_type if self.is_large or self.is_long else geo.pick_gtype(self.rng, g)
        if self.gtype == "structured":
            g.closed = False
        self.g = g
        self.shape = geo.shape_of(g, self.gtype)
        self.mon = Monitor(g.n)
        self.desc.update(grid=g.kind, gtype=self.gtype, cells=g.n, layers=g.nlay if self.gtype != "unstructured" else 1,
                         angrot=g.angrot, offset=[g.xoff, g.yoff], closed=g.closed)
        self.count("grid:" + g.kind.split("+")[0])
        self.count("bare_grids", g.bare and g.nlay == 1 and g.inactive is None)
        self.count("gridtype:" + self.gtype)
        self.count("cells", g.n)
        return g

    def new_grid(self, top=None):
        """fresh flopy grid; sometimes one whose neighbour table was already used"""
        m = self.g.grid(self.gtype, top)
        r = self.rng.random()
        if r < 0.12:
            m.neighbors(0)
            self.count("grid_with_rook_cache")
        elif r < 0.2:
            m.neighbors(method="queen")
        return m

    def arr(self, flat):
        """array in the shape the grid uses, sometimes Fortran ordered"""
        a = np.asarray(flat).reshape(self.shape)
        if a.ndim == 2 and self.rng.random() < 0.15:
            a = np.asfortranarray(a)
        return a

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]


def load():
    from . import cond, flow, stream, cross, whole  # noqa: F401


load()
