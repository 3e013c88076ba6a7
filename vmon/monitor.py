"""Run-time monitor: every call into dany goes through ``Monitor.call``.

It records the call (the event log of a case), counts the interpreter's backward
jumps executed inside dany's own code (logical time: a hang is a call exceeding its
step budget, never a wall clock), keeps which source lines of dany ran, swallows the
chatter dany prints, and turns an exception into an observation.
"""
import io
import os
import sys
import types
import warnings
import contextlib
import hashlib
import numpy as np

REPO = os.environ.get("VMON_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

TOOL = 3
_mon = sys.monitoring


class StepLimit(BaseException):
    """raised inside dany when a call exceeds its step budget"""


class _Clock:
    steps = 0
    limit = None


CLOCK = _Clock()
LINES = {}          # (file, function) -> set(lines)


def _on_jump(code, src, dst):
    if dst >= src:
        return None
    CLOCK.steps += 1
    if CLOCK.limit is not None and CLOCK.steps > CLOCK.limit:
        CLOCK.limit = None
        raise StepLimit()


def _on_line(code, line):
    LINES.setdefault((os.path.basename(code.co_filename), code.co_qualname), set()).add(line)
    return _mon.DISABLE


def _codes(code, seen):
    if code in seen:
        return
    seen.add(code)
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            _codes(k, seen)


_code_memo = {}


class _MemoLoader:
    """fresh copies of dany's modules run the very code objects that are instrumented"""

    @staticmethod
    def patch():
        from importlib.machinery import SourceFileLoader
        orig = SourceFileLoader.get_code

        def get_code(self, fullname):
            if fullname != "dany" and not fullname.startswith("dany."):
                return orig(self, fullname)
            if fullname not in _code_memo:
                _code_memo[fullname] = orig(self, fullname)
            return _code_memo[fullname]
        if not hasattr(SourceFileLoader, "_vmon"):
            SourceFileLoader.get_code, SourceFileLoader._vmon = get_code, True


def fresh_dany():
    """the package as a session that has just started sees it (nothing cached in
    its modules or classes); the copy in use stays where it is"""
    import importlib
    old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "dany" or k.startswith("dany.")}
    try:
        new = importlib.import_module("dany")
        importlib.import_module("dany.stream_util")
    finally:
        for k in [k for k in sys.modules if k == "dany" or k.startswith("dany.")]:
            del sys.modules[k]
        sys.modules.update(old)
    return new


def install():
    """import dany from the working tree and instrument all its functions"""
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    _MemoLoader.patch()
    import dany
    import dany.stream_util
    assert os.path.realpath(dany.__file__).startswith(os.path.realpath(REPO) + os.sep), dany.__file__
    if _mon.get_tool(TOOL) is not None:
        return dany
    _mon.use_tool_id(TOOL, "vmon")
    _mon.register_callback(TOOL, _mon.events.JUMP, _on_jump)
    _mon.register_callback(TOOL, _mon.events.BRANCH, _on_jump)
    _mon.register_callback(TOOL, _mon.events.LINE, _on_line)
    seen = set()
    root = os.path.realpath(os.path.dirname(dany.__file__))
    for name, mod in list(sys.modules.items()):
        f = getattr(mod, "__file__", None)
        if not f or not os.path.realpath(f).startswith(root + os.sep):
            continue
        todo = [v for v in vars(mod).values()]
        for v in list(todo):
            if isinstance(v, type):
                todo += list(vars(v).values())
        for v in todo:
            if isinstance(v, property):
                cand = [v.fget, v.fset]
            elif isinstance(v, (staticmethod, classmethod)):
                cand = [v.__func__]
            else:
                cand = [v]
            for fn in cand:
                fn = getattr(fn, "__wrapped__", fn)
                if isinstance(fn, types.FunctionType) and \
                        os.path.realpath(fn.__code__.co_filename).startswith(root):
                    _codes(fn.__code__, seen)
    for c in seen:
        _mon.set_local_events(TOOL, c, _mon.events.JUMP | _mon.events.BRANCH | _mon.events.LINE)
    return dany


class CallFailed(Exception):
    def __init__(self, name, exc):
        self.name, self.exc = name, exc
        super().__init__(f"{name} raised {type(exc).__name__}: {exc}")


class NoEnd(CallFailed):
    def __init__(self, name, steps):
        self.name, self.steps = name, steps
        Exception.__init__(self, f"{name} did not finish within {steps} loop steps")


def digest(x, h=None):
    """content digest of nested results"""
    top = h is None
    h = h or hashlib.blake2b(digest_size=8)
    if isinstance(x, np.ndarray) and x.dtype.kind in "biuf":
        h.update(repr((x.shape, x.dtype.kind)).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        for k, v in x.items():
            h.update(repr(k).encode())
            digest(v, h)
    elif isinstance(x, (list, tuple)):
        h.update(b"[")
        for v in x:
            digest(v, h)
    elif isinstance(x, np.ndarray):
        h.update(repr(x.tolist()).encode())
    else:
        h.update(repr(x).encode())
    return h.hexdigest() if top else None


class Monitor:
    """one per case"""

    def __init__(self, n_cells, budget_scale=1.0):
        n = max(int(n_cells), 8)
        self.budget = int((40000 + 4000 * n + 80 * n * n) * budget_scale)
        self.log = []
        self.counts = {}
        self.max_ratio = 0.0

    def count(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + k

    def call(self, name, fn, *a, **kw):
        CLOCK.steps, CLOCK.limit = 0, self.budget
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = fn(*a, **kw)
        except StepLimit:
            self.log.append((name, "NO-END"))
            raise NoEnd(name, self.budget) from None
        except Exception as e:
            self.log.append((name, repr(e)))
            raise CallFailed(name, e) from e
        finally:
            CLOCK.limit = None
        self.max_ratio = max(self.max_ratio, CLOCK.steps / self.budget)
        self.log.append((name, digest(r) if isinstance(r, (np.ndarray, dict, list, tuple)) else type(r).__name__))
        self.count("calls:" + name)
        self.count("loop_steps", CLOCK.steps)
        return r
