"""What the checks share: loading the code under test, scenes, records."""
import glob
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import json
import logging
import os
import pathlib
import shutil
import sys
import traceback
import warnings

import numpy as np

REPO = os.environ.get("VMC_REPO", "/repo")
PKG = os.path.join(REPO, "properimage")
SCRATCH = os.environ.get("VMC_SCRATCH") or "/tmp"


class CodeError(Exception):
    def __init__(self, msg, tb):
        super().__init__(msg)
        self.tb = tb


# ---------------------------------------------------------------------------
# loading /repo's working tree, never a cached bytecode file
# ---------------------------------------------------------------------------
class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "properimage" and not fullname.startswith("properimage."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init),
                submodule_search_locations=[base],
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py")
            )
        return None


class Env:
    """The environment answers the code under test gets (optimizers)."""

    least_squares = None
    minimize_scalar = None
    calls = []


pi = single_image = operations = utils = simtools = plot = None


def load():
    global pi, single_image, operations, utils, simtools, plot
    warnings.simplefilter("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    import matplotlib

    matplotlib.use("Agg")
    from scipy import optimize

    def wrap(name):
        real = getattr(optimize, name)

        def fn(*a, **k):
            Env.calls.append(name)
            stub = getattr(Env, name)
            if stub is not None:
                return stub(real, *a, **k)
            return real(*a, **k)

        setattr(optimize, name, fn)

    wrap("least_squares")
    wrap("minimize_scalar")
    sys.meta_path.insert(0, _Finder())
    import properimage as pi_
    from properimage import operations as o_
    from properimage import plot as p_
    from properimage import simtools as st_
    from properimage import single_image as s_
    from properimage import utils as u_

    assert os.path.realpath(pi_.__file__).startswith(os.path.realpath(PKG)), pi_.__file__
    pi, single_image, operations, utils, simtools, plot = pi_, s_, o_, u_, st_, p_
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def reset():
    Env.least_squares = Env.minimize_scalar = None
    Env.calls = []
    np.random.seed(12345)
    warnings.simplefilter("ignore")


# ---------------------------------------------------------------------------
class Rec:
    """What one case did."""

    def __init__(self, case):
        self.case = case
        self.counts = {"evaluations": 0, "transitions": 0, "traces": 0}
        self.keys, self.states, self.outcomes = set(), set(), set()
        self.samples, self.violations, self.extra = [], [], {}

    def eval(self, key=None, n=1):
        self.counts["evaluations"] += n
        if key is not None:
            self.keys.add(h(key))

    def state(self, key):
        k = h(key)
        new = k not in self.states
        self.states.add(k)
        return new

    def trans(self, n=1):
        self.counts["transitions"] += n

    def trace(self, n=1):
        self.counts["traces"] += n

    def outcome(self, x):
        self.outcomes.add(h(x))

    def more(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(json.loads(json.dumps(obj, default=str)))

    def violate(self, key, msg, detail=None):
        if len(self.violations) < 20:
            self.violations.append(dict(key=key, msg=str(msg)[:600], detail=str(detail or "")[-1500:]))

    def check(self, cond, key, msg, detail=None):
        if not cond:
            self.violate(key, msg, detail)
        return bool(cond)

    def guard(self, what, detail=None):
        return _Guard(self, what, detail)

    def result(self):
        return dict(
            counts=self.counts, keys=sorted(self.keys), states=sorted(self.states),
            outcomes=sorted(self.outcomes), samples=self.samples,
            violations=self.violations, extra=self.extra,
        )


class _Guard:
    """Exceptions of the code under test are violations, not errors."""

    def __init__(self, rec, what, detail):
        self.rec, self.what, self.detail = rec, what, detail
        self.failed = False

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or not issubclass(et, Exception):
            return False
        self.failed = True
        self.rec.violate(
            "exception",
            "%s: unexpected %s: %s (%s)" % (self.what, et.__name__, str(ev)[:200], self.detail or ""),
            "".join(traceback.format_exception(et, ev, tb))[-1500:],
        )
        return True


def h(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=9).hexdigest()


def digest(a):
    """Digest of an array's exact content."""
    a = np.asarray(a)
    return hashlib.blake2b(
        repr((a.dtype.str, a.shape)).encode() + np.ascontiguousarray(a).tobytes(), digest_size=12
    ).hexdigest()


def close(a, b, rtol=1e-6, atol=None):
    """Same shape and same values up to rounding (relative to the scale of b)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype == bool or b.dtype == bool:
        return bool(np.array_equal(a, b))
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not fb.any():
        return True
    scale = float(np.max(np.abs(b[fb])))
    tol = (atol if atol is not None else 0.0) + rtol * scale
    return bool(np.max(np.abs(a[fa] - b[fb])) <= tol)


def dist(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shapes %s %s" % (a.shape, b.shape)
    if a.size == 0:
        return "empty"
    if a.dtype == bool or b.dtype == bool:
        return "differ at %s" % np.argwhere(a != b)[:4].tolist()
    with np.errstate(all="ignore"):
        return "max diff %.3g of %.3g" % (float(np.nanmax(np.abs(a - b))), float(np.nanmax(np.abs(b))))


# ---------------------------------------------------------------------------
# scenes
# ---------------------------------------------------------------------------
def scene(n=64, m=None, seed=0, step=10, bg=100.0, sig=1.3, sigx=None, amp=3000.0,
          noise=3.0, var=0.0, flux=1.0, jitter=True, off=8, shift=(0.0, 0.0), skip=()):
    """A frame with stars on a grid; deterministic for a given seed."""
    m = m or n
    sigx = sigx or sig
    r = np.random.default_rng(seed)
    img = bg + noise * r.standard_normal((n, m))
    yy, xx = np.mgrid[:n, :m]
    k = 0
    for cy in range(off, n - off + 1, step):
        for cx in range(off, m - off + 1, step):
            k += 1
            if k in skip:
                continue
            s = sig * (1 + var * cy / n)
            y = cy + (0.3 * (k % 3) if jitter else 0) + shift[0]
            x = cx + (0.2 * (k % 4) if jitter else 0) + shift[1]
            img += flux * (amp * (1 + 0.15 * (k % 7))) * np.exp(
                -((yy - y) ** 2 / s**2 + (xx - x) ** 2 / sigx**2) / 2
            )
    return img


_number = itertools.count()


def own_files(old, new):
    """Give a clone the star stamps of the image in files of its own."""
    name = new.__dict__.get("dbname")
    if not isinstance(name, str):
        return new
    mine = os.path.join(SCRATCH, "clone%d_%d" % (os.getpid(), next(_number)))
    for f in glob.glob(glob.escape(name) + ".*"):
        shutil.copyfile(f, mine + f[len(name):])
    new.dbname = mine
    if "db" in new.__dict__:
        for k, v in list(vars(new.db).items()):
            if isinstance(v, (str, pathlib.Path)) and str(v).startswith(name):
                setattr(new.db, k, type(v)(mine + str(v)[len(name):]))
    return new


def stamp_files(i, hh):
    """Put the content of the star stamps of an image into a digest."""
    for f in sorted(glob.glob(glob.escape(str(i.dbname)) + ".*")):
        hh.update(f[len(i.dbname):].encode())
        with open(f, "rb") as fh:
            hh.update(fh.read())
