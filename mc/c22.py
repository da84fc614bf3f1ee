"""C22: operations leave their inputs alone and can be repeated in any order.

Explicit-state search over the live images a session works with.  A state is
the tuple of images with all their attributes, a transition one operation over
clones of them; states that are bit for bit the same are merged.  The oracle of
each operation is the same call over new images.
"""
import hashlib
import warnings

import numpy as np

from mc import lib
from mc.c03 import clone, dig

LEVEL = "model_checking"
RULE = (
    "evaluation = one operation of a history compared with the same call on new images, its inputs compared with what "
    "they were; distinct = (session, state reached, operation)"
)
BOUNDS = {
    "quick": "6 shared images with small or default stamps; every history of 32 operations (coadds, subtractions, zero points, queries, settings and refused calls) up to 2 calls, "
             "of 12 of them or 6 with Gaussian PSFs up to 3 calls (2 with default stamps)",
    "thorough": "every history of the 32 operations up to 3 calls (2 with default stamps), of the 12 up to 6 (5), of the Gaussian ones up to 5 (4)",
}
ASSUMPTIONS = ["two sets of images with identical attributes have the same future"]
CASE_TIMEOUT = 800
SHAPE = (72, 76)
NAMES = ["A", "B", "C", "GA", "GB", "W"]


def stars():
    r = np.random.default_rng(3)
    pts = []
    for _ in range(4000):
        p = r.uniform(7, 65, 2)
        if all(np.hypot(*(p - q)) > 12 for q in pts):
            pts.append(p)
    return pts, r.uniform(2000, 5000, len(pts))


STARS = stars()
#        seed flux sig bg  displacement
LOOK = {"A": (1, 1.0, 1.3, 100, (0, 0)), "B": (2, 1.6, 1.5, 60, (1, 0)), "C": (3, 0.7, 1.4, 140, (0, -1)), "W": (4, 1.0, 1.3, 90, (0, 0))}


def pixels(k):
    seed, flux, sig, bg, d = LOOK[k]
    r = np.random.default_rng(seed)
    shape = SHAPE if k != "W" else (70, 74)
    im = bg + 3 * r.standard_normal(shape)
    y, x = np.mgrid[: shape[0], : shape[1]]
    for (cy, cx), a in zip(*STARS):
        s = sig * (1 + 0.3 * cy / 72)
        im += a * flux * np.exp(-((y - cy - d[0]) ** 2 + (x - cx - d[1]) ** 2) / 2 / s**2)
    if k == "B":
        im[30:33, 40:43] = np.nan
    if k == "C":
        im[12, 20:24] = 70000.0
    return im


def world(session):
    """The images of a session, new."""
    out = {}
    for n in NAMES:
        cls = lib.single_image.SingleImageGaussPSF if n[0] == "G" else lib.pi.SingleImage
        out[n] = cls(pixels(n[-1]), stamp_shape=(11, 11) if session == 0 else None)
    return out


def subs(a, b, **kw):
    def f(w):
        return lib.pi.subtract(w[a], w[b], **kw)
    return f


PLAIN = dict(beta=False, shift=False, inf_loss=0.3)


def co(names, f="coadd", **kw):
    def g(w):
        imgs = [w[n] for n in names]
        keep = list(imgs)
        r = getattr(lib.operations, f)(imgs, **kw)
        assert len(imgs) == len(keep) and all(x is y for x, y in zip(imgs, keep)), "the list given changed"
        return r
    return g


def old(f, *args):
    """The deprecated name does what the new one does, with a warning."""
    def g(w):
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            r = f(w)
        assert any(issubclass(x.category, DeprecationWarning) for x in got), "no DeprecationWarning"
        return r
    return g


def refused(a, b):
    def f(w):
        try:
            lib.pi.subtract(w[a], w[b], fitted_psf=False, **PLAIN)
        except ValueError:
            return (np.zeros(1),)
        raise AssertionError("images of different shape are not refused")
    return f


def zps(names, master=None):
    def f(w):
        z, m = lib.utils.transparency([w[n] for n in names], w[master] if master else None)
        return (np.asarray(z) - z[0], np.sort(np.asarray(m)) - np.mean(m))
    return f


def psf(n, loss):
    def f(w):
        a, p = w[n].get_variable_psf(loss)
        if not isinstance(p[-1], np.ndarray):
            return (np.asarray(p[1].x_stddev.value), np.asarray(p[1].y_stddev.value))
        # the sign of a component is its coefficient's
        return tuple(q * np.sign(q.flat[np.argmax(np.abs(q))]) for q in p)
    return f


def setzp(n, z):
    def f(w):
        w[n].zp = z
        return ()
    return f


def arrays(w):
    a, b = pixels("A"), np.ma.masked_invalid(pixels("B"))
    da, db = lib.digest(a), (lib.digest(b.data), lib.digest(b.mask))
    given = [a, w["B"], b]
    keep = list(given)
    r = lib.pi.coadd(given, align=False, inf_loss=0.3, n_procs=1)
    assert len(given) == 3 and all(x is y for x, y in zip(given, keep)), "the list given changed"
    assert lib.digest(a) == da and (lib.digest(b.data), lib.digest(b.mask)) == db, "the arrays given changed"
    return r


U = dict(fitted_psf=False, **PLAIN)
F = dict(fitted_psf=True, **PLAIN)
C = dict(align=False, n_procs=1)
OPS = {
    "coadd AB": co("AB", inf_loss=0.3, **C),
    "coadd BA": co("BA", inf_loss=0.05, **C),
    "coadd ABC, 2 workers": co("ABC", inf_loss=0.3, align=False, n_procs=2),
    "coadd AA": co("AA", inf_loss=0.3, **C),
    "align AB": co("AB", inf_loss=0.3, align=True, n_procs=1),
    "stack AB": old(co("AB", "stack_R", inf_loss=0.3, **C)),
    "sub AB": subs("A", "B", **U),
    "sub BA, low loss": subs("B", "A", **{**U, "inf_loss": 0.05}),
    "sub AC": subs("A", "C", **U),
    "sub fitted": subs("GA", "GB", **F),
    "sub fitted BA": subs("GB", "GA", **F),
    "refused": refused("A", "W"),
    "setzp B": setzp("B", 3.0),
    "setzp GB": setzp("GB", 3.0),
    "zps ABC": zps("ABC"),
    # only in the wide alphabet
    "coadd A": co("A", inf_loss=0.3, **C),
    "coadd CB": co("CB", inf_loss=0.3, **C),
    "coadd CAB, 3 workers": co("CAB", inf_loss=0.05, align=False, n_procs=3),
    "coadd arrays": arrays,
    "align BA, 2 workers": co("BA", inf_loss=0.3, align=True, n_procs=2),
    "diff AB": old(lambda w: lib.operations.diff(w["A"], w["B"], **U)),
    "sub AA": subs("A", "A", **U),
    "sub fit all": subs("A", "B", fitted_psf=False, inf_loss=0.3, beta=True, shift=True),
    "sub fit scale": subs("B", "C", fitted_psf=False, inf_loss=0.3, beta=True, shift=False),
    "sub fitted, fit": subs("GA", "GB", beta=True, shift=True),
    "sub align": subs("A", "B", align=True, **U),
    "sub fitted, align": subs("GB", "GA", align=True, **F),
    "sub images, fitted": subs("A", "B", **F),
    "zps, master": zps("BC", "A"),
    "psf A": psf("A", 0.05),
    "psf GA": psf("GA", 0.3),
    "refused BW": refused("B", "W"),
}
assert len(OPS) == 32
CORE = [o for o in list(OPS)[:15] if "fitted" not in o and "GB" not in o]
GAUSS = ["sub fitted", "sub fitted BA", "psf GA", "sub fitted, align", "sub images, fitted", "setzp GB"]
# operations whose result is only as good as an iterative fit
LOOSE = {"sub fit all", "sub fit scale", "sub fitted, fit", "align AB", "align BA, 2 workers", "sub align", "sub fitted, align"}


def pixels_of(w):
    return {n: (lib.digest(i.data.data), lib.digest(i.data.mask), lib.digest(i.mask)) for n, i in w.items()}


def canon(w):
    hh = hashlib.blake2b(digest_size=12)
    for n in NAMES:
        for k in sorted(w[n].__dict__):
            hh.update(k.encode())
            if k != "dbname":
                dig(w[n].__dict__[k], hh)
                continue
            lib.stamp_files(w[n], hh)
    return hh.hexdigest()


def copied(w):
    return {n: clone(i) for n, i in w.items()}


def release(w):
    for i in w.values():
        i._clean()


_oracle = {}
# the deprecated names: the oracle is the call by the new name
SAME = {"stack AB": "coadd AB", "diff AB": "sub AB"}


def oracle(session, op):
    op = SAME.get(op, op)
    key = (session, op)
    if key not in _oracle:
        w = world(session)
        lib.reset()
        _oracle[key] = OPS[op](w)
        release(w)
    return _oracle[key]


def step(w, session, op, hist, rec, state):
    what = "session %d, after %s: %s" % (session, list(hist), op)
    before = pixels_of(w)
    lib.reset()
    try:
        got = OPS[op](w)
    except AssertionError as e:
        rec.violate("refused", what + ": " + str(e))
        return False
    except Exception as e:
        rec.violate("exception", "%s: unexpected %s: %s" % (what, type(e).__name__, e))
        return False
    rec.trans()
    rec.eval((session, state, op))
    want = oracle(session, op)
    tol = 1e-2 if op in LOOSE else 1e-5
    if rec.check(len(got) == len(want), "result", what + ": %d results instead of %d" % (len(got), len(want))):
        for i, (g, v) in enumerate(zip(got, want)):
            rec.check(lib.close(np.asarray(g), np.asarray(v), tol), "result", "%s: result %d differs from the one on new images, %s" % (what, i, lib.dist(g, v)))
    rec.check(pixels_of(w) == before, "inputs", what + ": the pixels or masks of the images changed")
    return True


def cases(tier):
    out = []
    plan = [(0, "wide", 2), (0, "core", 3), (0, "gauss", 3), (1, "core", 2)] if tier == "quick" else PLAN
    for session, alpha, depth in plan:
        for op in ALPHA[alpha]:
            out.append(dict(session=session, first=op, alpha=alpha, depth=depth))
    return out


ALPHA = dict(wide=list(OPS), core=CORE, gauss=GAUSS)
PLAN = [(0, "wide", 3), (0, "core", 6), (0, "gauss", 5), (1, "wide", 2), (1, "core", 5), (1, "gauss", 4)]


def run(case, rec):
    session = case["session"]
    alpha = ALPHA[case["alpha"]]
    w = world(session)
    s0 = canon(w)
    rec.state((session, s0))
    with rec.guard("session %d, first operation" % session):
        oracle(session, case["first"])
    if not step(w, session, case["first"], (), rec, s0):
        return
    frontier = [((case["first"],), w)]
    s = canon(w)
    rec.state((session, s))
    seen = {s: w}
    for depth in range(1, case["depth"]):
        nxt = []
        for hist, node in frontier:
            at = canon(node)
            for op in alpha:
                child = copied(node)
                if not step(child, session, op, hist, rec, at):
                    return
                s = canon(child)
                rec.state((session, s))
                if s not in seen:
                    seen[s] = True
                    if depth + 1 < case["depth"]:
                        nxt.append((hist + (op,), child))
                        continue
                release(child)
                if len(rec.violations) > 4:
                    return
            release(node)
        frontier = nxt
        if not frontier:
            rec.more("closed")
            break
    rec.sample(dict(case, states=len(seen)))
