"""C24: what masked pixels hold influences no result."""
import itertools

import numpy as np

from mc import lib

LEVEL = "exploration"
RULE = (
    "evaluation = one operation of the real code over an image with other values under its mask, compared with the same operation "
    "over the image with the sky level there; distinct = (frame, mask, values, operation)"
)
BOUNDS = {
    "quick": "2 frames x 8 masks x 13 values under the whole mask, all 2^5 assignments of two extreme values to 5 masked places in 3 masks, "
             "the pixels that the mask grows over included; every quantity of an image, the subtraction in 12 modes as new and as reference, coadds with 1 and 2 workers",
    "thorough": "as quick with all 3^5 assignments of three values in 6 masks, 3 frames, 16 modes",
}
SHAPES = [(64, 70), (57, 61), (90, 66)]
VALUES = [np.nan, np.inf, -np.inf, 0.0, -49.0, -1e5, 500.0, 8000.0, 50000.0, 64999.0, 7e4, 1e9, 1e30]
PAIRS = [np.nan, 60000.0, -40.0]
MODES = [dict(beta=b, shift=s, iterative=i, fitted_psf=f) for f in (False, True) for b in (False, True) for s in (False, True) for i in (False, True)]


def pixels(f):
    return lib.scene(*SHAPES[f], seed=80 + f, sig=1.4, sigx=1.2, step=11, off=9, var=[0.0, 0.6, 0.3][f])


def partner(f):
    p = lib.scene(*SHAPES[f], seed=90 + f, sig=1.5, step=11, off=9, flux=1.3, bg=130)
    return lib.pi.SingleImage(p, stamp_shape=(9, 9))


def flags(k, shape):
    """The mask the user gives, and five places of it."""
    n, m = shape
    b = np.zeros(shape, dtype=bool)
    pts = [(5, 7), (n // 2, m // 2), (n - 3, 4), (20, m - 2), (31, 24)]
    if k == 0:
        for p in pts:
            b[p] = True
    elif k == 1:  # blocks, that grow
        for y, x in pts:
            b[max(0, y - 1): y + 2, max(0, x - 1): x + 3] = True
    elif k == 2:
        b[:, 33] = b[12, :] = True
        pts = [(0, 33), (12, 0), (n - 1, 33), (12, 33), (40, 33)]
    elif k == 3:
        b[0] = b[-1] = b[:, 0] = b[:, -1] = True
        pts = [(0, 0), (n - 1, m - 1), (0, m // 2), (n // 2, 0), (n - 1, 8)]
    elif k == 4:  # stars, and what is next to them
        for y, x in [(9, 9), (20, 31), (31, 20), (42, 42), (25, 25)]:
            b[y - 2: y + 2, x - 1: x + 3] = True
        pts = [(9, 9), (20, 31), (31, 20), (42, 42), (25, 25)]
    elif k == 5:
        b[30: 48, 5: 19] = True
        pts = [(30, 5), (47, 18), (38, 12), (33, 9), (30, 18)]
    elif k == 6:
        y, x = np.mgrid[:n, :m]
        b = (y % 9 == 4) & (x % 8 == 3)
        pts = [(4, 3), (13, 11), (22, 43), (40, 51), (49, 27)]
    elif k == 7:
        y, x = np.mgrid[:n, :m]
        b = y + x < 16
        pts = [(0, 0), (15, 0), (0, 15), (7, 8), (3, 3)]
    return b, pts


def image(p, b, cls=None):
    return (cls or lib.pi.SingleImage)(p.copy(), mask=b.copy(), stamp_shape=(9, 9))


def quantities(p, b):
    im = image(p, b)
    s = im.best_sources
    out = {
        "mask": im.mask.copy(), "background": im.background, "noise": np.array(im.var), "interpolated image": im.interped,
        "stars": np.array([s["x"], s["y"], s["flux"] / 1e3, s["npix"], s["flag"]], dtype=float), "stamps": np.asarray(im.stamps_pos),
    }
    a, basis = im.get_variable_psf(0.05)
    out["basis"] = np.array(basis)
    out["fields"] = np.array([f(10.0, 20.0) for f in a if f is not None])
    out["normalisation"] = im.normal_image
    out["matched filter"] = im.s_component
    out["psf"] = im.get_psf_xy(31.0, 24.0)
    out["psf norm"] = im.p_sqnorm()
    im._clean()
    g = image(p, b, lib.single_image.SingleImageGaussPSF)
    model = g.get_variable_psf()[1][1]
    out["gaussian"] = np.array([abs(model.x_stddev.value), abs(model.y_stddev.value)])
    g._clean()
    return out


def subtraction(p, b, f, mode, as_new):
    im, other = image(p, b), partner(f)
    pair = (other, im) if as_new else (im, other)
    if mode["fitted_psf"]:
        # an image that is modeled again goes with its mask
        pair = tuple(lib.single_image.SingleImageGaussPSF(x.data.data.copy(), mask=x.mask.copy(), stamp_shape=(9, 9)) for x in pair)
    d = lib.pi.subtract(*pair, align=False, inf_loss=0.2, **mode)
    return {n: np.asarray(x) for n, x in zip(("difference", "psf", "significance", "mask"), d)}


def coaddition(p, b, f, workers, first):
    im, other = image(p, b), partner(f)
    r = lib.pi.coadd([im, other] if first else [other, im], align=False, inf_loss=0.2, n_procs=workers)
    return {n: np.asarray(x) for n, x in zip(("coadd", "psf", "mask"), r)}


def operations(f, tier):
    ops = [("image", quantities, ())]
    modes = [m for m in MODES if tier == "thorough" or not (m["fitted_psf"] and m["iterative"])]
    for i, m in enumerate(modes):
        ops.append(("subtraction %s" % (sorted(k for k in m if m[k]),), subtraction, (f, m, i % 2 == 0)))
    for w in (1, 2):
        ops.append(("coadd, %d workers" % w, coaddition, (f, w, w == 1)))
    return ops


def cases(tier):
    out = []
    t = tier == "thorough"
    for f in range(3 if t else 2):
        for k in range(8):
            for s in range(3):
                out.append(dict(kind="values", frame=f, mask=k, tier=tier, shard=s, shards=3))
    for k in range(6) if t else (1, 4, 6):
        out.append(dict(kind="mixed", frame=k % 2, mask=k, values=3 if t else 2))
    return out


def compare(rec, what, got, want):
    for n in want:
        if not rec.check(lib.close(got[n], want[n], 1e-5), n, "%s: %s changes, %s" % (what, n, lib.dist(got[n], want[n]))):
            return


def run(case, rec):
    globals()[case["kind"]](case, rec)
    rec.sample(case)


def values(case, rec):
    f = case["frame"]
    shape = SHAPES[f]
    b, _ = flags(case["mask"], shape)
    p = pixels(f)
    with rec.guard("mask %d" % case["mask"]):
        grown = image(p, b).mask.copy()
    for i, (name, fn, args) in enumerate(operations(f, case["tier"])[case["shard"]:: case["shards"]]):
        # each operation of the subtractions with a fit takes some of the values
        todo = VALUES if fn is not subtraction else [VALUES[(i * 3 + case["mask"] + j) % len(VALUES)] for j in (range(13) if case["tier"] == "thorough" else (0, 4))]
        want = None
        for v in [p[b].mean() * 0 + 100.0] + todo:
            for where in ("given", "grown"):
                q = p.copy()
                q[b] = v
                if where == "grown":
                    if not np.isfinite(v) or not -50 < v < 65000 or v == 100.0 or fn is subtraction:
                        continue
                    q[grown] = v
                what = "%s, frame %s, mask %d, %g under the %s mask" % (name, shape, case["mask"], v, where)
                with rec.guard(what):
                    lib.reset()
                    got = fn(q, b, *args)
                    if want is None:
                        want = got
                        continue
                    rec.eval((f, case["mask"], v, where, name))
                    compare(rec, what, got, want)
            if len(rec.violations) > 8:
                return


def mixed(case, rec):
    """Every assignment of some values to five places of the mask."""
    f = case["frame"]
    shape = SHAPES[f]
    b, pts = flags(case["mask"], shape)
    p = pixels(f)
    p[b] = 100.0
    ops = [("image", quantities, ()), ("subtraction", subtraction, (f, MODES[0], True)), ("coadd", coaddition, (f, 1, False))]
    with rec.guard("mask %d" % case["mask"]):
        wants = [fn(p, b, *a) for _, fn, a in ops]
        for vals in itertools.product(PAIRS[: case["values"]], repeat=5):
            q = p.copy()
            for y, v in zip(pts, vals):
                q[y] = v
            for (name, fn, a), want in zip(ops, wants):
                what = "%s, frame %s, mask %d, %s in %s" % (name, shape, case["mask"], list(vals), pts)
                with rec.guard(what):
                    lib.reset()
                    compare(rec, what, fn(q, b, *a), want)
                    rec.eval((f, case["mask"], vals, name))
            if len(rec.violations) > 8:
                return
