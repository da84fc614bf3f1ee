"""C21: aligned operations put the images on the grid of the first one."""
import itertools

import numpy as np
from scipy import ndimage

from mc import lib

LEVEL = "exploration"
RULE = (
    "evaluation = one aligned coadd or subtraction of the real code, compared with the same operation over images "
    "taken on the grid of the first one; distinct = (operation, displacement, turn, scale, shapes, options)"
)
BOUNDS = {
    "quick": "coadd and subtraction: 5x5 displacements up to 22 pixels x 4 quarter turns, 4x4 fractions of a pixel, turns every 15 degrees, 3 scales; "
             "15 pairs of shapes, 4 kinds of bad pixels at 9 places, 4 containers, lists of 1 to 4, 2 distances of images that share little but with the first one; the 8 modes of subtraction at 9 displacements",
    "thorough": "as quick with 15x15 displacements x 4 quarter turns, 10x10 fractions, turns every 3 degrees, 7 scales, 8 modes at 25 displacements",
}
ASSUMPTIONS = [
    "the accuracy of the registration and of the interpolation is astroalign's: coadds are compared by their correlation (0.95), scale and the positions of their stars, differences within a third of the transient, masks within two pixels of their edges",
]
CASE_TIMEOUT = 600
SHAPES = [(150, 156), (144, 164), (160, 142)]
BIG = 230
ORIGIN = (40, 36)
CENTER = np.array([ORIGIN[0] + 74.5, ORIGIN[1] + 77.5])
LATTICE = [-20, -7, 0, 4, 22]
MODES = list(itertools.product((True, False), repeat=3))  # fitted, beta, shift
TRANSIENT = np.array([ORIGIN[0] + 72, ORIGIN[1] + 81])


def field():
    r = np.random.default_rng(5)
    pts = []
    for _ in range(20000):
        p = r.uniform(4, BIG - 4, 2)
        if all(np.hypot(*(p - q)) > 25 for q in pts) and np.hypot(*(p - TRANSIENT)) > 18:
            pts.append(p)
    return np.array(pts), np.random.default_rng(6).uniform(2500, 5000, len(pts))


STARS, AMPS = field()


class Grid:
    """Where the points of the sky are in the frame of an image."""

    def __init__(self, d=(0.0, 0.0), angle=0.0, scale=1.0, shape=SHAPES[0]):
        t = np.deg2rad(angle)
        self.m = scale * np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        self.d, self.shape, self.scale = np.array(d, dtype=float), shape, scale
        self.name = (tuple(d), angle, scale, shape)
        self.exact = scale == 1 and angle % 90 == 0 and all(v == int(v) for v in d)

    def __call__(self, p):
        return (np.asarray(p, dtype=float) - CENTER) @ self.m.T + CENTER - np.array(ORIGIN) + self.d

    def place(self, shape):
        """Positions in this image of the pixels of the reference."""
        y, x = np.mgrid[: shape[0], : shape[1]]
        return self(np.stack([y.ravel() + ORIGIN[0], x.ravel() + ORIGIN[1]], 1)).reshape(shape + (2,))

    def nodata(self, shape, margin=0.0):
        q = self.place(shape)
        return (
            (q[..., 0] < -margin) | (q[..., 0] > self.shape[0] - 1 + margin)
            | (q[..., 1] < -margin) | (q[..., 1] > self.shape[1] - 1 + margin)
        )


LOOK = [(1.0, 1.4, 100), (1.5, 1.6, 140), (0.7, 1.5, 80), (1.0, 1.3, 60)]


def render(grid, k, transient=0.0):
    flux, sig, bg = LOOK[k]
    s = sig * grid.scale
    im = bg + 4 * np.random.default_rng(100 + k).standard_normal(grid.shape)
    y, x = np.mgrid[: grid.shape[0], : grid.shape[1]]
    pts = list(zip(grid(STARS), AMPS))
    if transient:
        pts.append((grid(TRANSIENT[None, :])[0], transient))
    for q, a in pts:
        if -6 * s < q[0] < grid.shape[0] + 6 * s and -6 * s < q[1] < grid.shape[1] + 6 * s:
            im += a * flux * np.exp(-((y - q[0]) ** 2 + (x - q[1]) ** 2) / 2 / s**2)
    return im


def state(x):
    if isinstance(x, lib.pi.SingleImage):
        return lib.digest(x.data.data), lib.digest(x.data.mask)
    if isinstance(x, np.ma.MaskedArray):
        return lib.digest(x.data), lib.digest(np.ma.getmaskarray(x))
    return (lib.digest(x),)


def agree(rec, what, key, got, want, least, most):
    """Combined images, both with (image, psf, ..., mask), nearly equal."""
    g, w = np.asarray(got[0]).real, np.asarray(want[0]).real
    if not rec.check(g.shape == w.shape, key + ":shape", "%s: shape %s, the one of the reference is %s" % (what, g.shape, w.shape)):
        return
    m, n = np.asarray(got[-1], bool), np.asarray(want[-1], bool)
    if not rec.check(m.shape == w.shape, key + ":mask", "%s: mask of shape %s" % (what, m.shape)):
        return
    wide = ndimage.binary_dilation(most, np.ones((3, 3)), iterations=9)
    rec.check(not np.any(m & ~wide), key + ":mask", "%s: good pixels %s are masked" % (what, np.argwhere(m & ~wide)[:3].tolist()))
    rec.check(not np.any(least & ~m), key + ":mask", "%s: pixels without data %s are not masked" % (what, np.argwhere(least & ~m)[:3].tolist()))
    ok = ~(m | n)
    rec.check(np.all(np.isfinite(g)), key + ":finite", what + ": not finite")
    return g, w, ok


def together(rec, what, key, g, w, ok, lo, hi):
    """A coadd that follows the one of the images taken aligned."""
    x, y = g[ok], w[ok]
    scale = np.vdot(y, x) / np.vdot(y, y)
    corr = np.corrcoef(x, y)[0, 1]
    rec.check(corr > 0.95, key + ":image", "%s: correlation of %.3f with the images taken aligned" % (what, corr))
    rec.check(lo < scale < hi, key + ":image", "%s: %.3f times the images taken aligned" % (what, scale))


def stay(rec, what, key, g, m, shape, enough=5):
    """The stars of the reference are where they were."""
    near = ndimage.binary_dilation(m, np.ones((3, 3)), iterations=6)
    seen = 0
    for q in Grid(shape=shape)(STARS):
        y, x = np.round(q).astype(int)
        if y < 8 or x < 8 or y > shape[0] - 9 or x > shape[1] - 9 or near[y, x]:
            continue
        seen += 1
        box = g[y - 5: y + 6, x - 5: x + 6]
        p = np.array(np.unravel_index(np.argmax(box), box.shape)) - 5
        rec.check(np.max(np.abs(p)) <= 2, key + ":stars", "%s: the star at %s is %s pixels away from its place" % (what, (y, x), p))
    rec.check(seen > enough, "scene", "%s: only %d stars" % (what, seen))


def same_psf(rec, what, key, p, q):
    p, q = np.asarray(p).real, np.asarray(q).real
    p, q = [np.roll(z, [-v for v in np.unravel_index(np.argmax(z), z.shape)], (0, 1)) for z in (p, q)]
    corr = np.corrcoef(p.ravel(), q.ravel())[0, 1]
    rec.check(corr > 0.9, key + ":psf", "%s: correlation of %.3f with the PSF of the images taken aligned" % (what, corr))


def wrap(form, p, mask=None):
    m = np.zeros(p.shape, bool) if mask is None else mask
    if form == "image":
        return lib.pi.SingleImage(np.ma.MaskedArray(p.copy(), m.copy()))
    if form == "masked":
        return np.ma.MaskedArray(p.copy(), m.copy())
    out = p.copy()
    out[m] = np.nan
    return out


def coadd(rec, grids, shape, form="image", workers=1, key="coadd", bad=None, enough=5):
    """Coadd the reference and images on other grids."""
    home = Grid(shape=shape)
    what = "coadd of %s on %s, as %s, %d workers" % ([g.name for g in grids], shape, form, workers)
    forms = [form] * (len(grids) + 1)
    if form == "mixed":
        forms = [("image", "array", "masked")[i % 3] for i in range(len(forms))]
    with rec.guard(what):
        px = [render(home, 0)] + [render(g, 1 + i % 3) for i, g in enumerate(grids)]
        masks = [None] * len(px)
        where = np.zeros(shape, bool)
        if bad:
            where = spoil(bad, px, masks, grids, shape)
            what += ", bad pixels %s" % (bad,)
        given = [wrap(f, p, m) for f, p, m in zip(forms, px, masks)]
        ids, before = [id(x) for x in given], [state(x) for x in given]
        lib.reset()
        got = lib.pi.coadd(given, align=True, inf_loss=0.5, n_procs=workers)
        rec.eval(("coadd", [g.name for g in grids], shape, form, workers, bad))
        rec.check([id(x) for x in given] == ids, "inputs", what + ": the list given changed")
        rec.check([state(x) for x in given] == before, "inputs", what + ": the images given changed")
        like = [lib.pi.SingleImage(render(home, 0))]
        for i, g in enumerate(grids):
            like.append(lib.pi.SingleImage(np.ma.MaskedArray(render(home, 1 + i % 3), g.nodata(shape) | (where if i == 0 else False))))
        want = lib.pi.coadd(like, align=False, inf_loss=0.5, n_procs=1)
        least, most = np.any([where] + [g.nodata(shape, 0.7) for g in grids], 0), np.any([where] + [g.nodata(shape, -0.7) for g in grids], 0)
        r = agree(rec, what, key, got, want, least, most)
        if r is not None:
            exact = all(g.exact for g in grids)
            together(rec, what, key, *r, *((0.88, 1.12) if exact else (0.75, 1.6)))
            stay(rec, what, key, r[0], ~r[2], shape, enough)
            same_psf(rec, what, key, got[1], want[1])


def subtract(rec, grid, shape, form="image", mode=MODES[0], key="subtract", bad=None):
    fitted, beta, shift = mode
    home = Grid(shape=shape)
    what = "subtraction of %s on %s, as %s, fitted %s beta %s shift %s" % (grid.name, shape, form, fitted, beta, shift)
    forms = ("image", "array") if form == "mixed" else (form, form)
    with rec.guard(what):
        px = [render(home, 0), render(grid, 1, 8000.0)]
        masks = [None, None]
        where = np.zeros(shape, bool)
        if bad:
            where = spoil(bad, px, masks, [grid], shape)
            what += ", bad pixels %s" % (bad,)
        given = [wrap(f, p, m) for f, p, m in zip(forms, px, masks)]
        before = [state(x) for x in given]
        lib.reset()
        got = lib.pi.subtract(given[0], given[1], align=True, inf_loss=0.5, beta=beta, shift=shift, fitted_psf=fitted)
        rec.eval(("subtract", grid.name, shape, form, mode, bad))
        rec.check([state(x) for x in given] == before, "inputs", what + ": the images given changed")
        if not rec.check(np.shape(got[0]) == shape and np.shape(got[2]) == shape, "subtract:shape", "%s: shape %s" % (what, np.shape(got[0]))):
            return
        like = np.ma.MaskedArray(render(home, 1, 8000.0), grid.nodata(shape) | where)
        want = lib.pi.subtract(render(home, 0), like, align=False, inf_loss=0.5, beta=beta, shift=shift, fitted_psf=fitted)
        r = agree(rec, what, key, got, want, where | grid.nodata(shape, 0.7), where | grid.nodata(shape, -0.7))
        if r is None:
            return
        g, w, ok = r
        if fitted:
            diff = np.max(np.abs(g - w)[ok]) / np.max(np.abs(w)[ok])
            rec.check(diff <= (0.6 if bad else 0.3), key + ":image", "%s: differs by %.2f of the transient from the images taken aligned" % (what, diff))
            same_psf(rec, what, key, got[1], want[1])
        s = np.where(~ok, 0, np.asarray(got[2]).real)
        y, x = TRANSIENT - np.array(ORIGIN)
        if not got[3][y, x]:
            box = s[y - 6: y + 7, x - 6: x + 7]
            p = np.array(np.unravel_index(np.argmax(box), box.shape)) - 6
            rec.check(np.max(np.abs(p)) <= (1 if fitted else 2), key + ":transient", "%s: the transient is %s pixels away from its place" % (what, p))
            if fitted:
                rec.check(s[y, x] > 0.8 * np.max(np.abs(s)), key + ":transient", "%s: the transient is not the most significant source, %.2f of %.2f" % (what, s[y, x], np.max(np.abs(s))))


PLACES = [(20, 24), (24, 80), (18, 122), (72, 20), (80, 69), (75, 122), (118, 25), (120, 75), (114, 120)]
KINDS = ["nan", "saturated", "negative", "mask"]


def spoil(bad, px, masks, grids, shape):
    """Spoil a block of the first displaced image; where it is in the reference."""
    kind, place = bad
    y, x = PLACES[place]
    g = grids[0]
    block = np.zeros(g.shape, bool)
    block[y: y + 5, x: x + 4] = True
    if kind == "mask":
        masks[1] = block
    else:
        px[1][block] = {"nan": np.nan, "saturated": 70000.0, "negative": -500.0}[kind]
    q = g.place(shape)
    near = np.round(q).astype(int)
    ins = ~g.nodata(shape)
    out = np.zeros(shape, bool)
    out[ins] = block[near[..., 0][ins].clip(0, g.shape[0] - 1), near[..., 1][ins].clip(0, g.shape[1] - 1)]
    return out


def cases(tier):
    out = []
    quick = tier == "quick"
    lat = LATTICE if quick else list(range(-22, 23, 3))
    for turn in range(4):
        for dy in lat:
            out.append(dict(kind="lattice", turn=turn, dy=dy, dxs=lat))
    n = 4 if quick else 10
    for k in range(n):
        out.append(dict(kind="fractions", dy=4 + k / n, n=n))
    step = 15 if quick else 3
    for a in range(0, 360, 60):
        out.append(dict(kind="turns", angles=list(range(a, a + 60, step))))
    for s in ([0.9, 1.1, 1.25] if quick else [0.8, 0.85, 0.9, 0.95, 1.1, 1.25, 1.4]):
        out.append(dict(kind="scales", scale=s))
    out += [dict(kind="shapes", ref=k, new=n) for k in range(3) for n in range(5)]
    out += [dict(kind="bads", bad=k, turn=t, mode=3 if quick else 0) for k in KINDS for t in (0, 1)]
    out = [dict(kind="lists", n=n, workers=w) for n in (2, 3) for w in (1, 2, 3)] + out
    out += [dict(kind="far", ds=[d]) for d in ((52, 57) if quick else (45, 48, 50, 52, 54, 56, 58))]
    for form in ("image", "array", "masked", "mixed"):
        out.append(dict(kind="forms", form=form))
    ds = [-14, 0, 9] if quick else [-20, -9, 0, 6, 17]
    for m in range(len(MODES)):
        for dy in ds:
            out.append(dict(kind="modes", mode=m, dy=dy, dxs=ds))
    return out


def run(case, rec):
    globals()[case["kind"]](case, rec)
    rec.sample(case)


def both(rec, g, shape, i, **kw):
    coadd(rec, [g], shape, workers=1 + i % 2, **kw)
    subtract(rec, g, shape, form="masked" if i % 2 else "array", mode=MODES[0] if i % 3 == 0 else MODES[3], **kw)


def lattice(case, rec):
    for i, dx in enumerate(case["dxs"]):
        both(rec, Grid((case["dy"], dx), 90.0 * case["turn"]), SHAPES[0], i)
        if len(rec.violations) > 8:
            return


def fractions(case, rec):
    for k in range(case["n"]):
        both(rec, Grid((case["dy"], -7 + k / case["n"])), SHAPES[0], k)


def turns(case, rec):
    for i, a in enumerate(case["angles"]):
        both(rec, Grid((3, -2), float(a)), SHAPES[0], i)


def scales(case, rec):
    for i, (d, a) in enumerate(itertools.product([(0, 0), (5, -8)], [0.0, 40.0, 180.0])):
        g = Grid(d, a, case["scale"])
        coadd(rec, [g], SHAPES[0], workers=1 + i % 2)
        subtract(rec, g, SHAPES[0], form="masked" if i % 2 else "array")


def shapes(case, rec):
    shape = SHAPES[case["ref"]]
    for i, s in enumerate([(SHAPES + [(180, 175), (130, 134)])[case["new"]]]):
        for d, a in (((0, 0), 0.0), ((4, 6), 90.0)):
            g = Grid(d, a, shape=s)
            coadd(rec, [g], shape, workers=1 + i % 2)
            subtract(rec, g, shape, form="array", mode=MODES[3])


def bads(case, rec):
    for place in range(len(PLACES)):
        g = [Grid(), Grid((6, -5), 90.0)][case["turn"]]
        form = ("image", "masked", "array")[(place + case["turn"]) % 3]
        coadd(rec, [g], SHAPES[0], form=form, bad=(case["bad"], place))
        subtract(rec, g, SHAPES[0], form="array" if form == "image" else form, mode=MODES[case["mode"]], bad=(case["bad"], place))
        if len(rec.violations) > 8:
            return


def lists(case, rec):
    n, w = case["n"], case["workers"]
    with rec.guard("one image"):
        for align in (True, False):
            im = render(Grid(), n)
            got = lib.pi.coadd([im], align=align, inf_loss=0.5, n_procs=w)
            if align:
                first = got
        rec.eval(("one", n, w))
        for a, b, name in zip(first, got, ("image", "psf", "mask")):
            rec.check(lib.close(a, b, 1e-9), "one", "coadd of one image with alignment: %s differs, %s" % (name, lib.dist(a, b)))
    gs = [Grid((5, -9)), Grid((-12, 3), 90.0), Grid((2, 2), 200.0, shape=SHAPES[1])]
    for order in itertools.permutations(gs, n):
        coadd(rec, list(order), SHAPES[0], workers=w)
    # the displacement of each copy is its own
    coadd(rec, [gs[0]] * n, SHAPES[0], workers=w)


def far(case, rec):
    """Images that share little but with the first one."""
    for d in case["ds"]:
        for v in ((d, 0), (0, d), (-d, 0), (0, -d)):
            for a in (0.0, 90.0):
                coadd(rec, [Grid(v, a), Grid((-v[0], -v[1]))], SHAPES[0], workers=1 + case["ds"].index(d) % 3, enough=0)


def forms(case, rec):
    for i, (d, a) in enumerate(itertools.product([(0, 0), (7, -9)], [0.0, 90.0, 180.0])):
        g = Grid(d, a)
        coadd(rec, [g, Grid((2, 3))], SHAPES[0], form=case["form"], workers=1 + i % 2)
        # the mask of an image grows again when it is modeled
        if case["form"] in ("array", "masked") or not (d[0] or d[1]):
            for mode in (MODES[0], MODES[4]):
                subtract(rec, g, SHAPES[0], form=case["form"], mode=mode)


def modes(case, rec):
    for dx in case["dxs"]:
        for a in (0.0, 90.0):
            subtract(rec, Grid((case["dy"], dx), a), SHAPES[0], form="array", mode=MODES[case["mode"]])
