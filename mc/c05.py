"""C05: the PSF at any position is a finite stamp of unit sum."""
import numpy as np

from mc import lib, ref

LEVEL = "exploration"
RULE = "evaluation = the PSF at one position of one image; distinct = (image, position)"
BOUNDS = {
    "quick": "9 images; every pixel, the fractional offsets .49 and -.49 on each axis on a lattice, the rim just outside of the frame",
    "thorough": "the same with a second set of 9 frames, every pixel with four fractional offsets",
}
IMAGES = {
    "variable": (dict(n=44, m=52, seed=1, step=8, off=7, var=0.7), dict(stamp_shape=(7, 7)), 0.01),
    "two": (dict(n=44, seed=2, step=8, off=7, var=0.7), dict(stamp_shape=(7, 7)), 0.05),
    "tall": (dict(n=60, m=40, seed=3, step=8, off=7, var=0.7), dict(stamp_shape=(9, 9)), 0.005),
    "even": (dict(n=44, seed=4, step=8, off=7, var=0.7), dict(stamp_shape=(6, 6)), 0.02),
    "oblong": (dict(n=44, m=48, seed=5, step=8, off=7, var=0.7), dict(stamp_shape=(7, 9)), 0.02),
    "single": (dict(n=44, seed=6, step=9), dict(stamp_shape=(7, 7)), 0.9),
    "auto": (dict(n=48, seed=7, step=9, var=0.6), dict(), 0.01),
    "masked": (dict(n=44, seed=8, step=8, off=7, var=0.7), dict(stamp_shape=(7, 7)), 0.02),
    "smooth": (dict(n=44, seed=9, step=8, off=7, var=0.7), dict(stamp_shape=(7, 7), smooth_psf=True), 0.02),
}
SH = 4


def cases(tier):
    out = []
    for s in [0] if tier == "quick" else [0, 50]:
        for name in IMAGES:
            for k in range(SH):
                out.append(dict(image=name, seed=s, shard=k, tier=tier))
    return out


def run(case, rec):
    scene, kw, L = IMAGES[case["image"]]
    d = lib.scene(**dict(scene, seed=scene["seed"] + case["seed"]))
    if case["image"] == "masked":
        d[20:23, 20:22] = np.nan
    im = lib.pi.SingleImage(d, **kw)
    a, b = im.get_variable_psf(L)
    b = [np.array(x) for x in b]
    n, m = d.shape
    shape = b[0].shape
    single = a[0] is None
    if case["image"] == "single":
        rec.check(single, "single", "%d components" % len(b))
    else:
        rec.check(len(b) > 1, "several", "a single component")
    if not single:
        yy, xx = np.mgrid[:n, :m]
        F = [f(yy, xx) for f in a]
        N = ref.smooth_field(d, F, b)
        rec.check(lib.close(im.normal_image, N, 1e-6), "norm", "normalisation: %s" % lib.dist(im.normal_image, N))
    pts = [(float(i), float(j)) for i in range(n) for j in range(m)]
    frac = [(0.49, -0.49), (-0.49, 0.3)] if case["tier"] == "quick" else [(0.49, -0.49), (-0.49, 0.3), (0.2, 0.0), (0.0, 0.45)]
    step = 5 if case["tier"] == "quick" else 1
    for i in range(0, n, step):
        for j in range(0, m, step):
            for f in frac:
                pts.append((i + f[0], j + f[1]))
    for i in range(-1, n + 1):
        pts += [(float(i), -1.0), (float(i), float(m))]
    lo = [(s - 1) // 2 for s in shape]
    for x, y in pts[case["shard"]::SH]:
        with rec.guard("position %s" % ((x, y),)) as g:
            p = im.get_psf_xy(x, y)
            rec.eval((case["image"], case["seed"], x, y))
            ok = rec.check(p.shape == shape, "shape", "%s: shape %s" % ((x, y), p.shape))
            ok = ok and rec.check(bool(np.isfinite(p).all()), "finite", "%s: not finite" % ((x, y),))
            ok = ok and rec.check(abs(p.sum() - 1) < 1e-6, "sum", "%s: sum %r" % ((x, y), p.sum()))
            if ok and single:
                ok = rec.check(lib.close(p, b[0] / b[0].sum(), 1e-6), "value", "%s: not the component" % ((x, y),))
            elif ok:
                i, j = int(np.floor(x + 0.5)), int(np.floor(y + 0.5))
                r = slice(i - lo[0], i - lo[0] + shape[0])
                c = slice(j - lo[1], j - lo[1] + shape[1])
                if r.start >= 0 and c.start >= 0 and r.stop <= n and c.stop <= m:
                    q = sum(B * f[r, c] / N[r, c] for B, f in zip(b, F))
                    q = q / q.sum()
                    ok = rec.check(lib.close(p, q, 1e-6), "value", "%s: %s" % ((x, y), lib.dist(p, q)))
                    rec.more("interior")
        if g.failed or not ok:
            if len(rec.violations) > 4:
                break
    rec.sample(dict(image=case["image"], components=len(b), stamp=list(shape), positions=len(pts)))
