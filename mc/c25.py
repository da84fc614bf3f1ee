"""C25: sky level and brightness change the results as they must."""
import itertools

import numpy as np

from mc import lib

LEVEL = "exploration"
RULE = (
    "evaluation = one operation of the real code over frames with other sky level or scale, compared with the operation over the frames as they are; "
    "distinct = (frame, level, scale, how the scale is given, operation)"
)
BOUNDS = {
    "quick": "4 frames x 9 sky levels x 6 scales, given by the gain, the header or the pixels; all quantities of an image, Gaussian PSFs, 2 modes of subtraction and 2 coadds with every pair of levels and of scales of the two images",
    "thorough": "6 frames x 15 levels x 10 scales",
}
SHAPES = [(64, 70), (57, 61), (66, 52), (80, 90), (60, 60), (96, 58)]
LEVELS = [0.0, -60.0, 35.5, 1000.0, 4000.0, -20.0, 4.25, 300.0, 2500.0, 1.0, 80.0, 1700.0, -90.0, 3300.0, 640.0]
SCALES = [1.0, 2.0, 0.5, 3.7, 0.81, 7.0, 0.25, 1.3, 5.0, 0.6]


def pixels(f, other=False):
    kw = dict(seed=110 + f, sig=1.4, sigx=[None, 1.2, None, 1.6, None, 1.3][f], var=[0.0, 0.5, 0.8, 0.0, 0.3, 0.0][f])
    if other:
        kw = dict(seed=120 + f, sig=1.6, flux=0.8, var=[0.0, 0.0, 0.4, 0.0, 0.0, 0.6][f])
    # some stars are cut by the edges
    p = lib.scene(*SHAPES[f], step=11, off=[9, 5, 6, 9, 4, 7][f], bg=100, amp=2500, noise=4, **kw)
    b = np.zeros(p.shape, dtype=bool)
    if f % 2 == 0 and not other:
        b[30:32, 18:21] = b[5, 40] = True
    return p, b


def image(f, level, scale, how="pixels", other=False, cls=None):
    p, b = pixels(f, other)
    cls = cls or lib.pi.SingleImage
    p = p + level
    kw = dict(mask=b, stamp_shape=(9, 9))
    if how == "gain":
        return cls(p, gain=scale, **kw)
    if how == "header":
        from astropy.io import fits

        hdu = fits.PrimaryHDU(p)
        hdu.header["GAIN"] = scale
        return cls(hdu, **kw)
    return cls(p * scale, **kw)


def quantities(f, level, scale, how):
    im = image(f, level, scale, how)
    s = np.sort(im.best_sources, order="y")
    a, basis = im.get_variable_psf(0.05)
    x, y = im.get_afield_domain()
    sign = [np.sign(np.sum(b)) for b in basis]
    out = {
        "mask": im.mask.copy(), "background": im.background / scale - level, "noise": np.array(im.var) / scale,
        "interpolated image": im.interped / scale, "flux of the stars": s["flux"] / scale, "positions of the stars": np.array([s["x"], s["y"]]),
        "shape of the stars": np.array([s["a"], s["b"]]), "basis": np.array([b * k for b, k in zip(basis, sign)]),
        "fields": np.array([g(x, y) * k for g, k in zip(a, sign) if g is not None]), "normalisation": im.normal_image,
        "matched filter": im.s_component * scale, "psf": im.get_psf_xy(25.2, 31.4), "psf norm": im.p_sqnorm(),
    }
    im._clean()
    g = image(f, level, scale, how, cls=lib.single_image.SingleImageGaussPSF)
    render, model = g.get_variable_psf()[1]
    out["gaussian"] = np.asarray(render)
    g._clean()
    return out


def subtraction(f, levels, scales, hows, fitted):
    cls = lib.single_image.SingleImageGaussPSF if fitted else lib.pi.SingleImage
    pair = [image(f, l, s, h, i == 1, cls) for i, (l, s, h) in enumerate(zip(levels, scales, hows))]
    z = lib.utils.transparency(pair)[0]
    D, P, S, m = lib.pi.subtract(*pair, align=False, inf_loss=0.2, beta=False, shift=False, iterative=False, fitted_psf=fitted)
    return {"difference": np.asarray(D).real, "psf": np.asarray(P), "mask": np.asarray(m), "zero points": 10 ** (0.4 * (z[0] - z[1])) * np.array([scales[0] / scales[1]])}


def coaddition(f, levels, scales, hows, workers):
    pair = [image(f, l, s, h, i == 1) for i, (l, s, h) in enumerate(zip(levels, scales, hows))]
    R, P, m = lib.pi.coadd(pair, align=False, inf_loss=0.2, n_procs=workers)
    return {"coadd": np.asarray(R).real, "psf": np.asarray(P).real, "mask": np.asarray(m)}


TOL = {"background": 3e-4, "shape of the stars": 2e-3, "flux of the stars": 2e-3, "interpolated image": 3e-4, "noise": 2e-3, "fields": 2e-2, "basis": 5e-3, "psf": 5e-3,
       "difference": 3e-3, "coadd": 3e-3, "matched filter": 5e-3, "normalisation": 5e-3, "gaussian": 2e-3, "zero points": 2e-3, "psf norm": 5e-3, "positions of the stars": 1e-3}


def cases(tier):
    t = tier == "thorough"
    out = []
    for f in range(6 if t else 4):
        for s in range(4):
            out.append(dict(kind="single", frame=f, tier=tier, shard=s, shards=4))
            out.append(dict(kind="pairs", frame=f, tier=tier, shard=s, shards=4))
    return out


def run(case, rec):
    globals()[case["kind"]](case, rec)
    rec.sample(case)


def compare(rec, what, got, want):
    for n in want:
        if not rec.check(lib.close(got[n], want[n], TOL.get(n, 1e-4)), n, "%s: %s is not the one it must be, %s" % (what, n, lib.dist(got[n], want[n]))):
            return


def menu(tier):
    return (LEVELS[:9], SCALES[:6]) if tier == "quick" else (LEVELS, SCALES)


def inside(level, scale):
    """The pixels stay far from the limits of the mask."""
    return scale * (level + 60) > -45 and scale * (level + 7000) < 64000


def single(case, rec):
    f = case["frame"]
    levels, scales = menu(case["tier"])
    with rec.guard("frame %s" % (SHAPES[f],)):
        want = quantities(f, 0.0, 1.0, "pixels")
    todo = [c for c in itertools.product(levels, scales, ("pixels", "gain", "header")) if inside(*c[:2])]
    for level, scale, how in todo[case["shard"]:: case["shards"]]:
        what = "frame %s, level %+g, %g times by its %s" % (SHAPES[f], level, scale, how)
        with rec.guard(what):
            compare(rec, what, quantities(f, level, scale, how), want)
            rec.eval((f, level, scale, how))
        if len(rec.violations) > 8:
            return


def pairs(case, rec):
    f = case["frame"]
    levels, scales = menu(case["tier"])
    ops = [("subtraction", subtraction, (False,)), ("fitted subtraction", subtraction, (True,)), ("coadd, 1 worker", coaddition, (1,)), ("coadd, 2 workers", coaddition, (2,))]
    with rec.guard("frame %s" % (SHAPES[f],)):
        wants = [fn(f, (0, 0), (1, 1), ("pixels", "pixels"), *a) for _, fn, a in ops]
    levels, scales = levels[:5], scales[:4]
    todo = [(ls, (1.0, 1.0)) for ls in itertools.product(levels, repeat=2)] + [((20.0, -30.0), ss) for ss in itertools.product(scales, repeat=2)]
    if case["tier"] == "thorough":
        todo = [(ls, ss) for ls in itertools.product(levels, repeat=2) for ss in itertools.product(scales, repeat=2)]
    todo = [t for t in todo if all(inside(l, s) for l, s in zip(*t))]
    for i, (ls, ss) in list(enumerate(todo))[case["shard"]:: case["shards"]]:
        hows = [("pixels", "gain", "header")[(i + k) % 3] for k in (0, i // 3)]
        for (name, fn, a), want in zip(ops, wants):
            what = "%s, frame %s, levels %s, %s times by %s" % (name, SHAPES[f], list(ls), list(ss), hows)
            with rec.guard(what):
                got = fn(f, ls, ss, hows, *a)
                # the coadd is in units of the noise of the first image
                compare(rec, what, got, want)
                rec.eval((f, ls, ss, tuple(hows), name))
        if len(rec.violations) > 8:
            return
