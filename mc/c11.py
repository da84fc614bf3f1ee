"""C11: subtraction follows the proper formula: difference, PSF, significance."""
import itertools

import numpy as np

from mc import lib, ref

LEVEL = "exploration"
RULE = (
    "evaluation = one subtraction of the real code without fitting, compared with the reference "
    "implementation or with the subtraction it must be related to; distinct = (configuration, relation)"
)
BOUNDS = {
    "quick": "6 frame shapes x 6 pairs of seeing x 4 flux ratios x 4 masks x PSF kinds (Gaussian, one and several components), each against the formula; exchange, "
             "transposition, self subtraction on a subset; cancellation of the stars; a transient of each sign at every third pixel away from edges and stars, for 2 PSF kinds and 2 pairs of seeing",
    "thorough": "as quick with all relations on all configurations, transient at every pixel",
}
SHAPES = [(56, 60), (60, 56), (52, 52), (51, 57), (45, 80), (80, 44)]
SEEING = [((1.3, None), (1.3, None)), ((1.2, None), (1.6, None)), ((1.7, None), (1.2, None)),
          ((1.2, 1.5), (1.5, 1.2)), ((1.3, None), (1.6, 1.2)), ((1.1, None), (2.0, None))]
FLUX = [1.0, 2.5, 0.4, 1.2]
MASKS = ["none", "ref", "new", "both"]
KINDS = ["gauss", "one", "many"]


def pixels(which, shape, seeing, flux, mask, kind, step=10, off=8):
    sig, sigx = seeing[which]
    d = lib.scene(*shape, seed=40 + which, step=step, off=off, sig=sig, sigx=sigx, flux=flux if which else 1.0,
                  noise=4 if which else 3, bg=80 if which else 120, var=0.5 if kind == "many" else 0.0)
    if which == 0 and mask in ("ref", "both"):
        d[24:26, 20:23] = np.nan
        d[5, 30:33] = 66000.0
    if which == 1 and mask in ("new", "both"):
        d[33:35, 13:15] = -300.0
        d[23, 20] = np.nan
    return d


def build(d, kind):
    cls = lib.single_image.SingleImageGaussPSF if kind == "gauss" else lib.pi.SingleImage
    return cls(d, stamp_shape=(9, 9))


def subtract(a, b, kind):
    return lib.pi.subtract(a, b, align=False, beta=False, shift=False, fitted_psf=kind == "gauss", inf_loss=loss(kind))


def loss(kind):
    return 0.02 if kind == "many" else 0.6


def configs():
    return list(itertools.product(range(len(SHAPES)), range(len(SEEING)), range(len(FLUX)), MASKS, KINDS))


def chosen(tier):
    out = []
    for c in configs():
        shape, see, fl, mk, kind = c
        # every pair of values at least, on the quick tier
        if tier == "thorough" or (shape + see + fl + MASKS.index(mk) + KINDS.index(kind)) % 2 == 0:
            out.append(c)
    return out


def cases(tier):
    out = []
    n = len(chosen(tier))
    per = 12
    for s in range(0, n, per):
        out.append(dict(kind="formula", tier=tier, first=s, last=min(n, s + per)))
    for s in range(24):
        out.append(dict(kind="transient", shard=s, shards=24, step=3 if tier == "quick" else 1))
    return out


def run(case, rec):
    if case["kind"] == "formula":
        for c in chosen(case["tier"])[case["first"]: case["last"]]:
            formula(case, c, rec)
            if len(rec.violations) > 8:
                break
        rec.sample(dict(shape=SHAPES[c[0]], seeing=SEEING[c[1]], flux=FLUX[c[2]], mask=c[3], psf=c[4]))
    else:
        transient(case, rec)


def same(rec, got, want, what, key, rtol=1e-7, atol=(0, 0, 0)):
    ok = True
    for x, y, n, t in zip(got, want, ("difference", "psf", "significance"), atol):
        ok = rec.check(lib.close(x, y, rtol, t), key + ":" + n, "%s: %s differs, %s" % (what, n, lib.dist(x, y))) and ok
    return ok


TRT = 0.04  # fits stop, and clip their outliers, not quite the same


def places(im, turned=False):
    s = im.best_sources
    x, y = (s["y"], s["x"]) if turned else (s["x"], s["y"])
    return sorted(zip(np.round(x), np.round(y)))


def formula(case, c, rec):
    shape, see, fl, mk, kind = SHAPES[c[0]], SEEING[c[1]], FLUX[c[2]], c[3], c[4]
    what = "shape %s, seeing %s, flux %s, mask %s, psf %s" % (shape, see, fl, mk, kind)
    pix = [pixels(i, shape, see, fl, mk, kind) for i in (0, 1)]
    mk2 = lambda: [build(p.copy(), kind) for p in pix]
    with rec.guard(what):
        a, b = mk2()
        rec.check(len(a.best_sources) > 3, "scene", what + ": no stars")
        D, P, S, M = subtract(a, b, kind)
        rec.eval((c, "formula"))
        x, y = mk2()
        z, n = ref.flux_scales([x.best_sources, y.best_sources])
        r = ref.Sub(x, y, (1.0, z[1]), loss(kind), kind == "gauss")
        rD, rP, _, rS = r()
        same(rec, (np.asarray(D), P, S), (rD, rP, rS), what, "formula", 1e-6)
        rec.check(np.array_equal(np.asarray(M, bool), x.mask | y.mask), "mask", what + ": mask is not the union")
        if mk == "none" and kind != "many":
            # the stars of both images are the same, they cancel out
            flat = max(np.abs(x.interped).max() / x.var, np.abs(y.interped).max() / y.var)
            rec.check(np.abs(np.real(D)).max() < 0.2 * flat, "cancel", "%s: the stars leave %.3g in the difference, of %.3g" % (what, np.abs(np.real(D)).max(), flat))
        rec.check(np.isrealobj(S) and np.all(np.isfinite(D)) and np.all(np.isfinite(S)) and np.all(np.isfinite(P)), "finite", what + ": not finite")
        for im in (a, b):
            im._clean()
    deep = case["tier"] == "thorough" or (c[0] * 5 + c[1] * 3 + c[2]) % 6 == 0
    if deep:
        others(case, c, rec, what, kind, pix, (D, P, S, M), (x, y))
    for im in (x, y):
        im._clean()


def others(case, c, rec, what, kind, pix, out, images):
    D, P, S, M = out
    mk2 = lambda: [build(p.copy(), kind) for p in pix]
    with rec.guard(what + ", exchanged"):
        a, b = mk2()
        D2, P2, S2, _ = subtract(b, a, kind)
        rec.eval((c, "exchange"))
        same(rec, (-np.asarray(D2), P2, -S2), (np.asarray(D), P, S), what + ", exchanged", "exchange", 1e-5)
    with rec.guard(what + ", with itself"):
        for same_object in (True, False):
            a, b = mk2()
            o = b if same_object else build(pix[1].copy(), kind)
            D2, P2, S2, _ = subtract(b, o, kind)
            rec.eval((c, "self", same_object))
            top = max(np.abs(D).max(), 1e-9)
            rec.check(np.abs(D2).max() <= 1e-9 * top and np.abs(S2).max() <= 1e-9 * max(1, np.abs(S).max()), "null",
                      "%s: the image minus itself goes up to %.3g, significance %.3g" % (what, np.abs(D2).max(), np.abs(S2).max()))
    with rec.guard(what + ", transposed"):
        a, b = [build(p.T.copy(), kind) for p in pix]
        D2, P2, S2, M2 = subtract(a, b, kind)
        rec.eval((c, "transpose"))
        # sep does not detect, nor measure, quite the same in the transposed
        # frame: the flux scale is the one of the stars as measured there
        if all(places(i, True) == places(j) and i.n_sources == j.n_sources for i, j in zip((a, b), images)):
            z, n = ref.flux_scales([a.best_sources, b.best_sources])
            rD, rP, _, rS = ref.Sub(*images, (1.0, z[1]), loss(kind), kind == "gauss")()
            same(rec, (np.asarray(D2).T, P2.T, S2.T), (rD, rP, rS), what + ", transposed", "transpose", TRT)
        else:
            rec.more("other stars in the transposed frame")
        rec.check(np.array_equal(np.asarray(M2).T, M), "transpose:mask", what + ", transposed: mask differs")
    for im in (a, b):
        im._clean()


def transient(case, rec):
    shape, step, off = (66, 70), 17, 9
    todo = []
    for kind, see, sign in itertools.product(("gauss", "one"), (1, 2), (1, -1)):
        stars = [(cy, cx) for cy in range(off, shape[0] - off + 1, step) for cx in range(off, shape[1] - off + 1, step)]
        for y in range(7, shape[0] - 7, case["step"]):
            for x in range(7, shape[1] - 7, case["step"]):
                near = min((y - cy - 0.3) ** 2 + (x - cx - 0.3) ** 2 for cy, cx in stars)
                if near > 49:
                    todo.append((kind, see, sign, y, x))
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    clean = {}
    for kind, see, sign, y, x in todo[case["shard"]:: case["shards"]]:
        what = "transient %+d at %s, seeing %s, psf %s" % (sign, (y, x), SEEING[see], kind)
        pix = [pixels(i, shape, SEEING[see], 1.2, "none", kind, step, off) for i in (0, 1)]
        if (kind, see) not in clean:
            a, b = [build(p, kind) for p in pix]
            clean[kind, see] = subtract(a, b, kind)
        D0, P0, S0, _ = clean[kind, see]
        k = 1 if sign > 0 else 0
        s = SEEING[see][k][0]
        pix[k] = pix[k] + 900.0 * (1.2 if k else 1.0) * np.exp(-((yy - y) ** 2 + (xx - x) ** 2) / (2 * s**2))
        with rec.guard(what):
            a, b = [build(p, kind) for p in pix]
            D, P, S, M = subtract(a, b, kind)
            rec.eval((kind, see, sign, y, x))
            box = (slice(y - 2, y + 3), slice(x - 2, x + 3))
            for name, im in (("difference", np.real(D) - np.real(D0)), ("significance", S - S0)):
                w = sign * im[box]
                p = np.unravel_index(np.argmax(w), w.shape)
                ok = max(abs(p[0] - 2), abs(p[1] - 2)) <= 1
                sd = 1.4826 * np.median(np.abs(im - np.median(im)))
                rec.check(ok, "place:" + name, "%s: extreme of the %s is at %s" % (what, name, (y + p[0] - 2, x + p[1] - 2)))
                rec.check(w.max() > 8 * sd, "sign:" + name, "%s: %s of only %.1f sigma" % (what, name, w.max() / sd))
            for im in (a, b):
                im._clean()
        if len(rec.violations) > 8:
            break
    rec.sample(dict(case, last=what))
