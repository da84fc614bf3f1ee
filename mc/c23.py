"""C23: the Gaussian PSF of an image is the Gaussian of its stars."""
import itertools
import warnings

import numpy as np

from mc import lib

LEVEL = "exploration"
RULE = "evaluation = one fitted stamp or image compared with the Gaussian it was made of; distinct = (kind, frame, widths, angle, place)"
BOUNDS = {
    "quick": "stamps of 6 shapes x 4 widths x 7 elongations up to 3 x 8 angles x 9 centers within a pixel x 4 scales and levels; images of 3 frames x 3 widths x 4 elongations "
             "up to 2 x 8 angles, each with its transposed and its turned frame; stars among up to 2 wider objects",
    "thorough": "as quick with 16 angles, 16 centers, 5 widths and 6 frames",
}
CASE_TIMEOUT = 500
SHAPES = [(11, 11), (13, 13), (15, 15), (13, 17), (14, 12), (19, 16)]
FRAMES = [(100, 110), (93, 93), (84, 120), (110, 100), (131, 90), (70, 140)]


def moments(a, b, t):
    return np.array([(a * np.cos(t)) ** 2 + (b * np.sin(t)) ** 2, (a * np.sin(t)) ** 2 + (b * np.cos(t)) ** 2, (a * a - b * b) * np.cos(t) * np.sin(t)])


def gauss(shape, cy, cx, a, b, t):
    y, x = np.mgrid[: shape[0], : shape[1]]
    u = (x - cx) * np.cos(t) + (y - cy) * np.sin(t)
    v = -(x - cx) * np.sin(t) + (y - cy) * np.cos(t)
    return np.exp(-(u**2) / 2 / a**2 - v**2 / 2 / b**2)


def angles(tier):
    n = 8 if tier == "quick" else 16
    return [np.pi * k / n for k in range(n)]


def cases(tier):
    out = []
    for s in range(len(SHAPES)):
        for b in (0.8, 1.0, 1.3, 1.8):
            out.append(dict(kind="stamps", shape=s, width=b, tier=tier))
    for f in range(3 if tier == "quick" else 6):
        for b in (1.2, 1.4, 1.7) if tier == "quick" else (1.2, 1.3, 1.4, 1.55, 1.7):
            for e in (1.0, 1.2, 1.5, 2.0):
                out.append(dict(kind="images", frame=f, width=b, ratio=e, tier=tier))
    for f in range(3 if tier == "quick" else 6):
        out.append(dict(kind="others", frame=f, tier=tier))
    out.append(dict(kind="flat"))
    return out


def run(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()[case["kind"]](case, rec)


def of(g):
    return moments(g.x_stddev.value, g.y_stddev.value, g.theta.value)


def stamps(case, rec):
    shape, b = SHAPES[case["shape"]], case["width"]
    offs = (-0.5, 0.0, 0.4) if case["tier"] == "quick" else (-0.7, -0.25, 0.0, 0.45)
    for ratio in (1, 1.1, 1.3, 1.6, 2, 2.5, 3):
        a = b * ratio
        if a > 3:
            continue
        for t, dy, dx in itertools.product(angles(case["tier"]) if ratio > 1 else [0.0], offs, offs):
            cy, cx = shape[0] / 2 - 0.5 + dy, shape[1] / 2 - 0.5 + dx
            amp, level = [(1 / (2 * np.pi * a * b), 0.0), (1 / (2 * np.pi * a * b), 1e-3), (1.0, -0.02), (1000.0, 50.0)][int(round(10 * (dy + 2 * dx) + 40)) % 4]
            arr = level + amp * gauss(shape, cy, cx, a, b, t)
            kept = arr.copy()
            what = "stamp of %s, widths %.2f and %.2f, angle %.2f, center (%.2f, %.2f), %.3g over %.3g" % (shape, a, b, t, cy, cx, amp, level)
            fitter = None
            if ratio == 1.3:
                from astropy.modeling import fitting

                fitter = fitting.LevMarLSQFitter()
            with rec.guard(what):
                g, c = lib.utils.fit_gaussian2d(arr) if fitter is None else lib.utils.fit_gaussian2d(arr, fitter=fitter)
                rec.eval((shape, b, ratio, round(t, 3), dy, dx))
                w = moments(a, b, t)
                rec.check(np.all(np.abs(of(g) - w) < 2e-3 * w.max()), "shape", "%s: second moments %s instead of %s" % (what, of(g), w))
                rec.check(abs(g.x_mean.value - cx) < 2e-3 and abs(g.y_mean.value - cy) < 2e-3, "center", "%s: center (%s, %s)" % (what, g.y_mean.value, g.x_mean.value))
                rec.check(abs(g.amplitude.value / amp - 1) < 2e-3, "height", "%s: height %s" % (what, g.amplitude.value))
                rec.check(abs(c.amplitude.value - level) < 2e-3 * amp, "level", "%s: level %s" % (what, c.amplitude.value))
                rec.check(np.array_equal(arr, kept), "touched", what + ": the stamp was changed")
            if len(rec.violations) > 8:
                return
    rec.sample(dict(case, last=what))


def scene(shape, a, b, t, seed=3, others=0):
    r = np.random.default_rng(seed)
    d = 100 + 3 * r.standard_normal(shape)
    k = 0
    for y in range(11, shape[0] - 10, 17):
        for x in range(11, shape[1] - 10, 17):
            k += 1
            amp = 3000 * (1 + 0.15 * (k % 7))
            cy, cx = y + 0.25 * (k % 4), x + 0.2 * (k % 5)
            if k % 9 == 4 and others > 0:
                others -= 1
                d += amp * gauss(shape, cy, cx, 2.6, 2.3, 0.0)
            else:
                d += amp * gauss(shape, cy, cx, a, b, t)
    return d


def psf(d, rec, what):
    im = lib.single_image.SingleImageGaussPSF(d)
    r = im.get_variable_psf()
    n = im.n_sources
    im._clean()
    rec.check(len(r) == 2 and list(r[0]) == [None] and len(r[1]) == 2, "form", "%s: not one constant PSF" % what)
    img, g = np.asarray(r[1][0]), r[1][1]
    h, w = img.shape
    rec.check(h % 2 == 1 and w % 2 == 1 and img.argmax() == img.size // 2, "render", "%s: the picture of the PSF, %s, is not centered" % (what, img.shape))
    want = gauss(img.shape, h // 2, w // 2, g.x_stddev.value, g.y_stddev.value, g.theta.value) * g.amplitude.value
    rec.check(lib.close(img, want, 1e-6), "render", "%s: the picture is not of the model" % what)
    m = of(g)
    rec.check(np.all(np.isfinite(m)) and g.x_stddev.value > 0 and g.y_stddev.value > 0, "form", "%s: widths %s %s" % (what, g.x_stddev.value, g.y_stddev.value))
    # the second moments of what the operations take
    y, x = np.mgrid[:h, :w]
    q = img / img.sum()
    y, x = y - h // 2, x - w // 2
    pm = np.array([(q * x * x).sum(), (q * y * y).sum(), (q * x * y).sum()])
    rec.check(np.all(np.abs(pm - m) < 0.05 * m[:2].max()), "render", "%s: the picture has moments %s and the model %s" % (what, pm, m))
    return m, n


def truth(rec, m, a, b, t, what):
    """The stamps end before the wings of the stars, so these fits are narrower."""
    w = moments(a, b, t)
    scale = np.sqrt(np.linalg.det([[m[0], m[2]], [m[2], m[1]]]) / np.linalg.det([[w[0], w[2]], [w[2], w[1]]]))
    rec.check(0.62 < scale < 1.06, "width", "%s: area %.3f of that of the stars" % (what, scale))
    rec.check(np.all(np.abs(m / scale - w) < 0.07 * w[:2].max()), "shape", "%s: second moments %s, the stars %s" % (what, m, w))


def images(case, rec):
    shape, b = FRAMES[case["frame"]], case["width"]
    a = b * case["ratio"]
    for t in angles(case["tier"]) if a > b else [0.0]:
        what = "frame %s, widths %.2f and %.2f, angle %.2f" % (shape, a, b, t)
        with rec.guard(what):
            d = scene(shape, a, b, t)
            m, n = psf(d, rec, what)
            rec.eval((shape, a, b, round(t, 3)))
            rec.more("stars fitted", n)
            truth(rec, m, a, b, t, what)
            # the same stars with their axes exchanged, and upside down
            mt, _ = psf(np.ascontiguousarray(d.T), rec, what + ", transposed")
            rec.check(np.all(np.abs(mt[[1, 0, 2]] - m) < 0.08 * m[:2].max()), "transposed", "%s: moments %s, transposed %s" % (what, m, mt))
            mr, _ = psf(np.ascontiguousarray(d[::-1]), rec, what + ", upside down")
            rec.check(np.all(np.abs(mr * [1, 1, -1] - m) < 0.15 * m[:2].max()), "mirror", "%s: moments %s, upside down %s" % (what, m, mr))
            ms, _ = psf(100 + 2.5 * (d - 100), rec, what + ", brighter")
            rec.check(np.all(np.abs(ms - m) < 0.08 * m[:2].max()), "brighter", "%s: moments %s, brighter %s" % (what, m, ms))
    rec.sample(dict(case, last=what, moments=[round(float(q), 3) for q in m]))


def others(case, rec):
    """One or two objects that are wider than the stars do not widen the PSF."""
    shape = FRAMES[case["frame"]]
    for (a, b), t, k in itertools.product([(1.3, 1.3), (1.8, 1.3)], angles("quick")[::3], (1, 2)):
        what = "frame %s, widths %.2f and %.2f, angle %.2f, %d wider objects" % (shape, a, b, t, k)
        with rec.guard(what):
            m0, n0 = psf(scene(shape, a, b, t), rec, what)
            d = scene(shape, a, b, t, others=k)
            im = lib.single_image.SingleImageGaussPSF(d, stamp_shape=(13, 13))
            back = lib.single_image.SingleImageGaussPSF(scene(shape, a, b, t), stamp_shape=(13, 13))
            for i in (im, back):  # all of the detections
                b_ = i._bkg
                import sep

                i.update_sources(sep.extract(np.ascontiguousarray(i.data.data) - b_.back(), 8 * b_.globalrms, minarea=9))
            m, m0 = of(im.get_variable_psf()[1][1]), of(back.get_variable_psf()[1][1])
            rec.eval((shape, a, t, k))
            rec.check(im.n_sources >= 15, "scene", "%s: only %d stars" % (what, im.n_sources))
            rec.check(np.all(np.abs(m - m0) < 0.04 * m0[:2].max()), "wider", "%s: moments %s, without them %s" % (what, m, m0))
            im._clean()
            back._clean()
    rec.sample(dict(case, last=what))


def flat(case, rec):
    """A stamp with nothing in it is still answered."""
    for shape, v in itertools.product(SHAPES, (0.0, 1.0, -3.0)):
        with rec.guard("stamp of %s, all %g" % (shape, v)):
            g, c = lib.utils.fit_gaussian2d(np.full(shape, v))
            rec.eval((shape, v))
            y, x = np.mgrid[: shape[0], : shape[1]]
            rec.check(np.allclose(g(x, y) + c(x, y), v, atol=1e-6), "flat", "stamp of %s, all %g: fitted something else" % (shape, v))
    rec.sample(dict(case))
