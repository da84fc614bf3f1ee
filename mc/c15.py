"""C15: the interpolated image is finite and touches no good pixel."""
import itertools

import numpy as np

from mc import lib

LEVEL = "exploration"
RULE = "evaluation = one image whose interpolated image and background were checked pixel by pixel; distinct = (frame, bad region, kind of bad pixels)"
BOUNDS = {
    "quick": "rectangles of 10 x 10 different sizes from 1 to 33 pixels at 9 to 25 places, edges and corners included, 3 of 7 kinds of bad pixels each, 4 frames; "
             "whole rows, columns, bands and chequered regions; 64 values under the mask; spikes at a lattice of positions",
    "thorough": "as quick with every size at 25 places, every kind",
}
KINDS = ["nan", "inf", "-inf", "saturated", "negative", "flag", "masked"]
SHAPES = [(60, 66), (50, 90), (97, 61), (64, 64)]
SIZES = [1, 2, 3, 4, 6, 9, 11, 13, 20, 33]
REACH = 5


def frame(k, shape):
    p = lib.scene(*shape, seed=60 + k, step=12, off=8)
    # a plateau, that the background does not follow
    p[14:44, 20:48] += 150.0
    # good pixels far from the sky
    n, m = shape
    for j, v in enumerate((0.0, -30.0, 12.0, 900.0, 40000.0, -5.0, 60.0, 3.0)):
        p[(9 + 17 * j) % (n - 4) + 2, (5 + 29 * j) % (m - 4) + 2] = v
    return p.astype("f4")


def build(p, bad, kind):
    kw = dict(stamp_shape=(9, 9))
    if kind == "flag":
        return lib.pi.SingleImage(p.copy(), mask=bad.copy(), **kw)
    if kind == "masked":
        return lib.pi.SingleImage(np.ma.MaskedArray(p.copy(), bad.copy()), **kw)
    q = p.copy()
    q[bad] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "saturated": 66000.0, "negative": -300.0}[kind]
    return lib.pi.SingleImage(q, **kw)


def around(img, good):
    """Least and largest good pixel of the box around each pixel, and how many."""
    n, m = img.shape
    lo, hi, count = np.full((n, m), np.inf), np.full((n, m), -np.inf), np.zeros((n, m), int)
    a, b = np.where(good, img, np.inf), np.where(good, img, -np.inf)
    for dy in range(-REACH, REACH + 1):
        for dx in range(-REACH, REACH + 1):
            ys, yd = slice(max(0, dy), n + min(0, dy)), slice(max(0, -dy), n + min(0, -dy))
            xs, xd = slice(max(0, dx), m + min(0, dx)), slice(max(0, -dx), m + min(0, -dx))
            lo[yd, xd] = np.minimum(lo[yd, xd], a[ys, xs])
            hi[yd, xd] = np.maximum(hi[yd, xd], b[ys, xs])
            count[yd, xd] += good[ys, xs]
    return lo, hi, count


def judge(rec, im, what, bad):
    data, mask = im.data.data.copy(), np.ma.getmaskarray(im.data).copy()
    rec.check(np.all(mask[bad]), "mask", what + ": bad pixels are not masked")
    x = im.interped
    back = im.background
    sub = im.bkg_sub_img
    if not rec.check(x.shape == data.shape and np.asarray(back).shape == data.shape and sub.shape == data.shape, "shape", what + ": shapes differ"):
        return None
    rec.check(np.all(np.isfinite(x)) and np.isrealobj(x), "finite", "%s: %d pixels are not finite" % (what, np.sum(~np.isfinite(x))))
    rec.check(np.all(np.isfinite(back)), "finite", what + ": background is not finite")
    good = ~mask
    s = np.ma.getdata(sub)
    rec.check(np.array_equal(np.ma.getmaskarray(sub), mask), "mask", what + ": the background subtracted image has other mask")
    rec.check(np.allclose((s + back)[good], data[good], rtol=1e-5, atol=1e-2), "sum", what + ": background and rest do not add up to the image")
    d = np.abs(x - s)[good]
    rec.check(d.max() < 1e-4, "good", "%s: %d good pixels change, %.4g at most" % (what, np.sum(d >= 1e-4), d.max()))
    lo, hi, count = around(s, good)
    n, m = data.shape
    yy, xx = np.mgrid[:n, :m]
    edge = (yy < REACH) | (xx < REACH) | (yy >= n - REACH) | (xx >= m - REACH)
    lo = np.where(edge | (count == 0), np.minimum(lo, 0), lo)
    hi = np.where(edge | (count == 0), np.maximum(hi, 0), hi)
    deep = count == 0
    lo[deep], hi[deep] = min(0, s[good].min()), max(0, s[good].max())
    tol = 1e-3 * (1 + np.abs(s[good]).max() * 1e-3)
    out = mask & ((x < lo - tol) | (x > hi + tol))
    p = np.argwhere(out)
    rec.check(not len(p), "around", "%s: %d masked pixels are not like the ones around, at %s" % (what, len(p), p[:3].tolist()))
    rec.more("masked pixels replaced", int(mask.sum()))
    rec.check(np.array_equal(np.ma.getmaskarray(im.data), mask) and lib.close(im.data.data, data, 0), "touched", what + ": the image changed")
    rec.check(np.array_equal(im.interped, x), "again", what + ": another answer the second time")
    return x, np.asarray(back)


def places(shape, h, w, fine):
    ny, nx = shape[0] - h, shape[1] - w
    f = [0, 0.25, 0.5, 0.8, 1] if fine else [0, 0.45, 1]
    return sorted({(int(round(ny * a)), int(round(nx * b))) for a in f for b in f})


def cases(tier):
    out = []
    for s in range(len(SHAPES)):
        for h in SIZES:
            out.append(dict(kind="rects", frame=s, h=h, tier=tier))
        out.append(dict(kind="patterns", frame=s))
    out.append(dict(kind="values"))
    out.append(dict(kind="spikes", step=6 if tier == "quick" else 3))
    return out


def run(case, rec):
    globals()[case["kind"]](case, rec)


def rects(case, rec):
    shape, h, t = SHAPES[case["frame"]], case["h"], case["tier"] == "thorough"
    p = frame(case["frame"], shape)
    k = case["frame"] + SIZES.index(h)
    for w in SIZES:
        for y, x in places(shape, h, w, t or (case["frame"] == 0 and max(h, w) < 12)):
            kinds = KINDS if t else [KINDS[(k + j) % 7] for j in (0, 2, 4)]
            k += 1
            bad = np.zeros(shape, dtype=bool)
            bad[y: y + h, x: x + w] = True
            for kind in kinds:
                what = "%s frame, %d x %d pixels at %s, %s" % (shape, h, w, (y, x), kind)
                with rec.guard(what):
                    im = build(p, bad, kind)
                    judge(rec, im, what, bad)
                    rec.eval((shape, h, w, y, x, kind))
            if len(rec.violations) > 8:
                return
    rec.sample(dict(case, last=what))


def patterns(case, rec):
    shape = SHAPES[case["frame"]]
    p = frame(case["frame"], shape)
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    todo = {
        "none": yy < 0, "row": yy == 17, "first row": yy == 0, "last rows": yy >= shape[0] - 4, "column": xx == 31, "last column": xx == shape[1] - 1,
        "band": (yy > 20) & (yy < 36), "diagonal": yy == xx, "chequers": (yy % 7 == 0) & (xx % 5 == 0), "frame": (yy < 3) | (xx < 3) | (yy >= shape[0] - 3) | (xx >= shape[1] - 3),
        "corner": yy + xx < 18, "third": xx < shape[1] // 3, "star cores": p > 2000,
    }
    for name, bad in todo.items():
        got = {}
        for kind in KINDS:
            what = "%s frame, %s, %s" % (shape, name, kind)
            with rec.guard(what):
                im = build(p, bad, kind)
                out = judge(rec, im, what, bad)
                rec.eval((shape, name, kind))
                # what the bad pixels hold does not count
                if out is not None:
                    if "nan" in got and np.array_equal(im.mask, got["mask"]):
                        rec.check(lib.close(out[0], got["nan"][0], 1e-6) and lib.close(out[1], got["nan"][1], 1e-6), "influence", "%s: not the same as with NaN" % what)
                    elif kind == "nan":
                        got = {"nan": out, "mask": im.mask.copy()}
        if len(rec.violations) > 8:
            return
    rec.sample(dict(case, patterns=sorted(todo)))


def values(case, rec):
    """The values of the pixels flagged by the user do not matter."""
    for f, shape in enumerate(SHAPES[:2]):
        p = frame(f, shape)
        bad = np.zeros(shape, dtype=bool)
        bad[30:33, 40:44] = bad[5, 7] = bad[0, 0] = bad[44:46, 10] = True
        base = None
        for v in [0, 1e3, 5e4, 7e4, 1e30, -1e5, -49, 65000.0, np.nan, np.inf] + [3.0**j for j in range(22)]:
            q = p.copy()
            q[bad] = v
            what = "%s frame, %g under the mask" % (shape, v)
            with rec.guard(what):
                im = build(q, bad, "flag")
                out = judge(rec, im, what, bad)
                rec.eval((shape, v))
                stars = np.sort(im.best_sources["flux"])
                if base is None:
                    base, st = out, stars
                else:
                    rec.check(lib.close(out[0], base[0], 1e-6) and lib.close(out[1], base[1], 1e-6), "influence", what + ": interpolated image or background changes")
                    rec.check(lib.close(stars, st, 1e-5), "influence", what + ": the stars change")
        if len(rec.violations) > 8:
            return
    rec.sample(dict(case))


def spikes(case, rec):
    """Cosmic rays: one bright pixel on the empty sky."""
    shape = SHAPES[0]
    p = lib.scene(*shape, seed=60, step=12, off=8)
    left = []
    n = 0
    for y in range(2, shape[0] - 2, case["step"]):
        for x in range(2, shape[1] - 2, case["step"]):
            dy, dx = (y - 8) % 12, (x - 8) % 12
            if min(dy, 12 - dy) < 5 and min(dx, 12 - dx) < 5:
                continue
            q = p.copy()
            q[y, x] += 4000.0
            with rec.guard("spike at %s" % ((y, x),)):
                im = lib.pi.SingleImage(q, stamp_shape=(9, 9))
                v = im.interped[y, x]
                rec.eval(("spike", y, x))
                n += 1
                if v > 1000:
                    left.append((y, x))
                rec.check(np.all(np.isfinite(im.interped)), "finite", "spike at %s: not finite" % ((y, x),))
                rec.check(not im.mask[y, x], "mask", "spike at %s: mask of the image changed" % ((y, x),))
    rec.check(not left, "cosmic", "%d of %d single pixel cosmic rays stay in the interpolated image, at %s" % (len(left), n, left[:3]))
    rec.sample(dict(case, spikes=n))
