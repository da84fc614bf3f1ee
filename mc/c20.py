"""C20: PSF stars are the reliable ones and hopeless images are refused."""
import itertools

import numpy as np
import sep

from mc import lib

LEVEL = "exploration"
RULE = "evaluation = one image whose stars and stamps were compared with the reference selection; distinct = (star field, options)"
BOUNDS = {
    "quick": "0 to 30 stars x 7 kinds of field (equal, graded, faint, blended, at the edges, masked, wide and narrow) x least numbers of sources 1 to 40 x strict or not x 4 stamp shapes, "
             "3 frames; one field of more than 1800 stars; new catalogs given; refused fields of 4 kinds",
    "thorough": "as quick with all options on every field",
}
FIELDS = ["equal", "graded", "faint", "blended", "edges", "masked", "mixed"]
SHAPES = [(70, 76), (90, 62), (75, 75)]
MINS = [None, 1, 4, 10, 40]
STAMPS = [(9, 9), None, (11, 11), (8, 8)]


def field(kind, n, shape):
    r = np.random.default_rng(n * 10 + FIELDS.index(kind))
    p = 100 + 3 * r.standard_normal(shape)
    m = np.zeros(shape, bool)
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    cells = [(y, x) for y in range(9, shape[0] - 6, 13) for x in range(9, shape[1] - 6, 13)]
    order = np.random.default_rng(5).permutation(len(cells))
    for k in range(min(n, len(cells))):
        y, x = cells[order[k]]
        y, x, s, amp = y + 0.3 * (k % 3), x + 0.2 * (k % 4), 1.3, 1500.0
        if kind == "graded":
            amp = 300.0 * 1.25**k
        elif kind == "faint":
            amp = 22.0 + 4 * (k % 6)
        elif kind == "edges" and k % 2:
            y, x = [(y, 0), (y, shape[1] - 1), (0, x), (shape[0] - 1, x)][k // 2 % 4]
        elif kind == "mixed":
            s, amp = 1.0 + 0.25 * (k % 5), 400.0 * (1 + k % 7)
        p += amp * np.exp(-((yy - y) ** 2 + (xx - x) ** 2) / 2 / s**2)
        if kind == "blended" and k % 3 == 0:
            p += 0.8 * amp * np.exp(-((yy - y) ** 2 + (xx - x - 4) ** 2) / 2 / s**2)
        if kind == "masked" and k % 3 == 1:
            m[int(y), int(x) - 1: int(x) + 2] = True
    return p, m


def reference(p, mask, least):
    """The detections, the selected ones, or the error."""
    b = sep.Background(p, mask=mask) if mask.any() else sep.Background(p)
    s = p - b.back()
    src = sep.extract(s, 8 * b.globalrms, mask=mask, minarea=9)
    low = False
    if len(src) < least:
        more = sep.extract(s, 3 * b.globalrms, mask=mask, minarea=5)
        if len(more) >= len(src):
            src, low = more, True
    if len(src) < 2:
        return None, src, low
    size = np.percentile(src["npix"], [20, 80])
    flux = np.percentile(src["flux"], [15, 85])
    ok = (src["flag"] == 0) & (src["npix"] >= size[0]) & (src["npix"] <= size[1]) & (src["flux"] >= flux[0]) & (src["flux"] <= flux[1])
    return (src[ok] if ok.sum() >= 5 else src), src, low


def cases(tier):
    out = [dict(kind="many")]
    for f in FIELDS:
        for s in range(len(SHAPES)):
            for half in (0, 1):
                out.append(dict(kind="fields", field=f, shape=s, half=half, tier=tier))
    out += [dict(kind="refused"), dict(kind="given")]
    return out


def run(case, rec):
    globals()[case["kind"]](case, rec)


def same(a, b):
    if len(a) != len(b):
        return False
    return all(np.allclose(a[n], b[n], rtol=1e-4, atol=1e-3) for n in ("x", "y", "flux", "npix", "flag"))


def build(p, m, **kw):
    return lib.pi.SingleImage(p.copy(), mask=m.copy() if m.any() else None, **kw)


def fields(case, rec):
    shape = SHAPES[case["shape"]]
    for n in range(case["half"], 31, 2):
        p, m = field(case["field"], n, shape)
        opts = list(itertools.product(MINS, (False, True), STAMPS))
        if case["tier"] == "quick":
            opts = [(MINS[(n // 2) % 5], False, STAMPS[n % 4]), (MINS[(n // 2 + 1) % 5], True, STAMPS[(n // 4) % 4]),
                    (MINS[(n // 2 + 2) % 5], n % 3 == 0, STAMPS[(n + 1) % 4]), (MINS[(n // 2 + 3) % 5], n % 3 == 1, STAMPS[(n // 2) % 4])]
        for least, strict, stamp in opts:
            what = "%d stars, %s, of %s, least %s, strict %s, stamps %s" % (n, case["field"], shape, least, strict, stamp)
            one(rec, p, m, least, strict, stamp, what)
            rec.eval((n, case["field"], shape, least, strict, stamp))
            if len(rec.violations) > 8:
                return
    rec.sample(dict(case, last=what))


def one(rec, p, m, least, strict, stamp, what):
    kw = dict(min_sources=least, strict_star_pick=strict, stamp_shape=stamp)
    probe = None
    try:
        probe = build(p, m, **dict(kw, stamp_shape=(9, 9)))
    except Exception as e:  # noqa
        rec.violate("exception", "%s: %s: %s" % (what, type(e).__name__, e))
        return
    mask = np.array(probe.mask, bool)
    want, found, low = reference(np.ascontiguousarray(probe.data.data), mask, 20 if least is None else least)
    rec.more("low threshold tried", int(low))
    if want is None:
        rec.more("refused", 1)
        try:
            im = build(p, m, **kw)
            im.best_sources
            rec.violate("refuse", "%s: accepted with %d detections" % (what, len(found)))
        except ValueError:
            pass
        except Exception as e:  # noqa
            rec.violate("refuse", "%s: %s instead of ValueError" % (what, type(e).__name__))
        return
    with rec.guard(what):
        im = build(p, m, **kw)
        rec.check(im.min_sources == (20 if least is None else least), "least", "%s: least number of sources is %s" % (what, im.min_sources))
        got = im.best_sources
        if not rec.check(same(got, want), "selection", "%s: %d stars instead of %d out of %d detections" % (what, len(got), len(want), len(found))):
            return
        inside = [bool(np.any(~mask[max(0, int(s["ymin"])): int(s["ymax"]) + 1, max(0, int(s["xmin"])): int(s["xmax"]) + 1])) for s in got]
        rec.check(all(inside), "masked", what + ": a star is all masked")
        before = len(got)
        pos = np.asarray(im.stamps_pos)
        k = im.n_sources
        rec.check(len(pos) == k <= before, "stamps", "%s: %d positions for %d stars of %d" % (what, len(pos), k, before))
        if before <= 20 or not strict:
            rec.check(k == before, "stamps", "%s: only %d of %d stars have stamps" % (what, k, before))
        xy = {(round(float(s["y"]), 3), round(float(s["x"]), 3)) for s in want}
        rec.check(all((round(float(a), 3), round(float(b), 3)) in xy for a, b in pos), "stamps", what + ": stamps away from the stars")
        rec.check(len({tuple(q) for q in pos.tolist()}) == len(pos), "stamps", what + ": a star is used twice")
        sh = tuple(im.stamp_shape)
        if stamp is not None:
            rec.check(sh == (stamp[0] + 6, stamp[1] + 6), "shape", "%s: stamps of shape %s" % (what, sh))
        img = im.interped
        for i in range(k):
            s = np.asarray(im.db.load(i)[0])
            rec.more("stamps")
            if not rec.check(s.shape == sh, "shape", "%s: stamp %d is %s instead of %s" % (what, i, s.shape, sh)):
                break
            rec.check(np.all(np.isfinite(s)) and abs(s.sum() - 1) < 1e-6, "unit", "%s: stamp %d sums %s" % (what, i, s.sum()))
            # its pixels are the ones around the star
            y0, x0 = [int(np.ceil(c - d / 2.0)) for c, d in zip(pos[i], sh)]
            if y0 >= 0 and x0 >= 0 and y0 + sh[0] <= img.shape[0] and x0 + sh[1] <= img.shape[1]:
                cut = img[y0: y0 + sh[0], x0: x0 + sh[1]]
                c = np.corrcoef(cut.ravel(), s.ravel())[0, 1]
                rec.check(c > 0.9999, "pixels", "%s: stamp %d is not the image around its star, correlation %.4f" % (what, i, c))
                rec.more("stamps compared")
        im._clean()
    probe._clean()


def many(case, rec):
    """Too many stars: a number of them is taken at random."""
    p = lib.scene(800, 790, seed=9, step=11, amp=800.0)
    m = np.zeros(p.shape, bool)
    for seed in (1, 2):
        np.random.seed(seed)
        with rec.guard("field of many stars"):
            im = build(p, m, stamp_shape=(9, 9))
            want, found, low = reference(np.ascontiguousarray(im.data.data), m, 20)
            got = im.best_sources
            rec.eval(("many", seed))
            rec.check(len(want) > 1800, "scene", "only %d stars" % len(want))
            rec.check(len(got) == 1800, "selection", "%d stars of %d" % (len(got), len(want)))
            a, b = [{(round(float(s["x"]), 2), round(float(s["y"]), 2)) for s in c} for c in (got, want)]
            rec.check(len(a) == len(got) and len(a - b) <= 2, "selection", "stars repeated or not from the selection")
    rec.sample(dict(case, found=len(found), selected=len(want)))


def refused(case, rec):
    shape = (60, 64)
    flat = {
        "constant": np.full(shape, 100.0),
        "zero": np.zeros(shape),
        "noise": field("equal", 0, shape)[0],
        "one star": field("equal", 1, shape)[0],
        "one star on nothing": field("equal", 1, shape)[0] * 0 + 100 + 1000 * np.exp(-(np.hypot(*(np.mgrid[:60, :64] - np.array([30, 31])[:, None, None])) ** 2) / 4),
        "saturated": np.full(shape, 66000.0),
    }
    for name, p in flat.items():
        for least, stamp in itertools.product((None, 1, 10), ((9, 9), None)):
            what = "%s image, least %s, stamps %s" % (name, least, stamp)
            if name == "noise":
                probe = build(p, np.zeros(shape, bool), stamp_shape=(9, 9))
                if reference(np.ascontiguousarray(probe.data.data), np.zeros(shape, bool), 20 if least is None else least)[0] is not None:
                    continue
            for ask in ("best_sources", "get_variable_psf", "n_sources", "stamps_pos"):
                try:
                    im = build(p, np.zeros(shape, bool), min_sources=least, stamp_shape=stamp)
                    x = getattr(im, ask)
                    x() if callable(x) else x
                    rec.violate("refuse", "%s: %s is answered" % (what, ask))
                except Exception:  # noqa
                    pass
                rec.eval((name, least, stamp, ask))
            for op in ("subtract", "coadd"):
                good = lib.scene(*shape, seed=2)
                try:
                    if op == "subtract":
                        lib.pi.subtract(good, p.copy(), align=False)
                    else:
                        lib.pi.coadd([good, p.copy()], align=False)
                    rec.violate("refuse", "%s: %s goes on" % (what, op))
                except Exception:  # noqa
                    pass
                rec.eval((name, least, stamp, op))
    rec.sample(dict(refused=sorted(flat)))


def given(case, rec):
    """A catalog of the user replaces the stars, and can be dropped."""
    for shape, n in itertools.product(SHAPES, (8, 14, 25)):
        p, m = field("mixed", n, shape)
        what = "%d stars of %s" % (n, shape)
        with rec.guard(what):
            im = build(p, m, stamp_shape=(9, 9))
            own = im.best_sources.copy()
            for k in (2, 3, len(own)):
                sub = own[:k].copy()
                im = build(p, m, stamp_shape=(9, 9))
                im.update_sources(sub)
                rec.eval((shape, n, k))
                rec.check(same(im.best_sources, own[:k]), "given", "%s: the %d stars given are not used" % (what, k))
                rec.check(im.n_sources == k and len(im.stamps_pos) == k, "given", "%s: %d stamps for the %d stars given" % (what, im.n_sources, k))
                rec.check(same(sub, own[:k]), "touched", what + ": the catalog given changed")
                im.update_sources()
                rec.check(same(im.best_sources, own), "given", "%s: the own stars do not come back" % what)
                im._clean()
                # and before anything was asked
                im = build(p, m, stamp_shape=(9, 9))
                im.update_sources(sub.copy()) if k > 2 else im.update_sources()
                ask = own[:k] if k > 2 else own
                rec.check(same(im.best_sources, ask), "given", "%s: new image, the %d stars are not used" % (what, len(ask)))
                rec.check(im.n_sources == len(ask), "given", "%s: new image, %d stamps for %d stars" % (what, im.n_sources, len(ask)))
                im._clean()
    rec.sample(dict(case))
